//! C47 options
use crate::dec::*;
use crate::engine::*;
use crate::refs::{jpeg, png};
use crate::util::*;
use crate::Check;
use std::sync::OnceLock;
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_png::PngDecoder;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C47",
        level: "model_checking",
        rule: "every sequence of option setters up to the bound from every preset, with every option read back after each against a model; every valid file of the corpus with every combination of the presets and safety options; every single wrong checksum with every combination of the checksum options; image data, profiles and texts of sizes around inflate limits; every number of scans around every limit; a state is (model of the options) or (file, options)",
        assumptions: &["the running machine has the instruction sets the standard library detects"],
        scenarios: |_| {
            vec![
                Scenario { name: "decoder-options", f: dec_opts },
                Scenario { name: "encoder-options", f: enc_opts },
                Scenario { name: "presets", f: presets },
                Scenario { name: "chunk-checksums", f: crcs },
                Scenario { name: "data-checksum", f: adler },
                Scenario { name: "inflate-limit", f: limits },
                Scenario { name: "scans", f: scans },
                Scenario { name: "set-options", f: set_options }
            ]
        }
    }]
}

// ------------------------------------------------------------------------------------- setters
#[derive(Clone, Debug, PartialEq)]
struct D {
    max_w: usize,
    max_h: usize,
    jpg: bool,
    adler: bool,
    crc: bool,
    uns: bool,
    be: bool,
    limit: usize,
    alpha: bool,
    strip: bool,
    anim: bool,
    jxl: bool,
    scans: usize,
    cs: ColorSpace
}
fn d_show(m: &D) -> Vec<(&'static str, String)> {
    vec![
        ("max_width", m.max_w.to_string()),
        ("max_height", m.max_h.to_string()),
        ("strict_mode", (m.jpg | m.adler | m.crc).to_string()),
        ("use_unsafe", m.uns.to_string()),
        ("byte_endian", if m.be { "big" } else { "little" }.into()),
        ("confirm_adler", m.adler.to_string()),
        ("inflate_limit", m.limit.to_string()),
        ("confirm_crc", m.crc.to_string()),
        ("add_alpha", m.alpha.to_string()),
        ("strip_to_8bit", m.strip.to_string()),
        ("png_animated", m.anim.to_string()),
        ("jxl_animated", m.jxl.to_string()),
        ("max_scans", m.scans.to_string()),
        ("out_colorspace", format!("{:?}", m.cs))
    ]
}
fn d_read(o: &DecoderOptions) -> Vec<(&'static str, String)> {
    vec![
        ("max_width", o.max_width().to_string()),
        ("max_height", o.max_height().to_string()),
        ("strict_mode", o.strict_mode().to_string()),
        ("use_unsafe", o.use_unsafe().to_string()),
        (
            "byte_endian",
            match o.byte_endian() {
                ByteEndian::BE => "big",
                ByteEndian::LE => "little"
            }
            .into()
        ),
        ("confirm_adler", o.inflate_get_confirm_adler().to_string()),
        ("inflate_limit", o.inflate_get_limit().to_string()),
        ("confirm_crc", o.png_get_confirm_crc().to_string()),
        ("add_alpha", o.png_get_add_alpha_channel().to_string()),
        ("strip_to_8bit", o.png_get_strip_to_8bit().to_string()),
        ("png_animated", o.png_decode_animated().to_string()),
        ("jxl_animated", o.jxl_decode_animated().to_string()),
        ("max_scans", o.jpeg_get_max_scans().to_string()),
        ("out_colorspace", format!("{:?}", o.jpeg_get_out_colorspace()))
    ]
}
fn d_check(o: &DecoderOptions, m: &D, how: &str) -> Res {
    for (a, b) in d_read(o).into_iter().zip(d_show(m)) {
        if a != b {
            return bad(format!("decoder-option:{}", a.0), format!("after {how} the option {} reads {}, expected {}", a.0, a.1, b.1));
        }
    }
    #[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
    for (n, got, has) in [
        ("sse2", o.use_sse2(), is_x86_feature_detected!("sse2")),
        ("sse3", o.use_sse3(), is_x86_feature_detected!("sse3")),
        ("sse4.1", o.use_sse41(), is_x86_feature_detected!("sse4.1")),
        ("avx", o.use_avx(), is_x86_feature_detected!("avx")),
        ("avx2", o.use_avx2(), is_x86_feature_detected!("avx2")),
        ("neon", o.use_neon(), false)
    ] {
        if got && !(m.uns && has) {
            return bad(format!("intrinsics:{n}"), format!("after {how} {n} is used although intrinsics are {} and the machine {} it", if m.uns { "allowed" } else { "not allowed" }, if has { "has" } else { "does not have" }));
        }
    }
    Ok(())
}
fn dec_opts(ch: &mut Ch) -> Res {
    let p = ch.choose(4);
    let (name, mut o) = match p {
        0 => ("default", DecoderOptions::default()),
        1 => ("new_safe", DecoderOptions::new_safe()),
        2 => ("new_fast", DecoderOptions::new_fast()),
        _ => ("new_cmd", DecoderOptions::new_cmd())
    };
    // what the presets are documented to hold
    if o.jpeg_get_max_scans() != 100 || o.max_width() != 1 << 14 || o.max_height() != 1 << 14 {
        return bad("preset-limits", format!("{name}: {:?}", d_read(&o)));
    }
    if p == 2 && (o.inflate_get_confirm_adler() || o.png_get_confirm_crc() || o.strict_mode()) {
        return bad("preset-fast", format!("{name} does not relax the checks: {:?}", d_read(&o)));
    }
    let mut m = D {
        max_w: o.max_width(),
        max_h: o.max_height(),
        jpg: o.strict_mode() && !o.png_get_confirm_crc() && !o.inflate_get_confirm_adler(),
        adler: o.inflate_get_confirm_adler(),
        crc: o.png_get_confirm_crc(),
        uns: o.use_unsafe(),
        be: o.byte_endian() == ByteEndian::BE,
        limit: o.inflate_get_limit(),
        alpha: o.png_get_add_alpha_channel(),
        strip: o.png_get_strip_to_8bit(),
        anim: o.png_decode_animated(),
        jxl: o.jxl_decode_animated(),
        scans: o.jpeg_get_max_scans(),
        cs: o.jpeg_get_out_colorspace()
    };
    let mut how = name.to_string();
    d_check(&o, &m, &how)?;
    let n = ch.choose(if ch.thorough() { 5 } else { 4 });
    for _ in 0..n {
        let k = ch.choose(14);
        match k {
            0 => {
                let v = ch.pick(&[0, 1, 70000, usize::MAX]);
                o = o.set_max_width(v);
                m.max_w = v;
                how += &format!(".set_max_width({v})");
            }
            1 => {
                let v = ch.pick(&[0, 3, usize::MAX]);
                o = o.set_max_height(v);
                m.max_h = v;
                how += &format!(".set_max_height({v})");
            }
            2 => {
                let v = ch.pick(&[0, 7, usize::MAX]);
                o = o.inflate_set_limit(v);
                m.limit = v;
                how += &format!(".inflate_set_limit({v})");
            }
            3 => {
                let v = ch.pick(&[0, 1, usize::MAX]);
                o = o.jpeg_set_max_scans(v);
                m.scans = v;
                how += &format!(".jpeg_set_max_scans({v})");
            }
            4 => {
                let v = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::YCbCr]);
                o = o.jpeg_set_out_colorspace(v);
                m.cs = v;
                how += &format!(".jpeg_set_out_colorspace({v:?})");
            }
            _ => {
                let v = ch.flag();
                let s;
                (o, s) = match k {
                    5 => {
                        (m.jpg, m.adler, m.crc) = (v, v, v);
                        (o.set_strict_mode(v), "set_strict_mode")
                    }
                    6 => {
                        m.uns = v;
                        (o.set_use_unsafe(v), "set_use_unsafe")
                    }
                    7 => {
                        m.be = v;
                        (o.set_byte_endian(if v { ByteEndian::BE } else { ByteEndian::LE }), "set_byte_endian big")
                    }
                    8 => {
                        m.adler = v;
                        (o.inflate_set_confirm_adler(v), "inflate_set_confirm_adler")
                    }
                    9 => {
                        m.crc = v;
                        (o.png_set_confirm_crc(v), "png_set_confirm_crc")
                    }
                    10 => {
                        m.alpha = v;
                        (o.png_set_add_alpha_channel(v), "png_set_add_alpha_channel")
                    }
                    11 => {
                        m.strip = v;
                        (o.png_set_strip_to_8bit(v), "png_set_strip_to_8bit")
                    }
                    12 => {
                        m.anim = v;
                        (o.png_set_decode_animated(v), "png_set_decode_animated")
                    }
                    _ => {
                        m.jxl = v;
                        (o.jxl_set_decode_animated(v), "jxl_set_decode_animated")
                    }
                };
                how += &format!(".{s}({v})");
            }
        }
    }
    ch.note(|| how.clone());
    ch.state(hash_bytes(format!("{m:?}").as_bytes()));
    ch.obs(hash_bytes(how.as_bytes()));
    d_check(&o, &m, &how)
}

#[derive(Clone, Debug, PartialEq)]
struct E {
    w: usize,
    h: usize,
    cs: ColorSpace,
    q: u8,
    d: BitDepth,
    t: u8,
    e: u8,
    prog: bool,
    strip: bool
}
fn e_check(o: &EncoderOptions, m: &E, huff: bool, how: &str) -> Res {
    let got = E {
        w: o.width(),
        // the getter is documented to panic on a height of zero
        h: if m.h == 0 { 0 } else { o.height() },
        cs: o.colorspace(),
        q: o.quality(),
        d: o.depth(),
        t: o.num_threads(),
        e: o.effort(),
        prog: o.jpeg_encode_progressive(),
        strip: o.strip_metadata()
    };
    if got != *m {
        return bad("encoder-option", format!("after {how} the options read {got:?}, expected {m:?}"));
    }
    if o.jpeg_optimized_huffman_tables() != huff {
        return bad("encoder-option:huffman", format!("after {how}"));
    }
    Ok(())
}
fn enc_opts(ch: &mut Ch) -> Res {
    let mut how;
    let (mut o, mut m) = match ch.choose(3) {
        0 => {
            how = "default".to_string();
            (EncoderOptions::default(), E { w: 0, h: 0, cs: ColorSpace::RGB, q: 80, d: BitDepth::Eight, t: 4, e: 4, prog: false, strip: false })
        }
        k => {
            let (w, h, cs, d) = if k == 1 { (3, 5, ColorSpace::LumaA, BitDepth::Sixteen) } else { (usize::MAX, 1, ColorSpace::CMYK, BitDepth::Float32) };
            how = format!("new({w}, {h}, {cs:?}, {d:?})");
            (EncoderOptions::new(w, h, cs, d), E { w, h, cs, q: 80, d, t: 4, e: 4, prog: false, strip: false })
        }
    };
    // nothing sets this one
    let huff = o.jpeg_optimized_huffman_tables();
    // only the values the documentation gives are fixed
    (m.q, m.t, m.e) = (o.quality(), o.num_threads(), o.effort());
    if o.jpeg_optimized_huffman_tables() {
        return bad("encoder-default", "optimized tables are on by default, documented as off");
    }
    e_check(&o, &m, huff, &how)?;
    for _ in 0..ch.choose(if ch.thorough() { 5 } else { 4 }) {
        match ch.choose(9) {
            0 => {
                m.w = ch.pick(&[0, 9, usize::MAX]);
                o = o.set_width(m.w);
                how += &format!(".set_width({})", m.w);
            }
            1 => {
                m.h = ch.pick(&[0, 9, usize::MAX]);
                o = o.set_height(m.h);
                how += &format!(".set_height({})", m.h);
            }
            2 => {
                m.cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGBA]);
                o = o.set_colorspace(m.cs);
                how += &format!(".set_colorspace({:?})", m.cs);
            }
            3 => {
                let v = ch.pick(&[0, 1, 99, 100, 101, 255]);
                m.q = v.min(100);
                o = o.set_quality(v);
                how += &format!(".set_quality({v})");
            }
            4 => {
                m.d = ch.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
                o = o.set_depth(m.d);
                how += &format!(".set_depth({:?})", m.d);
            }
            5 => {
                m.t = ch.pick(&[0, 1, 255]);
                o = o.set_num_threads(m.t);
                how += &format!(".set_num_threads({})", m.t);
            }
            6 => {
                m.e = ch.pick(&[0, 127]);
                o = o.set_effort(m.e);
                how += &format!(".set_effort({})", m.e);
            }
            7 => {
                m.prog = ch.flag();
                o = o.set_jpeg_encode_progressive(m.prog);
                how += &format!(".set_jpeg_encode_progressive({})", m.prog);
            }
            _ => {
                m.strip = ch.flag();
                o = o.set_strip_metadata(m.strip);
                how += &format!(".set_strip_metadata({})", m.strip);
            }
        }
    }
    ch.note(|| how.clone());
    ch.state(hash_bytes(format!("{m:?}").as_bytes()));
    ch.obs(hash_bytes(how.as_bytes()));
    e_check(&o, &m, huff, &how)
}

// ------------------------------------------------------------------------------------- presets
const DIMS: [(usize, usize); 4] = [(9, 8), (17, 5), (1, 1), (33, 18)];
fn files(k: usize) -> &'static Vec<(Item, Result<Seen, String>)> {
    static S: [OnceLock<Vec<(Item, Result<Seen, String>)>>; 4] = [const { OnceLock::new() }; 4];
    S[k].get_or_init(|| {
        corpus(DIMS[k].0, DIMS[k].1)
            .into_iter()
            .map(|i| {
                let r = decode(i.fmt, &i.bytes, options());
                (i, r)
            })
            .collect()
    })
}
fn presets(ch: &mut Ch) -> Res {
    let k = ch.choose(if ch.thorough() { 4 } else { 2 });
    let i = ch.choose(files(k).len());
    let (it, want) = &files(k)[i];
    let p = ch.choose(4);
    let mut o = match p {
        0 => DecoderOptions::default(),
        1 => DecoderOptions::new_safe(),
        2 => DecoderOptions::new_fast(),
        _ => DecoderOptions::new_cmd()
    }
    .set_byte_endian(options().byte_endian());
    let mut how = format!("preset {p}");
    for (n, f) in [
        ("strict", DecoderOptions::set_strict_mode as fn(DecoderOptions, bool) -> DecoderOptions),
        ("confirm crc", DecoderOptions::png_set_confirm_crc),
        ("confirm adler", DecoderOptions::inflate_set_confirm_adler),
        ("unsafe", DecoderOptions::set_use_unsafe)
    ] {
        if let v @ 1.. = ch.choose(3) {
            o = f(o, v == 2);
            how += &format!(", {n} {}", v == 2);
        }
    }
    // limits which the file just meets, and which other formats than this one have
    if ch.flag() {
        o = o.set_max_width(it.w).set_max_height(it.h).jpeg_set_max_scans(64);
        how += ", exact limits";
    }
    let what = format!("{} {}x{} with {how}", it.name, it.w, it.h);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let got = decode(it.fmt, &it.bytes, o);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            ch.obs_bytes(&g.bytes);
            match differ(&g, w) {
                Some(d) => bad(format!("presets:{:?}", it.fmt), format!("{what}: {d}")),
                None => Ok(())
            }
        }
        (Err(e), Ok(_)) => bad(format!("presets-reject:{:?}", it.fmt), format!("{what}: a valid file is rejected: {e}")),
        (_, Err(e)) => bad(format!("corpus:{:?}", it.fmt), format!("{what}: the default options reject it: {e}"))
    }
}

// ------------------------------------------------------------------------------------- checksums
fn specs() -> &'static Vec<png::Spec> {
    static S: OnceLock<Vec<png::Spec>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for (n, (color, depth)) in [(0u8, 8u8), (2, 8), (3, 4), (3, 8), (4, 8), (6, 16), (2, 16), (0, 1)].into_iter().enumerate() {
            let mut s = png::Spec::new(5 + n, 6, color, depth, n % 2 == 1, n as u64);
            s.filters = vec![4, 1, 2, 3, 0];
            s.pack = if n % 2 == 0 { png::Pack::Stored } else { png::Pack::Fixed };
            s.splits = vec![9, 0, 13];
            if color == 3 {
                s.trns = Some(png::Trns::Pal(vec![3, 4, 5]));
            }
            s.pre = vec![("gAMA", 45455u32.to_be_bytes().to_vec())];
            s.mid = vec![("tEXt", b"Title\0words".to_vec()), ("tIME", vec![7, 230, 2, 3, 4, 5, 6]), ("prVt", vec![1, 2, 3])];
            s.post = vec![("tEXt", b"Key\0later".to_vec())];
            v.push(s);
        }
        v
    })
}
/// offset of the checksum of every chunk, and its kind
fn chunks(f: &[u8]) -> Vec<(usize, [u8; 4])> {
    let mut v = vec![];
    let mut at = 8;
    while at + 12 <= f.len() {
        let n = u32::from_be_bytes([f[at], f[at + 1], f[at + 2], f[at + 3]]) as usize;
        v.push((at + 8 + n, [f[at + 4], f[at + 5], f[at + 6], f[at + 7]]));
        at += 12 + n;
    }
    v
}
fn check_opts(ch: &mut Ch) -> (DecoderOptions, bool, bool, String) {
    let mut o = DecoderOptions::default().set_byte_endian(ByteEndian::BE);
    let mut how = String::new();
    if ch.flag() {
        o = DecoderOptions::new_fast().set_byte_endian(ByteEndian::BE);
        how += "fast ";
    }
    if let v @ 1.. = ch.choose(3) {
        o = o.set_strict_mode(v == 2);
        how += &format!("strict {} ", v == 2);
    }
    if let v @ 1.. = ch.choose(3) {
        o = o.png_set_confirm_crc(v == 2);
        how += &format!("crc {} ", v == 2);
    }
    if let v @ 1.. = ch.choose(3) {
        o = o.inflate_set_confirm_adler(v == 2);
        how += &format!("adler {} ", v == 2);
    }
    (o, o.png_get_confirm_crc(), o.inflate_get_confirm_adler(), how)
}
fn png_out(f: &[u8], o: DecoderOptions) -> Result<Vec<u8>, String> {
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), o);
    d.decode_raw().map_err(|e| format!("{e:?}"))
}
fn crcs(ch: &mut Ch) -> Res {
    let s = &specs()[ch.choose(specs().len())];
    let mut f = s.file();
    let cs = chunks(&f);
    let c = ch.choose(cs.len());
    let (at, kind) = cs[c];
    // damage to the stored checksum, or a different checksum that is that of something else
    let dmg = ch.choose(if ch.thorough() { 34 } else { 6 });
    let (which, d) = match dmg {
        0 => ("all bits", [255u8; 4]),
        1 => ("last bit", [0, 0, 0, 1]),
        2 => ("first bit", [128, 0, 0, 0]),
        3 => ("second byte", [0, 4, 0, 0]),
        4 => ("third byte", [0, 0, 32, 0]),
        5 => ("nothing", [0; 4]),
        k => ("one bit", (1u32 << (k - 4)).to_be_bytes())
    };
    for i in 0..4 {
        f[at + i] ^= d[i];
    }
    let wrong = d != [0; 4];
    let (o, confirm, _, how) = check_opts(ch);
    let kind_s = String::from_utf8_lossy(&kind).to_string();
    let what = format!("png colour {} depth {} with the checksum of chunk {c} {kind_s} changed in {which}, options {how}", s.color, s.depth);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let last_data = cs.iter().rposition(|x| &x.1 == b"IDAT").unwrap();
    let got = png_out(&f, o);
    ch.obs(got.is_ok() as u64);
    match got {
        Err(e) if !(wrong && confirm) => bad("crc:reject", format!("{what}: rejected although checksums {}: {e}", if wrong { "are not to be confirmed" } else { "match" })),
        Ok(_) if wrong && confirm && c <= last_data => bad("crc:accept", format!("{what}: accepted although checksums are to be confirmed")),
        Ok(b) => {
            let want = s.expect().bytes(true);
            if b != want {
                return bad("crc:pixels", format!("{what}: {}", first_diff(&b, &want)));
            }
            Ok(())
        }
        Err(_) => Ok(())
    }
}
fn adler(ch: &mut Ch) -> Res {
    let s = &specs()[ch.choose(specs().len())];
    let mut z = s.zdata();
    let n = z.len();
    let bit = ch.choose(33);
    if bit < 32 {
        z[n - 4 + bit / 8] ^= 128 >> (bit % 8);
    }
    let f = s.file_with(&z);
    let (o, _, confirm, how) = check_opts(ch);
    let what = format!("png colour {} depth {} with bit {bit} of the data checksum changed, options {how}", s.color, s.depth);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let got = png_out(&f, o);
    ch.obs(got.is_ok() as u64);
    let wrong = bit < 32;
    match got {
        Err(e) if !(wrong && confirm) => bad("adler:reject", format!("{what}: rejected although the checksum {}: {e}", if wrong { "is not to be confirmed" } else { "matches" })),
        Ok(_) if wrong && confirm => bad("adler:accept", format!("{what}: accepted although the checksum is to be confirmed")),
        Ok(b) => {
            let want = s.expect().bytes(true);
            if b != want {
                return bad("adler:pixels", format!("{what}: {}", first_diff(&b, &want)));
            }
            Ok(())
        }
        Err(_) => Ok(())
    }
}

/// nothing is decompressed past the limit: neither the data of the image nor a profile or text
fn limits(ch: &mut Ch) -> Res {
    let mut s = specs()[ch.choose(specs().len())].clone();
    s.pack = ch.pick(&[png::Pack::Stored, png::Pack::Fixed]);
    let kind = ch.choose(3);
    let len = ch.pick(if ch.thorough() { &[0usize, 1, 5, 300, 1000, 40000, 70000] } else { &[1usize, 300, 40000] });
    let bytes: Vec<u8> = (0..len).map(|i| if i % 100 < 50 { 7 } else { (i * i / 3) as u8 }).collect();
    let z = png::compress(&bytes, ch.pick(&[png::Pack::Stored, png::Pack::Fixed]));
    match kind {
        1 => s.pre.push(("iCCP", [b"prof\0\0".to_vec(), z].concat())),
        2 => s.mid.push(("zTXt", [b"Note\0\0".to_vec(), z].concat())),
        _ if len != 300 => {
            ch.discard();
            return Ok(());
        }
        _ => {}
    }
    let raw = png::filtered(s.w, s.h, s.color, s.depth, s.adam7, &s.samples, &s.filters).len();
    let around = [raw, len][ch.choose(if kind == 0 { 1 } else { 2 })];
    let limit = match ch.choose(if ch.thorough() { 12 } else { 9 }) {
        0 => None,
        1 => Some(around),
        2 => Some(around.saturating_sub(1)),
        3 => Some(around + 1),
        4 => Some(around + 1000),
        5 => Some(around / 2),
        6 => Some(0),
        7 => Some(around * 2 + 300),
        8 => Some(around.saturating_sub(9)),
        9 => Some(1),
        10 => Some(usize::MAX >> 1),
        _ => Some(around + 9)
    };
    let mut o = DecoderOptions::default().set_byte_endian(ByteEndian::BE);
    if let Some(l) = limit {
        o = o.inflate_set_limit(l);
    }
    let limit = limit.unwrap_or(1 << 30);
    let what = format!("png colour {} depth {} of {raw} uncompressed bytes with {} of {len}, limit {limit}", s.color, s.depth, ["nothing", "a profile", "a text"][kind]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let f = s.file();
    let mut d = PngDecoder::new_with_options(ZCursor::new(&f), o);
    let got = d.decode_raw();
    ch.obs(got.is_ok() as u64);
    let extra: Option<Vec<u8>> = match (kind, d.info()) {
        (1, Some(i)) => i.icc_profile.clone(),
        (2, Some(i)) => i.ztxt_chunk.first().map(|c| c.text.clone()),
        _ => None
    };
    if let Some(x) = &extra {
        if x.len() > limit {
            return bad("limit:extra", format!("{what}: {} bytes were decompressed", x.len()));
        }
        if x != &bytes {
            return bad("limit:extra-bytes", format!("{what}: it is given as {} other bytes", x.len()));
        }
    }
    match got {
        Err(e) if raw <= limit && len <= limit => bad("limit:reject", format!("{what}: {e:?}")),
        Ok(_) if raw > limit => bad("limit:accept", format!("{what}: the image is decompressed all the same")),
        Ok(b) => {
            if kind != 0 && len <= limit && extra.is_none() {
                return bad("limit:lost", format!("{what}: it is missing"));
            }
            let want = s.expect().bytes(true);
            if b != want {
                return bad("limit:pixels", format!("{what}: {}", first_diff(&b, &want)));
            }
            Ok(())
        }
        Err(_) => Ok(())
    }
}

// ------------------------------------------------------------------------------------- scans
fn scans(ch: &mut Ch) -> Res {
    let n = ch.pick(&[1usize, 3, 4]);
    let samp = &[(1, 1); 4][..n];
    let mut j = jpeg::Jpeg::new(11, 9, samp, 1, n as u32);
    j.clear_padding();
    let prog = ch.flag();
    let mut c = jpeg::Coding::baseline(n);
    if prog {
        c.sof = 0xC2;
        let al = ch.choose(3) as u8;
        let sep = ch.flag();
        let all = [8usize, 20, 30, 40, 50];
        let cuts = &all[..ch.choose(if ch.thorough() { 6 } else { 3 })];
        c.scans = jpeg::script(n, al, sep, cuts, al, ch.choose(3));
    } else if n > 1 {
        // split the components over the scans in order
        let masks: Vec<usize> = (0..1 << (n - 1)).collect();
        let m = masks[ch.choose(masks.len())];
        let mut v: Vec<Vec<usize>> = vec![vec![0]];
        for k in 1..n {
            if m >> (k - 1) & 1 == 1 {
                v.push(vec![k]);
            } else {
                v.last_mut().unwrap().push(k);
            }
        }
        c.scans = v.into_iter().map(|comps| jpeg::Scan { comps, ss: 0, se: 63, ah: 0, al: 0 }).collect();
    }
    let k = c.scans.len();
    let limits: Vec<usize> = [0, 1, k.saturating_sub(2), k - 1, k, k + 1, k + 7, usize::MAX].to_vec();
    let limit = limits[ch.choose(limits.len())];
    let strict = ch.flag();
    let o = options().jpeg_set_max_scans(limit).set_strict_mode(strict);
    let what = format!("jpeg of {n} components in {k} {} scans, limit {limit} strict {strict}", if prog { "progressive" } else { "sequential" });
    ch.note(|| what.clone());
    let f = j.file(&c);
    ch.state(hash_bytes(&f) ^ limit as u64);
    let got = decode(Fmt::Jpeg, &f, o);
    ch.obs(got.is_ok() as u64);
    let reference = match decode(Fmt::Jpeg, &f, options().jpeg_set_max_scans(1000)) {
        Ok(r) => r,
        Err(e) => return bad("scans:corpus", format!("{what}: without a limit: {e}"))
    };
    match got {
        Ok(_) if k > limit && (prog || k > 1) => bad(if prog { "scans:accept" } else { "scans:accept-sequential" }, format!("{what}: more scans than the limit were accepted")),
        Ok(g) => match differ(&g, &reference) {
            Some(d) => bad("scans:pixels", format!("{what}: {d}")),
            None => Ok(())
        },
        Err(e) if k <= limit => bad("scans:reject", format!("{what}: rejected although the limit is met: {e}")),
        Err(_) => Ok(())
    }
}

// ------------------------------------------------------------------------------------- set_options
/// options given to a decoder after it was made act like those given when it was made
fn set_options(ch: &mut Ch) -> Res {
    let k = ch.choose(if ch.thorough() { 4 } else { 2 });
    let of: Vec<usize> = (0..files(k).len()).filter(|i| matches!(files(k)[*i].0.fmt, Fmt::Png | Fmt::Jpeg)).collect();
    let it = &files(k)[ch.pick(&of)].0;
    let list = |ch: &mut Ch| {
        let mut o = DecoderOptions::default();
        match ch.choose(8) {
            0 => {}
            1 => o = o.png_set_strip_to_8bit(true),
            2 => o = o.png_set_add_alpha_channel(true),
            3 => o = o.jpeg_set_out_colorspace(ColorSpace::Luma),
            4 => o = o.jpeg_set_out_colorspace(ColorSpace::RGBA).set_byte_endian(ByteEndian::LE),
            5 => o = o.set_max_width(1).set_max_height(1),
            6 => o = o.set_strict_mode(true).set_use_unsafe(false),
            _ => o = o.jpeg_set_max_scans(2).png_set_strip_to_8bit(true).png_set_add_alpha_channel(true)
        }
        o
    };
    let first = list(ch);
    let mid = if ch.flag() { Some(list(ch)) } else { None };
    let last = list(ch);
    let what = format!("{} {}x{} with {first:?}, then {mid:?}, then {last:?}", it.name, it.w, it.h);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    type Out = Result<(Vec<u8>, Option<(usize, usize)>, Option<ColorSpace>, String), String>;
    let run = |late: bool| -> (Out, DecoderOptions) {
        let start = if late { first } else { last };
        if it.fmt == Fmt::Png {
            let mut d = PngDecoder::new_with_options(ZCursor::new(&it.bytes), start);
            if late {
                mid.into_iter().for_each(|o| d.set_options(o));
                d.set_options(last);
            }
            let o = *d.options();
            (d.decode_raw().map(|v| (v, d.dimensions(), d.colorspace(), format!("{:?}", d.depth()))).map_err(|e| format!("{e:?}")), o)
        } else {
            let mut d = zune_jpeg::JpegDecoder::new_with_options(ZCursor::new(&it.bytes), start);
            if late {
                mid.into_iter().for_each(|o| d.set_options(o));
                d.set_options(last);
            }
            let o = *d.options();
            (d.decode().map(|v| (v, d.dimensions(), d.output_colorspace(), String::new())).map_err(|e| format!("{e:?}")), o)
        }
    };
    let ((a, _), (b, o)) = (run(false), run(true));
    if format!("{o:?}") != format!("{last:?}") {
        return bad("set-options-kept", format!("{what}: options() gives {o:?}"));
    }
    ch.obs(hash_bytes(format!("{b:?}").as_bytes()));
    match a == b {
        true => Ok(()),
        false => bad("set-options", format!("{what}: the result differs from a decoder made with the last options: {:.200} and {:.200}", format!("{b:?}"), format!("{a:?}")))
    }
}
