//! C09 pixel exactness, C10 decode options, C11 animation
use crate::engine::*;
use crate::refs::png::*;
use crate::util::*;
use crate::Check;
use zune_core::bit_depth::ByteEndian;
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
#[cfg(feature = "std")]
use zune_png::post_process_image;
use zune_png::{BlendOp, DisposeOp, PngDecoder};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C09",
            level: "model_checking",
            rule: "files written by a reference PNG writer: every colour type, depth, interlacing, dimension and filter in the bound, every filter sequence, every transparency entry, every split of the data into chunks, decoded by the real decoder and compared sample by sample with the PNG specification; a state is a distinct expected image",
            assumptions: &["the reference writer and sample definition in mc/src/refs/png.rs follow the PNG specification"],
            scenarios: |_| vec![
                Scenario { name: "shapes", f: shapes },
                Scenario { name: "filters", f: filters },
                Scenario { name: "filter-values", f: filter_values },
                Scenario { name: "wide", f: wide },
                Scenario { name: "transparency", f: transparency },
                Scenario { name: "values", f: values },
                Scenario { name: "splits", f: splits },
                Scenario { name: "chunks", f: extra_chunks }
            ]
        },
        Check {
            id: "C10",
            level: "model_checking",
            rule: "every combination of strip, alpha, byte order, strictness, checksum and speed options, decoding call, colour type, depth, transparency and interlacing in the bound, compared with the documented transformation of the reference samples; a state is a distinct expected output",
            assumptions: &["an alpha channel is added as fully opaque to pixels that have no transparency information"],
            scenarios: |_| vec![Scenario { name: "options", f: options }, Scenario { name: "neutral", f: neutral }]
        },
        Check {
            id: "C11",
            level: "model_checking",
            rule: "every sequence of frames up to the bound over sizes, offsets, blend operations, delays, data chunk splits, delivered frame by frame and compared with the frame's own samples and control data; every frame rectangle and pixel value composited and compared with the APNG canvas rules",
            assumptions: &["disposal is only claimed for dispose operation none; partial transparency blending is only bounded by monotonicity"],
            scenarios: |_| vec![
                Scenario { name: "frames", f: frames },
                Scenario { name: "compose", f: compose },
                Scenario { name: "compose-over", f: compose_over }
            ]
        },
    ]
}

fn opts(ch: &mut Ch) -> DecoderOptions {
    // the portable and the accelerated code paths
    match ch.choose(2) {
        0 => DecoderOptions::default(),
        _ => DecoderOptions::default().set_use_unsafe(false)
    }
}
fn to_bytes(r: DecodingResult) -> (Vec<u16>, bool) {
    match r {
        DecodingResult::U8(v) => (v.into_iter().map(u16::from).collect(), false),
        DecodingResult::U16(v) => (v, true),
        _ => (vec![], false)
    }
}
fn decode_as(o: DecoderOptions, file: &[u8], want: &Out, what: &str) -> Res {
    let mut d = PngDecoder::new_with_options(ZCursor::new(file), o);
    match d.decode() {
        Err(e) => bad("decode-error", format!("{what}: valid file rejected: {e:?}")),
        Ok(r) => {
            let (v, wide) = to_bytes(r);
            if wide != want.wide {
                return bad("depth", format!("{what}: 16-bit output is {wide}, expected {}", want.wide));
            }
            let nc = d.colorspace().map(|c| c.num_components()).unwrap_or(0);
            if nc != want.nc {
                return bad("channels", format!("{what}: {nc} channels, expected {}", want.nc));
            }
            if v != want.v {
                let i = v.iter().zip(&want.v).position(|(a, b)| a != b);
                return bad("pixels", format!("{what}: {} samples, expected {}; first difference at {i:?}: got {:?}, expected {:?}", v.len(), want.v.len(), i.map(|i| v[i]), i.map(|i| want.v[i])));
            }
            Ok(())
        }
    }
}
fn go(ch: &mut Ch, s: &Spec, o: DecoderOptions) -> Res {
    let want = s.expect();
    let b = want.bytes(true);
    ch.state(hash_bytes(&b));
    ch.obs_bytes(&b);
    let what = format!("{}x{} colour {} depth {} adam7 {} filters {:?} trns {:?} splits {:?}", s.w, s.h, s.color, s.depth, s.adam7, s.filters, s.trns, s.splits);
    ch.note(|| what.clone());
    decode_as(o, &s.file(), &want, &what)
}
fn a_trns(ch: &mut Ch, s: &mut Spec) {
    // no transparency / a key that occurs / (palette) alpha lists of several lengths
    let k = ch.choose(match s.color { 0 | 2 => 2, 3 => 3, _ => 1 });
    if k == 0 {
        return;
    }
    let mid = (s.w * s.h / 2) * comps(s.color);
    s.trns = Some(match s.color {
        0 => Trns::Gray(s.samples[mid]),
        2 => Trns::Rgb([s.samples[mid], s.samples[mid + 1], s.samples[mid + 2]]),
        _ => {
            let n = if k == 1 { s.palette.len() } else { s.palette.len() / 2 };
            Trns::Pal((0..n.max(1)).map(|i| (i * 37) as u8).collect())
        }
    });
}
const FILT: [&[u8]; 7] = [&[0], &[1], &[2], &[3], &[4], &[4, 3, 2, 1, 0], &[1, 4, 0, 3]];

fn shapes(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&KINDS);
    let adam7 = ch.flag();
    let w = if ch.thorough() { ch.choose(20) + 1 } else { ch.choose(10) + 1 };
    let h = if ch.thorough() { ch.choose(12) + 1 } else { ch.pick(&[1, 2, 3, 4, 5, 8, 9]) };
    let f = ch.pick(&FILT);
    let mut s = Spec::new(w, h, color, depth, adam7, 1 + w as u64 * 31 + h as u64);
    s.filters = f.to_vec();
    a_trns(ch, &mut s);
    let o = opts(ch);
    go(ch, &s, o)
}
fn filters(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&[(0, 1), (0, 8), (0, 16), (2, 8), (2, 16), (4, 8), (6, 8), (6, 16), (3, 4)]);
    let w = ch.pick(&[1, 2, 3, 4, 5, 9]);
    let n = if ch.thorough() { 5 } else { 4 };
    let f: Vec<u8> = (0..n).map(|_| ch.choose(5) as u8).collect();
    let mut s = Spec::new(w, n, color, depth, false, 77);
    s.filters = f;
    let o = opts(ch);
    go(ch, &s, o)
}
/// every combination of boundary bytes for left, up, upper left and current, under every filter
fn filter_values(ch: &mut Ch) -> Res {
    let vals: &[u16] = if ch.thorough() { &[0, 1, 2, 127, 128, 129, 200, 254, 255] } else { &[0, 1, 127, 128, 254, 255] };
    let (color, nc) = ch.pick(&[(0u8, 1usize), (2, 3), (6, 4), (4, 2)]);
    let f = ch.choose(5) as u8;
    let q: Vec<u16> = (0..4).map(|_| ch.pick(vals)).collect();
    // three pixels wide so that the vectorised and the tail code are both used
    let mut s = Spec::new(3, 2, color, 8, false, 0);
    let pat = [0, 1, 0, 2, 3, 2];
    for p in 0..6 {
        for c in 0..nc {
            s.samples[p * nc + c] = q[(pat[p] + if c == 1 { 1 } else { 0 }) % 4];
        }
    }
    s.filters = vec![f];
    let o = opts(ch);
    go(ch, &s, o)
}
fn wide(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&KINDS);
    let w = ch.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257, 1000]);
    let f = ch.pick(&FILT);
    let adam7 = ch.flag();
    let mut s = Spec::new(w, 5, color, depth, adam7, 5);
    s.filters = f.to_vec();
    a_trns(ch, &mut s);
    s.pack = if ch.flag() { Pack::Stored } else { Pack::Fixed };
    let o = opts(ch);
    go(ch, &s, o)
}
fn transparency(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&[(0u8, 1u8), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8)]);
    let adam7 = ch.flag();
    let mut s = match (color, depth) {
        (0, 16) | (2, _) => {
            // samples that differ from the key in one byte of one component only
            let nc = comps(color);
            let key: Vec<u16> = if depth == 16 { vec![0x1234, 0xFF00, 0x00FF] } else { vec![0x12, 0xFF, 0x00] };
            let key = &key[..nc];
            let mut v = key.to_vec();
            for c in 0..nc {
                for d in if depth == 16 { vec![1u16, 0x100, 0x101] } else { vec![1, 0x80] } {
                    let mut k = key.to_vec();
                    k[c] ^= d;
                    v.extend(k);
                }
            }
            v.extend(key);
            let n = v.len() / nc;
            let mut s = Spec::new(n, 1, color, depth, adam7, 0);
            s.samples = v;
            s.trns = Some(if color == 0 { Trns::Gray(key[0]) } else { Trns::Rgb([key[0], key[1], key[2]]) });
            s
        }
        (0, _) => {
            let n = 1usize << depth;
            let mut s = Spec::new(n.min(16), n / n.min(16), color, depth, adam7, 0);
            s.samples = (0..n as u16).collect();
            s.trns = Some(Trns::Gray(ch.choose(n) as u16));
            s
        }
        _ => {
            let n = 1usize << depth;
            let used = if n <= 16 { 1 + ch.choose(n) } else { ch.pick(&[1, 2, 3, 100, 255, 256]) };
            let mut s = Spec::new(n.min(16), n.div_ceil(16), color, depth, adam7, 0);
            s.palette.truncate(used);
            s.samples = (0..s.w * s.h).map(|i| (i % used) as u16).collect();
            let t = if used <= 16 { ch.choose(used + 1) } else { ch.pick(&[0, 1, 2, 50, 100]) };
            s.trns = if t == 0 { None } else { Some(Trns::Pal((0..t).map(|i| (i * 53 + 1) as u8).collect())) };
            s
        }
    };
    s.filters = ch.pick(&[&[0u8][..], &[4, 1]]).to_vec();
    let o = opts(ch);
    go(ch, &s, o)
}
/// every sample value of the narrow depths and boundary values of the wide ones, in every position of a packed byte
fn values(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&KINDS);
    let max = if depth == 16 { 65535u32 } else { (1 << depth) - 1 };
    let nc = comps(color);
    let w = ch.choose(if depth < 8 { 8 / depth as usize + 1 } else { 2 }) + 1;
    let v = if depth <= 8 { ch.choose(max as usize + 1) as u16 } else { ch.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x1FF, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF]) };
    let pos = ch.choose(w * nc);
    let mut s = Spec::new(w, 1, color, depth, false, 3);
    s.samples[pos] = v;
    let o = DecoderOptions::default();
    go(ch, &s, o)
}
/// every way of cutting a small data stream at up to two (three) places, empty chunks included
fn splits(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&[(2u8, 8u8), (0, 16), (3, 2)]);
    let mut s = Spec::new(3, 3, color, depth, ch.flag(), 9);
    s.filters = vec![4, 1, 3];
    s.pack = if ch.flag() { Pack::Stored } else { Pack::Fixed };
    let n = s.zdata().len();
    let a = ch.choose(n + 1);
    let b = ch.choose(n - a + 1);
    s.splits = vec![a, b];
    if ch.thorough() {
        let c = ch.choose(3);
        s.splits.push(c);
    }
    let o = opts(ch);
    go(ch, &s, o)
}
/// ancillary and unknown chunks in every place never change the pixels
fn extra_chunks(ch: &mut Ch) -> Res {
    let list: Vec<(&'static str, Vec<u8>)> = vec![
        ("gAMA", 45455u32.to_be_bytes().to_vec()),
        ("pHYs", vec![0, 0, 1, 2, 0, 0, 1, 2, 1]),
        ("tIME", vec![7, 0xE6, 12, 31, 23, 59, 60]),
        ("tEXt", b"Title\0hello".to_vec()),
        ("tEXt", b"Title\0".to_vec()),
        ("zTXt", [b"Comment\0\0".to_vec(), super::super::refs::deflate::zlib_stored(b"some text")].concat()),
        ("iTXt", b"Title\0\0\0\0\0text".to_vec()),
        ("iTXt", b"Title\0\0\0en\0Titel\0text".to_vec()),
        ("eXIf", vec![0x49, 0x49, 0x2A, 0, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        ("iCCP", [b"prof\0\0".to_vec(), super::super::refs::deflate::zlib_stored(&[1, 2, 3, 4, 5])].concat()),
        ("sRGB", vec![0]),
        ("abCd", vec![]),
        ("abCd", pattern(300, 4)),
    ];
    let (color, depth) = ch.pick(&[(2u8, 8u8), (0, 4), (3, 8), (6, 16)]);
    let mut s = Spec::new(5, 3, color, depth, false, 2);
    s.filters = vec![4, 2, 1];
    a_trns(ch, &mut s);
    let n = ch.choose(3);
    for _ in 0..n {
        let c = list[ch.choose(list.len())].clone();
        match ch.choose(3) {
            0 => s.pre.push(c),
            1 => s.mid.push(c),
            _ => s.post.push(c)
        }
    }
    let o = DecoderOptions::default().set_strict_mode(ch.flag());
    go(ch, &s, o)
}

// ---------------------------------------------------------------------------------------------
fn options(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&KINDS);
    let adam7 = ch.flag();
    let (w, h) = if ch.thorough() { ch.pick(&[(1, 1), (3, 2), (5, 3), (9, 9), (17, 4), (2, 1), (1, 4), (33, 2)]) } else { ch.pick(&[(1, 1), (3, 2), (9, 5)]) };
    let mut s = Spec::new(w, h, color, depth, adam7, 11);
    s.filters = ch.pick(&[&[0u8][..], &[4, 3, 1]]).to_vec();
    a_trns(ch, &mut s);
    let strip = ch.flag();
    let alpha = ch.flag();
    let little = ch.flag();
    let api = ch.choose(3);
    let mut o = opts(ch);
    o = o.png_set_strip_to_8bit(strip).png_set_add_alpha_channel(alpha);
    o = o.set_byte_endian(if little { ByteEndian::LE } else { ByteEndian::BE });
    let mut want = s.expect();
    if alpha {
        want = want.add_alpha();
    }
    if strip {
        want = want.strip();
    }
    let what = format!("{w}x{h} colour {color} depth {depth} adam7 {adam7} filters {:?} trns {:?} strip {strip} add-alpha {alpha} little {little}", s.filters, s.trns);
    ch.note(|| format!("{what} call {api}"));
    let file = s.file();
    let wb = want.bytes(!little);
    ch.state(hash_bytes(&wb));
    ch.obs_bytes(&wb);
    match api {
        0 => decode_as(o, &file, &want, &what),
        1 => match PngDecoder::new_with_options(ZCursor::new(&file), o).decode_raw() {
            Err(e) => bad("decode-error", format!("{what}: decode_raw: {e:?}")),
            Ok(v) if v != wb => bad("pixels", format!("{what}: decode_raw: {}", first_diff(&v, &wb))),
            Ok(_) => Ok(())
        },
        _ => {
            let mut d = PngDecoder::new_with_options(ZCursor::new(&file), o);
            if let Err(e) = d.decode_headers() {
                return bad("decode-error", format!("{what}: headers: {e:?}"));
            }
            match d.output_buffer_size() {
                Some(n) if n == wb.len() => {}
                x => return bad("size", format!("{what}: output size {x:?}, expected {}", wb.len()))
            }
            let mut out = vec![0xA5; wb.len()];
            match d.decode_into(&mut out) {
                Err(e) => bad("decode-error", format!("{what}: decode_into: {e:?}")),
                Ok(()) if out != wb => bad("pixels", format!("{what}: decode_into: {}", first_diff(&out, &wb))),
                Ok(()) => Ok(())
            }
        }
    }
}
/// strictness, checksum confirmation and intrinsics change nothing on valid files
fn neutral(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&KINDS);
    let adam7 = ch.flag();
    let (w, h) = ch.pick(&[(1, 1), (7, 3), (33, 4)]);
    let mut s = Spec::new(w, h, color, depth, adam7, 12);
    s.filters = vec![4, 3, 2, 1, 0];
    a_trns(ch, &mut s);
    s.pre.push(("gAMA", 45455u32.to_be_bytes().to_vec()));
    s.mid.push(("tEXt", b"Title\0hello".to_vec()));
    let mut o = match ch.choose(4) {
        0 => DecoderOptions::default(),
        1 => DecoderOptions::new_safe(),
        2 => DecoderOptions::new_fast(),
        _ => DecoderOptions::new_cmd()
    };
    o = o.set_strict_mode(ch.flag());
    o = o.png_set_confirm_crc(ch.flag());
    o = o.inflate_set_confirm_adler(ch.flag());
    o = o.set_use_unsafe(ch.flag());
    o = o.png_set_strip_to_8bit(false).png_set_add_alpha_channel(false);
    go(ch, &s, o)
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone)]
pub(crate) struct Fr {
    pub w: usize, pub h: usize, pub x: usize, pub y: usize,
    pub num: u16, pub den: u16, pub dispose: u8, pub blend: u8,
    pub samples: Vec<u16>,
    pub cuts: usize
}
pub(crate) fn fctl(seq: u32, f: &Fr) -> Vec<u8> {
    let mut d = seq.to_be_bytes().to_vec();
    for v in [f.w, f.h, f.x, f.y] {
        d.extend((v as u32).to_be_bytes());
    }
    d.extend(f.num.to_be_bytes());
    d.extend(f.den.to_be_bytes());
    d.extend([f.dispose, f.blend]);
    chunk("fcTL", &d)
}
fn dispose(n: u8) -> DisposeOp {
    match n { 0 => DisposeOp::None, 1 => DisposeOp::Background, _ => DisposeOp::Previous }
}
fn blend(n: u8) -> BlendOp {
    if n == 0 { BlendOp::Source } else { BlendOp::Over }
}
fn frames(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&[(6u8, 8u8), (2, 8), (0, 8), (3, 8), (0, 2), (6, 16)]);
    let adam7 = if ch.thorough() { ch.flag() } else { false };
    let (cw, chh) = (4usize, 3usize);
    let base = Spec::new(cw, chh, color, depth, adam7, 21);
    let nf = 1 + ch.choose(if ch.thorough() { 4 } else { 3 });
    // is the default image part of the animation?
    let first_in = ch.flag();
    let mut list = vec![];
    for k in 0..nf {
        let (w, h, x, y) = if k == 0 && first_in {
            (cw, chh, 0, 0)
        } else {
            ch.pick(&[(4usize, 3usize, 0usize, 0usize), (2, 2, 1, 1), (1, 1, 3, 2), (4, 1, 0, 2), (1, 3, 2, 0)])
        };
        let s = Spec::new(w, h, color, depth, adam7, 100 + k as u64);
        let (num, den, d, b) = ch.pick(&[(1u16, 10u16, 0u8, 0u8), (7, 100, 1, 1), (0, 0, 2, 0)]);
        list.push(Fr { w, h, x, y, num, den, dispose: d, blend: b, samples: s.samples.clone(), cuts: if k == 0 && first_in { 0 } else { ch.choose(2) } });
    }
    let mut o = base.head();
    o.extend(chunk("acTL", &[(nf as u32).to_be_bytes(), 0u32.to_be_bytes()].concat()));
    let mut seq = 0;
    let filt = [4u8, 1, 2];
    let z = |f: &Fr| compress(&filtered(f.w, f.h, color, depth, adam7, &f.samples, &filt), Pack::Fixed);
    if first_in {
        o.extend(fctl(seq, &list[0]));
        seq += 1;
        let d = z(&list[0]);
        o.extend(chunk("IDAT", &d[..3]));
        o.extend(chunk("IDAT", &d[3..]));
    } else {
        let d = compress(&filtered(cw, chh, color, depth, adam7, &base.samples, &filt), Pack::Fixed);
        o.extend(chunk("IDAT", &d));
    }
    for f in list.iter().skip(first_in as usize) {
        o.extend(fctl(seq, f));
        seq += 1;
        let d = z(f);
        let parts: Vec<&[u8]> = match f.cuts { 0 => vec![&d[..]], _ => vec![&d[..2], &d[2..5], &d[5..]] };
        for p in parts {
            o.extend(chunk("fdAT", &[&seq.to_be_bytes()[..], p].concat()));
            seq += 1;
        }
    }
    o.extend(chunk("IEND", &[]));
    // expected deliveries: the default image first, whether or not it is part of the animation
    let mut exp: Vec<(Out, Option<Fr>)> = vec![];
    if !first_in {
        exp.push((base.expect(), None));
    }
    for f in &list {
        exp.push((expect(color, depth, &f.samples, &base.palette, &None), Some(f.clone())));
    }
    let what = format!("colour {color} depth {depth} adam7 {adam7} default image in the animation: {first_in}, frames {:?}", list.iter().map(|f| (f.w, f.h, f.x, f.y, f.num, f.den, f.dispose, f.blend, f.cuts)).collect::<Vec<_>>());
    ch.note(|| what.clone());
    let raw = ch.flag();
    let mut d = PngDecoder::new(ZCursor::new(&o));
    if let Err(e) = d.decode_headers() {
        return bad("decode-error", format!("{what}: headers: {e:?}"));
    }
    if !d.is_animated() {
        return bad("animated", format!("{what}: not reported as animated"));
    }
    for (k, (want, f)) in exp.iter().enumerate() {
        if k > 0 && !d.more_frames() {
            return bad("frames-lost", format!("{what}: no more frames after {k} of {}", exp.len()));
        }
        if let Err(e) = d.decode_headers() {
            return bad("decode-error", format!("{what}: headers of frame {k}: {e:?}"));
        }
        let Some(fi) = d.frame_info() else { return bad("frame-info", format!("{what}: no frame info for frame {k}")) };
        if let Some(f) = f {
            let got = (fi.width, fi.height, fi.x_offset, fi.y_offset, fi.delay_num, fi.delay_denom, fi.dispose_op, fi.blend_op, fi.is_part_of_seq);
            let exp = (f.w, f.h, f.x, f.y, f.num, f.den, dispose(f.dispose), blend(f.blend), true);
            if got != exp {
                return bad("frame-info", format!("{what}: frame {k} announced {got:?}, expected {exp:?}"));
            }
        } else if (fi.width, fi.height, fi.is_part_of_seq) != (cw, chh, false) {
            return bad("frame-info", format!("{what}: default image announced {fi:?}"));
        }
        let got = if raw {
            d.decode_raw()
        } else {
            d.decode().map(|r| {
                let (v, wide) = to_bytes(r);
                Out { nc: want.nc, wide, v }.bytes(true)
            })
        };
        match got {
            Err(e) => return bad("decode-error", format!("{what}: frame {k}: {e:?}")),
            Ok(v) => {
                let w = want.bytes(true);
                ch.state(hash_bytes(&w));
                ch.obs_bytes(&w);
                if v != w {
                    return bad("frame-pixels", format!("{what}: frame {k} ({}): {}", if raw { "raw" } else { "decode" }, first_diff(&v, &w)));
                }
            }
        }
    }
    if d.more_frames() {
        return bad("frames-extra", format!("{what}: more frames reported after the last"));
    }
    Ok(())
}
macro_rules! frame_info {
    ($w:expr, $h:expr, $x:expr, $y:expr, $n:expr, $b:expr) => {{
        let f = Spec::new(1, 1, 6, 8, false, 1).file();
        let mut d = PngDecoder::new(ZCursor::new(&f));
        d.decode_headers().unwrap();
        let mut i = d.frame_info().unwrap();
        i.seq_number = $n;
        i.width = $w;
        i.height = $h;
        i.x_offset = $x;
        i.y_offset = $y;
        i.dispose_op = DisposeOp::None;
        i.blend_op = $b;
        i
    }};
}
fn canvas_info(w: usize, h: usize, color: u8) -> zune_png::PngInfo {
    let s = Spec::new(w, h, color, 8, false, 1);
    let f = s.file();
    let mut d = PngDecoder::new(ZCursor::new(&f));
    d.decode_headers().unwrap();
    d.info().unwrap().clone()
}
#[cfg(not(feature = "std"))]
fn compose(_: &mut Ch) -> Res {
    unreachable!()
}
#[cfg(feature = "std")]
fn compose(ch: &mut Ch) -> Res {
    let (color, cs) = ch.pick(&[(6u8, zune_core::colorspace::ColorSpace::RGBA), (2, zune_core::colorspace::ColorSpace::RGB), (0, zune_core::colorspace::ColorSpace::Luma), (4, zune_core::colorspace::ColorSpace::LumaA)]);
    let nc = comps(color);
    let (cw, chh) = (3usize, 3usize);
    let info = canvas_info(cw, chh, color);
    let mut canvas: Vec<u8> = pattern(cw * chh * nc, 3);
    let n = 1 + ch.choose(2);
    for k in 0..n {
        let w = 1 + ch.choose(4);
        let h = 1 + ch.choose(4);
        let x = ch.choose(if k == 0 { 4 } else { 2 });
        let y = ch.choose(if k == 0 { 4 } else { 2 });
        let over = if ch.flag() { 1 } else { 0 };
        let mut px = pattern(w * h * nc, 90 + k as u32);
        if over == 1 && (nc == 2 || nc == 4) {
            // opaque and fully transparent pixels only: the exact part of the rule
            for (i, p) in px.chunks_mut(nc).enumerate() {
                p[nc - 1] = if i % 2 == 0 { 255 } else { 0 };
            }
        }
        let fi = frame_info!(w, h, x, y, k as i32, blend(over));
        let what = format!("canvas {cw}x{chh} colour {color}, frame {k} {w}x{h} at ({x},{y}) blend {over}");
        ch.note(|| what.clone());
        // a frame that asks for the previous one as its background gets it, the others don't
        let (mut fi, bg) = (fi, ch.choose(4));
        fi.dispose_op = if bg >= 2 { DisposeOp::Previous } else { DisposeOp::None };
        let prev = pattern(cw * chh * nc - usize::from(bg == 3), 55 + k as u32);
        let what = format!("{what}{}", ["", ", previous frame not asked for", ", on the previous frame", ", on a previous frame of the wrong size"][bg]);
        let before = canvas.clone();
        let r = post_process_image(&info, cs, &fi, &px, if bg > 0 { Some(&prev[..]) } else { None }, &mut canvas, None);
        let before = if bg == 2 { prev } else { before };
        if bg == 3 {
            if r.is_ok() {
                return bad("compose-accepts", format!("{what}: accepted"));
            }
            ch.obs(2);
            return Ok(());
        }
        let fits = x + w <= cw && y + h <= chh && !(over == 1 && (nc == 1 || nc == 3));
        if !fits {
            if r.is_ok() {
                return bad("compose-accepts", format!("{what}: a frame that cannot be placed was accepted"));
            }
            if bg < 2 && canvas != before {
                return bad("compose-touches", format!("{what}: a rejected frame changed the canvas"));
            }
            ch.obs(1);
            continue;
        }
        if let Err(e) = r {
            return bad("compose-error", format!("{what}: {e:?}"));
        }
        let mut want = before.clone();
        for j in 0..h {
            for i in 0..w {
                let s = &px[(j * w + i) * nc..][..nc];
                if over == 1 && s[nc - 1] == 0 {
                    continue;
                }
                want[((j + y) * cw + i + x) * nc..][..nc].copy_from_slice(s);
            }
        }
        ch.state(hash_bytes(&want));
        ch.obs_bytes(&canvas);
        if canvas != want {
            let i = canvas.iter().zip(&want).position(|(a, b)| a != b).unwrap();
            return bad(if over == 1 { "compose-over" } else { "compose" }, format!("{what}: byte {i} is {} instead of {}", canvas[i], want[i]));
        }
    }
    Ok(())
}
#[cfg(not(feature = "std"))]
fn compose_over(_: &mut Ch) -> Res {
    unreachable!()
}
/// partly transparent pixels: each colour component lies between background and foreground
#[cfg(feature = "std")]
fn compose_over(ch: &mut Ch) -> Res {
    let info = canvas_info(1, 1, 6);
    let vals: &[u8] = if ch.thorough() { &[0, 1, 2, 64, 127, 128, 200, 254, 255] } else { &[0, 1, 128, 254, 255] };
    let (f, b, a, ba) = (ch.pick(vals), ch.pick(vals), ch.pick(vals), ch.pick(vals));
    let mut canvas = vec![b, b, b, ba];
    let fi = frame_info!(1, 1, 0, 0, 0, BlendOp::Over);
    let cs = zune_core::colorspace::ColorSpace::RGBA;
    ch.note(|| format!("foreground {f} alpha {a} over background {b} alpha {ba}"));
    if let Err(e) = post_process_image(&info, cs, &fi, &[f, f, f, a], None, &mut canvas, None) {
        return bad("compose-error", format!("{e:?}"));
    }
    ch.obs_bytes(&canvas);
    ch.state(hash_bytes(&canvas));
    let (lo, hi) = (f.min(b), f.max(b));
    for c in 0..3 {
        if canvas[c] < lo || canvas[c] > hi {
            return bad("compose-range", format!("foreground {f} alpha {a} over background {b}: {}", canvas[c]));
        }
    }
    let oa = a as i32 + (ba as i32 * (255 - a as i32) + 127) / 255;
    if (canvas[3] as i32 - oa).abs() > 1 {
        return bad("compose-alpha", format!("foreground {f} alpha {a} over background {b} alpha {ba}: resulting alpha {} instead of {oa}", canvas[3]));
    }
    if ba == 0 && a > 0 && (canvas[0] as i32 - f as i32).abs() > 1 {
        return bad("compose-over", format!("{f} alpha {a} over a fully transparent {b} gives {canvas:?}"));
    }
    if a == 255 && canvas != [f, f, f, 255] {
        return bad("compose-over", format!("opaque {f} over {b} (alpha {ba}) gives {canvas:?}"));
    }
    if a == 0 && canvas != [b, b, b, ba] {
        return bad("compose-over", format!("transparent {f} over {b} (alpha {ba}) gives {canvas:?}"));
    }
    Ok(())
}
