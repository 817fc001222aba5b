//! C17 PNM, PAM, PFM
use crate::engine::*;
use crate::util::*;
use crate::Check;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_core::result::DecodingResult;
use zune_ppm::{PPMDecoder, PPMEncoder};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C17",
        level: "model_checking",
        rule: "every arrangement of header whitespace, comments, header-line order and terminator within the alphabet, every kind x maximum value x byte order x small dimension, and every value of the first sample bytes, decoded and compared with the samples the file was built from; every encodable image of the bound encoded and re-read by an independent parser and by the decoder",
        assumptions: &["samples are the stored integers; the maximum value selects only their width, as the decoder documents"],
        scenarios: |_| vec![
            Scenario { name: "headers", f: headers },
            Scenario { name: "pam-headers", f: pam_headers },
            Scenario { name: "pfm-headers", f: pfm_headers },
            Scenario { name: "sizes", f: sizes },
            Scenario { name: "first-bytes", f: first_bytes },
            Scenario { name: "malformed", f: malformed },
            Scenario { name: "encode", f: encode },
            Scenario { name: "encode-values", f: encode_values }
        ]
    }]
}

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum K {
    P5,
    P6,
    /// P7 with this many channels
    P7(usize),
    Pf,
    PF
}
pub const KINDS: [K; 8] = [K::P5, K::P6, K::P7(1), K::P7(2), K::P7(3), K::P7(4), K::Pf, K::PF];
impl K {
    pub fn comps(self) -> usize {
        match self {
            K::P5 | K::Pf => 1,
            K::P6 | K::PF => 3,
            K::P7(n) => n
        }
    }
    fn float(self) -> bool {
        matches!(self, K::Pf | K::PF)
    }
}
fn cs_of(n: usize) -> ColorSpace {
    [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA][n - 1]
}
fn tuple(n: usize) -> &'static str {
    ["GRAYSCALE", "GRAYSCALE_ALPHA", "RGB", "RGB_ALPHA"][n - 1]
}
/// a plain file: samples are in decoding (top-down) order
pub fn file(k: K, w: usize, h: usize, maxval: u32, le: bool, v: &[u32]) -> Vec<u8> {
    let mut o = match k {
        K::P5 => format!("P5\n{w} {h}\n{maxval}\n"),
        K::P6 => format!("P6\n{w} {h}\n{maxval}\n"),
        K::P7(n) => format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH {n}\nMAXVAL {maxval}\nTUPLTYPE {}\nENDHDR\n", tuple(n)),
        K::Pf => format!("Pf\n{w} {h}\n{}\n", if le { "-1.0" } else { "1.0" }),
        K::PF => format!("PF\n{w} {h}\n{}\n", if le { "-1.0" } else { "1.0" })
    }
    .into_bytes();
    o.extend(raster(k, w, h, maxval, le, v));
    o
}
fn raster(k: K, w: usize, _h: usize, maxval: u32, le: bool, v: &[u32]) -> Vec<u8> {
    let mut o = vec![];
    if k.float() {
        for row in v.chunks((w * k.comps()).max(1)).rev() {
            for x in row {
                o.extend(if le { x.to_le_bytes() } else { x.to_be_bytes() });
            }
        }
    } else {
        for x in v {
            if maxval > 255 {
                o.extend((*x as u16).to_be_bytes());
            } else {
                o.push(*x as u8);
            }
        }
    }
    o
}
pub fn samples(k: K, w: usize, h: usize, maxval: u32, seed: u32) -> Vec<u32> {
    let n = w * h * k.comps();
    let p = pattern(n * 4, seed);
    (0..n)
        .map(|i| {
            let x = u32::from_le_bytes([p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]]);
            if k.float() {
                x
            } else {
                x % (maxval + 1)
            }
        })
        .collect()
}
fn values(r: &DecodingResult) -> Vec<u32> {
    match r {
        DecodingResult::U8(v) => v.iter().map(|x| *x as u32).collect(),
        DecodingResult::U16(v) => v.iter().map(|x| *x as u32).collect(),
        DecodingResult::F32(v) => v.iter().map(|x| x.to_bits()).collect(),
        _ => vec![]
    }
}
fn verify(ch: &mut Ch, f: &[u8], k: K, w: usize, h: usize, maxval: u32, v: &[u32], what: &str) -> Res {
    ch.note(|| format!("{what}: file {}", show(f)));
    ch.state(hash_bytes(f));
    let mut d = PPMDecoder::new(ZCursor::new(f));
    let r = match d.decode() {
        Ok(r) => r,
        Err(e) => return bad("rejected", format!("{what}: a valid file was rejected: {e:?}; file {}", show(f)))
    };
    let bd = if k.float() {
        BitDepth::Float32
    } else if maxval > 255 {
        BitDepth::Sixteen
    } else {
        BitDepth::Eight
    };
    if d.dimensions() != Some((w, h)) || d.colorspace() != Some(cs_of(k.comps())) || d.bit_depth() != Some(bd) {
        return bad("header", format!("{what}: reported {:?} {:?} {:?}, expected {w}x{h} {:?} {bd:?}", d.dimensions(), d.colorspace(), d.bit_depth(), cs_of(k.comps())));
    }
    let kind_ok = matches!((&r, bd), (DecodingResult::U8(_), BitDepth::Eight) | (DecodingResult::U16(_), BitDepth::Sixteen) | (DecodingResult::F32(_), BitDepth::Float32));
    if !kind_ok {
        return bad("type", format!("{what}: the samples are of another type than {bd:?}"));
    }
    let g = values(&r);
    if g != v {
        let i = (0..v.len()).find(|i| g.get(*i) != Some(&v[*i])).unwrap_or(v.len());
        return bad("samples", format!("{what}: {} samples, expected {}; sample {i} is {:?}, expected {:?}", g.len(), v.len(), g.get(i), v.get(i)));
    }
    ch.obs_bytes(f);
    Ok(())
}

const SEPS: [&str; 10] = [" ", "\n", "\t", "\r\n", "  ", "\n#c\n", "#c\n", " # 1 2\n", "\n#\n\n#x 9\n ", "\x0c"];
const TERMS: [&str; 4] = ["\n", " ", "\t", "\r"];
/// first bytes of the raster that a tokeniser could mistake for header text
const TRAPS: [&[u8]; 7] = [&[], b"\n", b" ", b"#", b"# 1\n", b"12", b"\r\n"];

fn trap(v: &mut [u32], k: K, maxval: u32, w: usize, h: usize, le: bool, t: &[u8]) {
    // overwrite the first raster bytes
    let size = if k.float() { 4 } else if maxval > 255 { 2 } else { 1 };
    let first = if k.float() { (h - 1) * w * k.comps() } else { 0 };
    for (i, b) in t.iter().enumerate() {
        let s = first + i / size;
        if s >= v.len() {
            return;
        }
        let sh = if size == 1 { 0 } else if le { 8 * (i % size) } else { 8 * (size - 1 - i % size) };
        v[s] = v[s] & !(0xffu32 << sh) | (*b as u32) << sh;
    }
}

fn headers(ch: &mut Ch) -> Res {
    let k = ch.pick(&[K::P5, K::P6]);
    let maxval = ch.pick(&[255u32, 65535]);
    let s1 = ch.pick(&SEPS);
    let s2 = ch.pick(&SEPS);
    let s3 = ch.pick(&SEPS);
    let t = ch.pick(&TERMS);
    let tr = ch.pick(&TRAPS);
    let (w, h) = (3, 2);
    let mut v = samples(k, w, h, maxval, 3);
    trap(&mut v, k, maxval, w, h, false, tr);
    let mut f = format!("{}{s1}{w}{s2}{h}{s3}{maxval}{t}", if k == K::P5 { "P5" } else { "P6" }).into_bytes();
    f.extend(raster(k, w, h, maxval, false, &v));
    verify(ch, &f, k, w, h, maxval, &v, "header spelling")
}
fn pam_headers(ch: &mut Ch) -> Res {
    let n = 1 + ch.choose(4);
    let k = K::P7(n);
    let maxval = ch.pick(&[255u32, 65535]);
    let (w, h) = (3, 2);
    let mut lines: Vec<(&str, String)> =
        vec![("WIDTH", w.to_string()), ("HEIGHT", h.to_string()), ("DEPTH", n.to_string()), ("MAXVAL", maxval.to_string()), ("TUPLTYPE", tuple(n).to_string())];
    let mut f = b"P7\n".to_vec();
    // the order of the five lines, and one unusual separator somewhere
    let odd = ch.choose(6);
    let alt = if odd == 0 { 0 } else { 1 + ch.choose(5) };
    let mut i = 0;
    while !lines.is_empty() {
        i += 1;
        let (n, v) = lines.remove(ch.choose(lines.len()));
        let (pre, sep, end) = if i == odd {
            [("", " ", "\n"), ("# WIDTH 9\n", " ", "\n"), ("\n", " ", "\n"), ("", "\t", "\n"), ("", "  ", "\n"), ("#\n# ENDHDR\n", " ", "\n\n")][alt]
        } else {
            ("", " ", "\n")
        };
        f.extend(format!("{pre}{n}{sep}{v}{end}").as_bytes());
    }
    f.extend(b"ENDHDR\n");
    let tr = ch.pick(&TRAPS);
    let mut v = samples(k, w, h, maxval, 5);
    trap(&mut v, k, maxval, w, h, false, tr);
    f.extend(raster(k, w, h, maxval, false, &v));
    verify(ch, &f, k, w, h, maxval, &v, "PAM header spelling")
}
fn pfm_headers(ch: &mut Ch) -> Res {
    let k = ch.pick(&[K::Pf, K::PF]);
    let scale = ch.pick(&["-1.0", "-1", "-0.5", "-1e3", "1.0", "1", "+1.0", "0.003", "2.5"]);
    let le = scale.starts_with('-');
    let s1 = ch.pick(&["\n", " ", "\r\n"]);
    let s2 = ch.pick(&[" ", "\n", "\t", "  "]);
    let s3 = ch.pick(&["\n", " ", "\r\n"]);
    let t = ch.pick(&["\n", " "]);
    let tr = ch.pick(&TRAPS);
    let h = 1 + ch.choose(3);
    let w = 2;
    let mut v = samples(k, w, h, 0, 9);
    trap(&mut v, k, 0, w, h, le, tr);
    let mut f = format!("{}{s1}{w}{s2}{h}{s3}{scale}{t}", if k == K::Pf { "Pf" } else { "PF" }).into_bytes();
    f.extend(raster(k, w, h, 0, le, &v));
    verify(ch, &f, k, w, h, 0, &v, "PFM header spelling")
}
fn sizes(ch: &mut Ch) -> Res {
    let k = ch.pick(&KINDS);
    let m = if ch.thorough() { 17 } else { 10 };
    let (w, h) = match ch.choose(2) {
        0 => (1 + ch.choose(m), 1 + ch.choose(m)),
        _ => ch.pick(&[(255, 1), (256, 2), (257, 3), (1000, 1), (1, 1000), (64, 64), (5, 301), (16384, 1), (1, 16384)])
    };
    let maxval = if k.float() { 0 } else { ch.pick(&[1u32, 2, 15, 100, 254, 255, 256, 257, 1000, 4095, 65534, 65535]) };
    let le = k.float() && ch.flag();
    let v = samples(k, w, h, maxval, (w * 31 + h) as u32);
    let f = file(k, w, h, maxval, le, &v);
    verify(ch, &f, k, w, h, maxval, &v, &format!("{k:?} {w}x{h} maximum {maxval} little endian {le}"))
}
fn first_bytes(ch: &mut Ch) -> Res {
    let k = ch.pick(&KINDS);
    let maxval = if k.float() { 0 } else { ch.pick(&[255u32, 65535]) };
    let le = k.float() && ch.flag();
    let b0 = ch.choose(256) as u8;
    let b1 = ch.pick(&[0u8, b'\n', b'#', b' ', b'1', 255]);
    let (w, h) = (2, 2);
    let mut v = samples(k, w, h, maxval, 1);
    trap(&mut v, k, maxval, w, h, le, &[b0, b1]);
    let f = file(k, w, h, maxval, le, &v);
    verify(ch, &f, k, w, h, maxval, &v, &format!("{k:?} raster starting with {b0},{b1}"))
}
/// headers outside the format are errors
fn malformed(ch: &mut Ch) -> Res {
    let k = ch.pick(&KINDS);
    let maxval = if k.float() { 0 } else { 255 };
    let v = samples(k, 2, 2, maxval, 1);
    let f = file(k, 2, 2, maxval, true, &v);
    let s = String::from_utf8_lossy(&f).to_string();
    let hl = s.len().min(f.len());
    let _ = hl;
    let c = ch.choose(5);
    let raster_len = raster(k, 2, 2, maxval, true, &v).len();
    let head = String::from_utf8(f[..f.len() - raster_len].to_vec()).unwrap();
    let new = match c {
        0 => head.replacen('P', "Q", 1),
        1 => head.replacen(['5', '6', '7', 'f', 'F'], "9", 1),
        2 if !k.float() => head.replace("255", "65536"),
        3 if matches!(k, K::P7(_)) => head.replace("TUPLTYPE ", "TUPLTYPE X"),
        4 => {
            // zero width
            if matches!(k, K::P7(_)) {
                head.replace("WIDTH 2", "WIDTH 0")
            } else {
                head.replacen("2 2", "0 2", 1)
            }
        }
        _ => {
            ch.discard();
            return Ok(());
        }
    };
    let mut g = new.into_bytes();
    g.extend(&f[f.len() - raster_len..]);
    ch.note(|| format!("{}", show(&g)));
    ch.obs_bytes(&g);
    if PPMDecoder::new(ZCursor::new(&g[..])).decode().is_ok() {
        return bad("accepted", format!("a malformed file was decoded: {}", show(&g)));
    }
    Ok(())
}

/// strict reader for encoder output: (kind, width, height, maxval, samples)
fn parse(f: &[u8]) -> Option<(K, usize, usize, u32, Vec<u32>)> {
    let num = |f: &[u8], i: &mut usize| -> Option<usize> {
        while f.get(*i)?.is_ascii_whitespace() {
            *i += 1;
        }
        let s = *i;
        while f.get(*i)?.is_ascii_digit() {
            *i += 1;
        }
        std::str::from_utf8(&f[s..*i]).ok()?.parse().ok()
    };
    let (k, w, h, m, i) = match f.get(..2)? {
        b"P5" | b"P6" => {
            let mut i = 2;
            let (w, h, m) = (num(f, &mut i)?, num(f, &mut i)?, num(f, &mut i)?);
            (if f[1] == b'5' { K::P5 } else { K::P6 }, w, h, m, i + 1)
        }
        b"P7" => {
            let (mut w, mut h, mut m, mut n) = (0, 0, 0, 0);
            let mut t = String::new();
            let mut i = 3;
            loop {
                let e = i + f[i..].iter().position(|b| *b == b'\n')?;
                let line = std::str::from_utf8(&f[i..e]).ok()?.trim().to_string();
                i = e + 1;
                let mut it = line.split_ascii_whitespace();
                match it.next() {
                    None => {}
                    Some("WIDTH") => w = it.next()?.parse().ok()?,
                    Some("HEIGHT") => h = it.next()?.parse().ok()?,
                    Some("DEPTH") => n = it.next()?.parse().ok()?,
                    Some("MAXVAL") => m = it.next()?.parse().ok()?,
                    Some("TUPLTYPE") => t = it.next()?.to_string(),
                    Some("ENDHDR") => break,
                    _ => return None
                }
            }
            if !(1..=4).contains(&n) || t != tuple(n) {
                return None;
            }
            (K::P7(n), w, h, m, i)
        }
        _ => return None
    };
    let d = f.get(i..)?;
    let v: Vec<u32> = if m > 255 {
        d.chunks(2).map(|c| if c.len() == 2 { (c[0] as u32) << 8 | c[1] as u32 } else { u32::MAX }).collect()
    } else {
        d.iter().map(|x| *x as u32).collect()
    };
    Some((k, w, h, m as u32, v))
}
fn run_encode(ch: &mut Ch, cs: ColorSpace, bd: BitDepth, w: usize, h: usize, v: &[u32], what: &str) -> Res {
    let data: Vec<u8> = match bd {
        BitDepth::Eight => v.iter().map(|x| *x as u8).collect(),
        BitDepth::Sixteen => v.iter().flat_map(|x| (*x as u16).to_ne_bytes()).collect(),
        _ => v.iter().flat_map(|x| x.to_ne_bytes()).collect()
    };
    let o = EncoderOptions::new(w, h, cs, bd);
    let mut out = vec![];
    let r = PPMEncoder::new(&data, o).encode(&mut out);
    let can = matches!(cs, ColorSpace::Luma | ColorSpace::LumaA | ColorSpace::RGB | ColorSpace::RGBA) && matches!(bd, BitDepth::Eight | BitDepth::Sixteen);
    match r {
        Err(e) if can => return bad("encode-rejected", format!("{what}: {e:?}")),
        Err(_) => {
            ch.trivial();
            return Ok(());
        }
        Ok(_) if !can => return bad("encode-accepted", format!("{what}: an image the format cannot hold was encoded")),
        Ok(n) if n != out.len() => return bad("encode-count", format!("{what}: reported {n} bytes, wrote {}", out.len())),
        Ok(_) => {}
    }
    let max = if bd == BitDepth::Eight { 255 } else { 65535 };
    match parse(&out) {
        Some((k, w2, h2, m, g)) if k.comps() == cs.num_components() && (w2, h2, m) == (w, h, max) && g == v => verify(ch, &out, k, w, h, max, v, what),
        _ => bad("encode-content", format!("{what}: an independent reader does not find the image in {}", show(&out)))
    }
}
fn encode(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::CMYK, ColorSpace::YCbCr, ColorSpace::BGR, ColorSpace::HSL, ColorSpace::ARGB]);
    let bd = ch.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
    let m = if ch.thorough() { 16 } else { 9 };
    let (w, h) = (1 + ch.choose(m), 1 + ch.choose(m));
    let k = K::P7(cs.num_components());
    let max = if bd == BitDepth::Eight { 255 } else { 65535 };
    let v = samples(k, w, h, max, (w + 7 * h) as u32);
    run_encode(ch, cs, bd, w, h, &v, &format!("encode {cs:?} {bd:?} {w}x{h}"))
}
fn encode_values(ch: &mut Ch) -> Res {
    let cs = cs_of(1 + ch.choose(4));
    let bd = ch.pick(&[BitDepth::Eight, BitDepth::Sixteen]);
    let b0 = ch.choose(256) as u32;
    let v: Vec<u32> = (0..4 * cs.num_components() as u32)
        .map(|i| if i == 0 { if bd == BitDepth::Eight { b0 } else { b0 << 8 | 0x23 } } else { (b0 + i * 37) & 255 })
        .collect();
    if b0 == 0 {
        // a buffer of the wrong size is refused
        for d in [0, 1, v.len() * bd.size_of() - 1, v.len() * bd.size_of() + 1] {
            let o = EncoderOptions::new(2, 2, cs, bd);
            if PPMEncoder::new(&vec![0; d], o).encode(&mut vec![]).is_ok() {
                return bad("encode-size", format!("{d} bytes were accepted for a 2x2 {cs:?} {bd:?} image"));
            }
        }
    }
    run_encode(ch, cs, bd, 2, 2, &v, &format!("encode {cs:?} {bd:?} first byte {b0}"))
}
