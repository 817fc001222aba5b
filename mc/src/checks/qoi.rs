//! C15 QOI
use crate::engine::*;
use crate::util::*;
use crate::Check;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_qoi::{QoiDecoder, QoiEncoder};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C15",
        level: "model_checking",
        rule: "every sequence of QOI opcodes over an operand alphabet up to the depth bound, every operand of every single opcode in a prepared state, and every pixel sequence over an alphabet for the encoder, compared with a reference coder written from the QOI specification; a state is the reference coder's state (previous pixel, index table, pixels)",
        assumptions: &["the reference coder in mc/src/checks/qoi.rs follows the QOI specification"],
        scenarios: |_| vec![
            Scenario { name: "sequences", f: sequences },
            Scenario { name: "operands", f: operands },
            Scenario { name: "encode", f: encode },
            Scenario { name: "encode-runs", f: encode_runs },
            Scenario { name: "headers", f: headers }
        ]
    }]
}

type Px = [u8; 4];
#[derive(Copy, Clone, Debug)]
enum Op {
    Rgb(u8, u8, u8),
    Rgba(u8, u8, u8, u8),
    Index(u8),
    Diff(u8),
    Luma(u8, u8),
    Run(u8)
}
fn hash(p: Px) -> usize {
    (p[0] as usize * 3 + p[1] as usize * 5 + p[2] as usize * 7 + p[3] as usize * 11) % 64
}
pub struct Ref {
    pub px:  Px,
    index:   [Px; 64],
    pub out: Vec<Px>
}
impl Ref {
    pub fn new() -> Ref {
        Ref { px: [0, 0, 0, 255], index: [[0; 4]; 64], out: vec![] }
    }
    fn step(&mut self, o: Op, b: &mut Vec<u8>) {
        let p = &mut self.px;
        let mut n = 1;
        match o {
            Op::Rgb(r, g, bl) => {
                b.extend([0xFE, r, g, bl]);
                *p = [r, g, bl, p[3]];
            }
            Op::Rgba(r, g, bl, a) => {
                b.extend([0xFF, r, g, bl, a]);
                *p = [r, g, bl, a];
            }
            Op::Index(i) => {
                b.push(i);
                *p = self.index[i as usize];
            }
            Op::Diff(v) => {
                b.push(0x40 | v);
                for c in 0..3 {
                    p[c] = p[c].wrapping_add((v >> (4 - 2 * c)) & 3).wrapping_sub(2);
                }
            }
            Op::Luma(g, rb) => {
                b.extend([0x80 | g, rb]);
                let dg = g.wrapping_sub(32);
                p[0] = p[0].wrapping_add(dg).wrapping_add(rb >> 4).wrapping_sub(8);
                p[1] = p[1].wrapping_add(dg);
                p[2] = p[2].wrapping_add(dg).wrapping_add(rb & 15).wrapping_sub(8);
            }
            Op::Run(k) => {
                b.push(0xC0 | (k - 1));
                n = k as usize;
            }
        }
        let p = self.px;
        self.index[hash(p)] = p;
        for _ in 0..n {
            self.out.push(p);
        }
    }
    fn key(&self) -> u64 {
        let mut v: Vec<u8> = self.index.concat();
        v.extend(self.px);
        v.extend(self.out.concat());
        hash_bytes(&v)
    }
}
pub fn header(w: usize, h: usize, ch: u8, cs: u8) -> Vec<u8> {
    let mut o = b"qoif".to_vec();
    o.extend((w as u32).to_be_bytes());
    o.extend((h as u32).to_be_bytes());
    o.extend([ch, cs]);
    o
}
pub const END: [u8; 8] = [0, 0, 0, 0, 0, 0, 0, 1];
/// a complete reference decoder; None when the stream is not a valid QOI file
pub fn ref_decode(f: &[u8]) -> Option<(usize, usize, u8, u8, Vec<u8>)> {
    if f.len() < 22 || &f[..4] != b"qoif" {
        return None;
    }
    let w = u32::from_be_bytes(f[4..8].try_into().unwrap()) as usize;
    let h = u32::from_be_bytes(f[8..12].try_into().unwrap()) as usize;
    let (c, cs) = (f[12], f[13]);
    let mut i = 14;
    let mut r = Ref::new();
    let mut sink = vec![];
    while r.out.len() < w * h {
        let b = *f.get(i)?;
        let (o, n) = match b {
            0xFE => (Op::Rgb(*f.get(i + 1)?, *f.get(i + 2)?, *f.get(i + 3)?), 4),
            0xFF => (Op::Rgba(*f.get(i + 1)?, *f.get(i + 2)?, *f.get(i + 3)?, *f.get(i + 4)?), 5),
            b => match b >> 6 {
                0 => (Op::Index(b), 1),
                1 => (Op::Diff(b & 63), 1),
                2 => (Op::Luma(b & 63, *f.get(i + 1)?), 2),
                _ => (Op::Run((b & 63) + 1), 1)
            }
        };
        r.step(o, &mut sink);
        i += n;
    }
    if r.out.len() != w * h || f[i..] != END {
        return None;
    }
    let px = r.out.iter().flat_map(|p| p[..c as usize].to_vec()).collect();
    Some((w, h, c, cs, px))
}
fn decode_check(ch: &mut Ch, r: &Ref, body: &[u8], what: String) -> Res {
    let nc = 3 + ch.choose(2);
    let n = r.out.len();
    let w = if n % 2 == 0 && ch.flag() { n / 2 } else { n };
    let h = n / w;
    let mut f = header(w, h, nc as u8, 0);
    f.extend(body);
    f.extend(END);
    ch.note(|| format!("{what}: {w}x{h}x{nc}"));
    let want: Vec<u8> = r.out.iter().flat_map(|p| p[..nc].to_vec()).collect();
    ch.state(r.key());
    let mut d = QoiDecoder::new_with_options(ZCursor::new(&f), DecoderOptions::default().set_strict_mode(true));
    match d.decode() {
        Err(e) => bad("decode-error", format!("{what}: valid stream rejected: {e:?}")),
        Ok(v) => {
            ch.obs_bytes(&v);
            if d.dimensions() != Some((w, h)) {
                return bad("dimensions", format!("{what}: {:?} instead of {w}x{h}", d.dimensions()));
            }
            let cs = if nc == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
            if d.colorspace() != Some(cs) {
                return bad("colorspace", format!("{what}: {:?}", d.colorspace()));
            }
            if v != want {
                return bad("pixels", format!("{what}: {}", first_diff(&v, &want)));
            }
            Ok(())
        }
    }
}
fn sequences(ch: &mut Ch) -> Res {
    const OPS: [Op; 17] = [
        Op::Rgb(0, 0, 0), Op::Rgb(255, 1, 128), Op::Rgba(0, 0, 0, 0), Op::Rgba(9, 8, 7, 6), Op::Rgba(255, 255, 255, 255),
        Op::Index(0), Op::Index(53), Op::Index(63), Op::Diff(0), Op::Diff(0b111001), Op::Diff(63),
        Op::Luma(0, 0), Op::Luma(63, 255), Op::Luma(40, 0x1F), Op::Run(1), Op::Run(2), Op::Run(62)
    ];
    let depth = if ch.thorough() { 5 } else { 4 };
    let n = 1 + ch.choose(depth);
    let mut r = Ref::new();
    let mut b = vec![];
    let mut ops = vec![];
    for _ in 0..n {
        // an index operand that hits an entry written earlier is one of the choices
        let k = ch.choose(OPS.len() + 1);
        let o = if k < OPS.len() { OPS[k] } else { Op::Index(hash(*r.out.first().unwrap_or(&[0, 0, 0, 255])) as u8) };
        r.step(o, &mut b);
        ops.push(o);
    }
    decode_check(ch, &r, &b, format!("{ops:?}"))
}
fn operands(ch: &mut Ch) -> Res {
    let mut r = Ref::new();
    let mut b = vec![];
    let start = ch.choose(4);
    match start {
        0 => {}
        1 => r.step(Op::Rgba(0, 255, 3, 200), &mut b),
        2 => r.step(Op::Rgb(128, 127, 250), &mut b),
        _ => {
            // fill the index table with many different entries
            for i in 0..64u8 {
                r.step(Op::Rgba(i.wrapping_mul(37), i.wrapping_mul(11), i, i.wrapping_mul(5)), &mut b);
            }
        }
    }
    let o = match ch.choose(6) {
        0 => Op::Index(ch.choose(64) as u8),
        1 => Op::Diff(ch.choose(64) as u8),
        2 => Op::Luma(ch.choose(64) as u8, ch.choose(256) as u8),
        3 => Op::Run(1 + ch.choose(62) as u8),
        4 => {
            let v = ch.choose(256) as u8;
            match ch.choose(3) { 0 => Op::Rgb(v, 1, 2), 1 => Op::Rgb(1, v, 2), _ => Op::Rgb(1, 2, v) }
        }
        _ => {
            let v = ch.choose(256) as u8;
            match ch.choose(4) { 0 => Op::Rgba(v, 1, 2, 3), 1 => Op::Rgba(1, v, 2, 3), 2 => Op::Rgba(1, 2, v, 3), _ => Op::Rgba(1, 2, 3, v) }
        }
    };
    r.step(o, &mut b);
    // then look the pixel up again
    let p = hash(r.px) as u8;
    r.step(Op::Rgb(77, 78, 79), &mut b);
    r.step(Op::Index(p), &mut b);
    decode_check(ch, &r, &b, format!("start {start} then {o:?}"))
}
fn enc(ch: &mut Ch, px: &[u8], w: usize, h: usize, nc: usize) -> Res {
    let cs = if nc == 3 { ColorSpace::RGB } else { ColorSpace::RGBA };
    let mut out = vec![];
    let what = format!("{w}x{h}x{nc} {}", show(px));
    let r = QoiEncoder::new(px, EncoderOptions::new(w, h, cs, BitDepth::Eight)).encode(&mut out);
    match r {
        Err(e) => return bad("encode-error", format!("{what}: {e:?}")),
        Ok(n) if n != out.len() => return bad("encode-count", format!("{what}: reported {n} bytes, wrote {}", out.len())),
        Ok(_) => {}
    }
    ch.obs_bytes(&out);
    ch.state(hash_bytes(px));
    match ref_decode(&out) {
        None => bad("encode-invalid", format!("{what}: the encoder wrote a stream that is not valid QOI: {}", show(&out))),
        Some((rw, rh, rc, cs, v)) => {
            if (rw, rh, rc as usize) != (w, h, nc) || cs > 1 {
                return bad("encode-header", format!("{what}: header says {rw}x{rh}x{rc} colour space {cs}"));
            }
            if v != px {
                return bad("encode-pixels", format!("{what}: decodes to {}", first_diff(&v, px)));
            }
            match QoiDecoder::new(ZCursor::new(&out)).decode() {
                Ok(v) if v == px => Ok(()),
                x => bad("round-trip", format!("{what}: own decoder gives {:?}", x.map(|v| first_diff(&v, px))))
            }
        }
    }
}
fn encode(ch: &mut Ch) -> Res {
    const A: [Px; 10] = [
        [0, 0, 0, 255], [0, 0, 0, 0], [1, 254, 1, 255], [2, 0, 0, 255], [8, 31, 39, 255], [255, 255, 255, 255],
        [24, 32, 25, 255], [200, 100, 50, 128], [201, 99, 51, 128], [0, 255, 255, 255]
    ];
    let nc = 3 + ch.choose(2);
    let n = 1 + ch.choose(if ch.thorough() { 6 } else { 5 });
    let mut px = vec![];
    for _ in 0..n {
        let p = ch.pick(&A);
        if nc == 3 && p[3] != 255 && p[3] != 128 {
            ch.discard();
            return Ok(());
        }
        px.extend(&p[..nc]);
    }
    let w = if n % 2 == 0 { n / 2 } else { n };
    enc(ch, &px, w, n / w, nc)
}
/// every difference between two neighbouring pixels, and every run length around the limits
fn encode_runs(ch: &mut Ch) -> Res {
    let nc = 3 + ch.choose(2);
    let base: Px = ch.pick(&[[0, 0, 0, 255], [10, 250, 3, 255], [10, 250, 3, 254]]);
    let mut px: Vec<Px> = vec![];
    if ch.flag() {
        let lead = ch.choose(3);
        let run = ch.pick(&[1, 2, 61, 62, 63, 64, 123, 124, 125, 126, 186, 187]);
        for i in 0..lead {
            px.push([i as u8 + 90, 3, 4, 255]);
        }
        px.extend(std::iter::repeat(base).take(run));
        for i in 0..ch.choose(3) {
            px.push([i as u8 + 9, 3, 4, 255]);
        }
    } else {
        let g = ch.choose(if ch.thorough() { 256 } else { 80 });
        let g = if ch.thorough() || g < 40 { g as u8 } else { (256 - 80 + g) as u8 };
        let d: [u8; 20] = [0, 1, 2, 3, 6, 7, 8, 9, 10, 31, 127, 128, 247, 246, 248, 249, 253, 254, 255, 200];
        let r = g.wrapping_add(ch.pick(&d));
        let b = g.wrapping_add(ch.pick(&d));
        let da = ch.choose(2) as u8;
        px.push(base);
        px.push([base[0].wrapping_add(r), base[1].wrapping_add(g), base[2].wrapping_add(b), base[3].wrapping_sub(da)]);
        px.push(base);
    }
    let flat: Vec<u8> = px.iter().flat_map(|p| p[..nc].to_vec()).collect();
    enc(ch, &flat, px.len(), 1, nc)
}
fn headers(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&[(1, 1), (1, 5), (5, 1), (3, 3), (256, 2), (2, 257), (16384, 1)]);
    let nc = 3 + ch.choose(2);
    let cs = ch.choose(2) as u8;
    let mut r = Ref::new();
    let mut b = vec![];
    r.step(Op::Rgba(1, 2, 3, 4), &mut b);
    while r.out.len() < w * h {
        let left = w * h - r.out.len();
        r.step(Op::Run(left.min(62) as u8), &mut b);
    }
    let mut f = header(w, h, nc as u8, cs);
    f.extend(&b);
    f.extend(END);
    let mut d = QoiDecoder::new(ZCursor::new(&f));
    if d.dimensions().is_some() || d.colorspace().is_some() || d.output_buffer_size().is_some() {
        return bad("early-getter", "a getter reports something before the header was read");
    }
    if let Err(e) = d.decode_headers() {
        return bad("header-error", format!("{w}x{h}x{nc}: {e:?}"));
    }
    if d.dimensions() != Some((w, h)) || d.output_buffer_size() != Some(w * h * nc) {
        return bad("header", format!("{w}x{h}x{nc}: announced {:?} {:?}", d.dimensions(), d.output_buffer_size()));
    }
    let want: Vec<u8> = r.out.iter().flat_map(|p| p[..nc].to_vec()).collect();
    ch.state(hash_bytes(&want));
    match d.decode() {
        Ok(v) if v == want => Ok(()),
        x => bad("pixels", format!("{w}x{h}x{nc}: {:?}", x.map(|v| first_diff(&v, &want))))
    }
}
