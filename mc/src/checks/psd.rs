//! C19 PSD
use crate::engine::*;
use crate::util::*;
use crate::Check;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::result::DecodingResult;
use zune_psd::PSDDecoder;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        level: "model_checking",
        rule: "every supported colour mode x depth x channel count x compression x small dimension x section length, every packbits command sequence of the bound (a state is a stream), and every colour x alpha pair of the matte, compared with the planes the file was built from; a state is the file",
        assumptions: &["removing the white matte may be off by one level from the exact quotient"],
        scenarios: |_| vec![
            Scenario { name: "layouts", f: layouts },
            Scenario { name: "packbits", f: packbits },
            Scenario { name: "matte", f: matte },
            Scenario { name: "malformed", f: malformed }
        ]
    }]
}
#[derive(Clone)]
pub struct Psd {
    pub mode: u16,
    pub depth: u16,
    pub chans: usize,
    pub w: usize,
    pub h: usize,
    pub rle: bool,
    pub sections: [usize; 3],
    /// samples by plane
    pub planes: Vec<Vec<u16>>
}
impl Psd {
    pub fn new(mode: u16, depth: u16, chans: usize, w: usize, h: usize, rle: bool) -> Psd {
        let planes = (0..chans).map(|c| {
            pattern(w * h * 2, (c * 7 + w + h * 3) as u32).chunks(2).enumerate().map(|(i, b)| {
                let mut v = u16::from_le_bytes([b[0], b[1]]);
                if depth == 8 {
                    v &= 255;
                }
                if c == 3 {
                    let m = if depth == 8 { 255 } else { 65535 };
                    match i % 4 {
                        0 => v = m,
                        1 => v = 0,
                        _ => {}
                    }
                }
                v
            }).collect()
        }).collect();
        Psd { mode, depth, chans, w, h, rle, sections: [0; 3], planes }
    }
    pub fn header(&self) -> Vec<u8> {
        let mut o = b"8BPS\x00\x01\0\0\0\0\0\0".to_vec();
        o.extend((self.chans as u16).to_be_bytes());
        o.extend((self.h as u32).to_be_bytes());
        o.extend((self.w as u32).to_be_bytes());
        o.extend(self.depth.to_be_bytes());
        o.extend(self.mode.to_be_bytes());
        for (i, n) in self.sections.iter().enumerate() {
            o.extend((*n as u32).to_be_bytes());
            o.extend(pattern(*n, i as u32));
        }
        o.extend((self.rle as u16).to_be_bytes());
        o
    }
    /// the raster, packing every row with `pack`
    pub fn file_with(&self, pack: &mut dyn FnMut(&[u8]) -> Vec<u8>) -> Vec<u8> {
        let mut o = self.header();
        if self.rle {
            let rows: Vec<Vec<u8>> = self.planes.iter().flat_map(|p| p.chunks(self.w)).map(|r| pack(&self.bytes(r))).collect();
            for r in &rows {
                o.extend((r.len() as u16).to_be_bytes());
            }
            o.extend(rows.concat());
        } else {
            for p in &self.planes {
                o.extend(self.bytes(p));
            }
        }
        o
    }
    pub fn file(&self) -> Vec<u8> {
        self.file_with(&mut |r| pack(r, 0))
    }
    fn bytes(&self, s: &[u16]) -> Vec<u8> {
        s.iter().flat_map(|v| if self.depth == 8 { vec![*v as u8] } else { v.to_be_bytes().to_vec() }).collect()
    }
    /// channels that are decoded
    pub fn out(&self) -> usize {
        if self.mode == 1 { 1 } else { self.chans }
    }
    /// interleaved samples as stored
    pub fn stored(&self) -> Vec<u16> {
        (0..self.w * self.h).flat_map(|i| (0..self.out()).map(move |c| self.planes[c][i])).collect()
    }
    fn max(&self) -> u16 {
        if self.depth == 8 { 255 } else { 65535 }
    }
    fn matted(&self, px: &mut [u16]) {
        let m = i64::from(self.max());
        for p in px.chunks_exact_mut(4) {
            let a = i64::from(p[3]);
            if a != 0 && a != m {
                for c in &mut p[..3] {
                    *c = (m * (i64::from(*c) + a - m) / a).clamp(0, m) as u16;
                }
            }
        }
    }
    /// what the format defines
    pub fn expect(&self) -> Vec<u16> {
        let mut v = self.stored();
        if self.mode == 3 && self.out() == 4 {
            self.matted(&mut v);
        }
        v
    }
}
/// Pack a row: 0 runs where possible, 1 literals only, 2 runs of at most 2
pub fn pack(r: &[u8], style: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < r.len() {
        let n = r[i..].iter().take_while(|x| **x == r[i]).count().min(if style == 2 { 2 } else { 128 });
        if n > 1 && style != 1 {
            o.push((257 - n) as u8);
            o.push(r[i]);
            i += n;
        } else {
            let mut n = 1;
            while i + n < r.len() && n < 128 && (style == 1 || r[i + n] != r[i + n - 1]) {
                n += 1;
            }
            o.push((n - 1) as u8);
            o.extend(&r[i..i + n]);
            i += n;
        }
    }
    o
}
fn differs(a: &[u16], b: &[u16], tol: u16) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    a.iter().zip(b).position(|(x, y)| x.abs_diff(*y) > tol)
}
fn verify(ch: &mut Ch, p: &Psd, f: &[u8], what: &str) -> Res {
    ch.note(|| what.to_string());
    ch.state(hash_bytes(f));
    ch.obs(hash_bytes(f));
    let mut d = PSDDecoder::new(ZCursor::new(f));
    if d.dimensions().is_some() || d.bit_depth().is_some() {
        return bad("early", format!("{what}: properties are reported before the headers are read"));
    }
    if ch.flag() {
        for _ in 0..2 {
            if let Err(e) = d.decode_headers() {
                return bad("headers", format!("{what}: {e:?}"));
            }
        }
    }
    let raw = if p.depth == 16 && p.w * p.h < 30 {
        PSDDecoder::new(ZCursor::new(f)).decode_raw().ok()
    } else {
        None
    };
    let got = match d.decode() {
        Err(e) => return bad("rejected", format!("{what}: a valid file was rejected: {e:?}")),
        Ok(DecodingResult::U8(v)) if p.depth == 8 => v.iter().map(|x| u16::from(*x)).collect::<Vec<_>>(),
        Ok(DecodingResult::U16(v)) if p.depth == 16 => v,
        Ok(_) => return bad("depth", format!("{what}: wrong sample type"))
    };
    let cs = match (p.mode, p.out()) {
        (1, _) => ColorSpace::Luma,
        (3, 3) => ColorSpace::RGB,
        (3, _) => ColorSpace::RGBA,
        _ => ColorSpace::CMYK
    };
    let bd = if p.depth == 8 { BitDepth::Eight } else { BitDepth::Sixteen };
    if d.dimensions() != Some((p.w, p.h)) || d.colorspace() != Some(cs) || d.bit_depth() != Some(bd) {
        return bad("announced", format!("{what}: reported {:?} {:?} {:?}", d.dimensions(), d.colorspace(), d.bit_depth()));
    }
    if let Some(r) = raw {
        let r: Vec<u16> = r.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect();
        if r != got {
            return bad("raw", format!("{what}: decode_raw and decode differ"));
        }
    }
    let want = p.expect();
    let tol = (p.mode == 3 && p.out() == 4) as u16;
    if let Some(i) = differs(&got, &want, tol) {
        // two defects an existing test pins (its reference hash is of the wrong output)
        let mut k = p.stored();
        let n = p.out();
        let raw8 = p.depth == 8 && !p.rle && n > 1;
        if raw8 {
            let flat = p.planes.concat();
            let px = p.w * p.h;
            let mut at = 0;
            k = vec![0; px * n];
            for c in 0..n {
                let mut i = c;
                while i < px {
                    k[i] = flat[at];
                    at += 1;
                    i += n;
                }
            }
        }
        if n == 4 {
            p.matted(&mut k);
        }
        if differs(&got, &k, 1).is_none() {
            if raw8 {
                return bad("raw-8-bit-planes", format!("{what}: an uncompressed 8 bit image of several channels is filled only up to the pixel count"));
            }
            if p.mode == 4 {
                return bad("cmyk-matte", format!("{what}: the black channel of a CMYK image is treated as alpha"));
            }
        }
        return bad("samples", format!("{what}: sample {i} is {:?}, not {:?}", got.get(i), want.get(i)));
    }
    Ok(())
}
fn layouts(ch: &mut Ch) -> Res {
    let (mode, chans) = ch.pick(&[(1u16, 1usize), (1, 2), (1, 3), (1, 4), (3, 3), (3, 4), (4, 4)]);
    let depth = ch.pick(&[8u16, 16]);
    let rle = depth == 8 && ch.flag();
    let m = if ch.thorough() { 12 } else { 6 };
    let (w, h) = match ch.choose(2) {
        0 => (1 + ch.choose(m), 1 + ch.choose(m)),
        _ => ch.pick(&[(127, 1), (128, 2), (129, 2), (256, 1), (300, 3), (1, 300), (16384, 1)])
    };
    let mut p = Psd::new(mode, depth, chans, w, h, rle);
    p.sections = ch.pick(&[[0, 0, 0], [1, 0, 0], [0, 7, 0], [0, 0, 9], [768, 2000, 3]]);
    let style = if rle { ch.choose(3) } else { 0 };
    let tail = ch.pick(&[0usize, 5]);
    let mut f = p.file_with(&mut |r| pack(r, style));
    f.extend(vec![9; tail]);
    verify(ch, &p, &f, &format!("mode {mode} depth {depth} channels {chans} {w}x{h} packed {rle} (style {style}) sections {:?} tail {tail}", p.sections))
}
fn packbits(ch: &mut Ch) -> Res {
    // every split of every row into commands, over a short alphabet
    let (mode, chans) = ch.pick(&[(1u16, 1usize), (3, 3)]);
    let w = if chans == 1 { 1 + ch.choose(if ch.thorough() { 7 } else { 5 }) } else { 2 };
    let h = if chans == 1 { 1 + (w < 4) as usize } else { 1 };
    let mut p = Psd::new(mode, 8, chans, w, h, true);
    for v in &mut p.planes {
        v.clear();
    }
    let mut rows = vec![];
    let mut desc = String::new();
    for c in 0..chans {
        for _ in 0..h {
            let mut raw = vec![];
            let mut left = w;
            let mut noops = 0;
            while left > 0 {
                match ch.choose(if noops < 1 { 3 } else { 2 }) {
                    0 => {
                        let n = 1 + ch.choose(left);
                        raw.push((n - 1) as u8);
                        for _ in 0..n {
                            let v = ch.pick(&[0x80u8, 0, 0xfe]);
                            raw.push(v);
                            p.planes[c].push(v.into());
                        }
                        desc.push_str(&format!("L{n}"));
                        left -= n;
                    }
                    1 => {
                        if left < 2 {
                            return Ok(());
                        }
                        let n = 2 + ch.choose(left - 1);
                        let v = ch.pick(&[0x80u8, 3]);
                        raw.extend([(257 - n) as u8, v]);
                        p.planes[c].extend(vec![v as u16; n]);
                        desc.push_str(&format!("R{n}"));
                        left -= n;
                    }
                    _ => {
                        raw.push(128);
                        desc.push('N');
                        noops += 1;
                    }
                }
            }
            desc.push('/');
            rows.push(raw);
        }
    }
    let mut it = rows.into_iter();
    let f = p.file_with(&mut |_| it.next().unwrap());
    verify(ch, &p, &f, &format!("packbits {desc} of {chans} channels {w}x{h}"))
}
fn matte(ch: &mut Ch) -> Res {
    let d16 = ch.flag();
    let mut p;
    if d16 {
        const A: [u16; 13] = [0, 1, 2, 255, 256, 257, 32767, 32768, 0x8000 + 0x80, 65279, 65280, 65534, 65535];
        let a = ch.pick(&A);
        p = Psd::new(3, 16, 4, A.len(), A.len(), false);
        for (i, (x, y)) in A.iter().flat_map(|x| A.iter().map(move |y| (*x, *y))).enumerate() {
            p.planes[0][i] = x;
            p.planes[1][i] = y;
            p.planes[2][i] = x ^ y;
            p.planes[3][i] = a;
        }
    } else {
        let a = ch.choose(256) as u16;
        p = Psd::new(3, 8, 4, 256, 1, true);
        for i in 0..256 {
            p.planes[0][i] = i as u16;
            p.planes[1][i] = 255 - i as u16;
            p.planes[2][i] = 255;
            p.planes[3][i] = a;
        }
    }
    let f = p.file();
    verify(ch, &p, &f, &format!("matte depth {} alpha {}", p.depth, p.planes[3][0]))
}
fn malformed(ch: &mut Ch) -> Res {
    let p = match ch.choose(3) {
        0 => Psd::new(1, 8, 1, 4, 3, false),
        1 => Psd::new(3, 16, 3, 2, 2, false),
        _ => Psd::new(3, 8, 3, 5, 2, true)
    };
    let f = p.file();
    let (g, what) = match ch.choose(3) {
        0 => {
            let n = ch.choose(f.len());
            (f[..n].to_vec(), format!("cut after {n} of {} bytes (raster from {})", f.len(), p.header().len()))
        }
        1 => {
            let mut g = f.clone();
            let (at, b) = ch.pick(&[(0usize, 0x39u8), (3, 0x54), (5, 2), (5, 0), (13, 0), (13, 57), (17, 0), (21, 0), (23, 1), (23, 32), (25, 0), (25, 2), (25, 5), (25, 7), (25, 9), (39, 2), (39, 3), (38, 1)]);
            g[at] = b;
            (g, format!("byte {at} is {b}"))
        }
        _ => {
            if !p.rle {
                return Ok(());
            }
            // a command that runs past the channel
            let mut g = p.header();
            g.extend(vec![0; 2 * p.h * p.chans]);
            g.extend(ch.pick(&[[10u8, 1], [246, 1], [127, 3], [129, 3]]));
            g.extend(vec![4; 200]);
            (g, "a command longer than the channel".into())
        }
    };
    let cs = if what.starts_with("byte 13") || what.starts_with("byte 25") { "mode" } else { "file" };
    if PSDDecoder::new(ZCursor::new(&g[..])).decode().is_ok() {
        return bad(&format!("accepted-{cs}"), format!("mode {} depth {} packed {}: {what}: decoded", p.mode, p.depth, p.rle));
    }
    Ok(())
}
