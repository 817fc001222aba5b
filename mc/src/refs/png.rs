//! Reference PNG / APNG writer, and the samples the PNG specification defines for what it wrote
use super::deflate::{adler32, crc32, stored, BitW};

#[derive(Clone, Debug, PartialEq)]
pub enum Trns {
    Gray(u16),
    Rgb([u16; 3]),
    Pal(Vec<u8>)
}
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Pack {
    Stored,
    Fixed
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub w:       usize,
    pub h:       usize,
    pub color:   u8,
    pub depth:   u8,
    pub adam7:   bool,
    /// raw samples, row major, interleaved, in the range of `depth`
    pub samples: Vec<u16>,
    pub palette: Vec<[u8; 3]>,
    pub trns:    Option<Trns>,
    /// filter type of each row, repeated
    pub filters: Vec<u8>,
    pub pack:    Pack,
    /// sizes of the data chunks; what is left goes into a last one
    pub splits:  Vec<usize>,
    /// chunks between the header and the palette, before the data, and after the data
    pub pre:     Vec<(&'static str, Vec<u8>)>,
    pub mid:     Vec<(&'static str, Vec<u8>)>,
    pub post:    Vec<(&'static str, Vec<u8>)>
}
pub fn comps(color: u8) -> usize {
    match color {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        _ => 4
    }
}
pub const KINDS: [(u8, u8); 15] = [
    (0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)
];
pub const PASSES: [(usize, usize, usize, usize); 7] = [
    (0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)
];
pub fn chunk(t: &str, d: &[u8]) -> Vec<u8> {
    let mut o = (d.len() as u32).to_be_bytes().to_vec();
    o.extend(t.as_bytes());
    o.extend(d);
    let c = crc32(&o[4..]);
    o.extend(c.to_be_bytes());
    o
}
fn paeth(a: u8, b: u8, c: u8) -> u8 {
    let (a, b, c) = (a as i32, b as i32, c as i32);
    let p = a + b - c;
    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
    (if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }) as u8
}
fn pack_row(vals: impl Iterator<Item = u16>, depth: u8) -> Vec<u8> {
    let mut o = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for v in vals {
        match depth {
            16 => o.extend(v.to_be_bytes()),
            8 => o.push(v as u8),
            d => {
                acc = (acc << d) | v as u32;
                n += d;
                if n == 8 {
                    o.push(acc as u8);
                    acc = 0;
                    n = 0;
                }
            }
        }
    }
    if n > 0 {
        o.push((acc << (8 - n)) as u8);
    }
    o
}
/// the filtered bytes that are compressed
pub fn filtered(w: usize, h: usize, color: u8, depth: u8, adam7: bool, samples: &[u16], filters: &[u8]) -> Vec<u8> {
    let nc = comps(color);
    let bpp = (nc * depth as usize).div_ceil(8);
    let mut out = vec![];
    let mut row_no = 0;
    let passes: &[(usize, usize, usize, usize)] = if adam7 { &PASSES } else { &[(0, 0, 1, 1)] };
    for &(x0, y0, dx, dy) in passes {
        let xs: Vec<usize> = (x0..w).step_by(dx).collect();
        if xs.is_empty() {
            continue;
        }
        let mut prev: Option<Vec<u8>> = None;
        for y in (y0..h).step_by(dy) {
            let row = pack_row(xs.iter().flat_map(|x| (0..nc).map(move |c| samples[(y * w + x) * nc + c])), depth);
            let zero = vec![0; row.len()];
            let p = prev.as_ref().unwrap_or(&zero);
            let f = filters[row_no % filters.len()];
            row_no += 1;
            out.push(f);
            for i in 0..row.len() {
                let a = if i >= bpp { row[i - bpp] } else { 0 };
                let b = p[i];
                let c = if i >= bpp { p[i - bpp] } else { 0 };
                let pred = match f {
                    0 => 0,
                    1 => a,
                    2 => b,
                    3 => ((a as u16 + b as u16) / 2) as u8,
                    _ => paeth(a, b, c)
                };
                out.push(row[i].wrapping_sub(pred));
            }
            prev = Some(row);
        }
    }
    out
}
pub fn compress(data: &[u8], pack: Pack) -> Vec<u8> {
    match pack {
        Pack::Stored => super::deflate::zlib_stored(data),
        Pack::Fixed => {
            let mut w = BitW::new();
            w.put(1, 1);
            w.put(1, 2);
            let rev = |v: u32, n: u32| (v.reverse_bits() >> (32 - n)) as u64;
            for b in data {
                let b = *b as u32;
                if b < 144 { w.put(rev(0x30 + b, 8), 8) } else { w.put(rev(0x190 + b - 144, 9), 9) }
            }
            w.put(0, 7);
            w.align();
            let mut o = vec![0x78, 0x01];
            o.extend(&w.out);
            o.extend(adler32(data).to_be_bytes());
            o
        }
    }
}
/// raw stored blocks of the given size, to place block ends
pub fn compress_blocks(data: &[u8], size: usize) -> Vec<u8> {
    let mut w = BitW::new();
    let n = data.len().div_ceil(size).max(1);
    for (i, c) in data.chunks(size).enumerate() {
        stored(&mut w, i + 1 == n, c);
    }
    super::deflate::zlib(&w.out, data)
}
pub fn ihdr(s: &Spec) -> Vec<u8> {
    let mut d = (s.w as u32).to_be_bytes().to_vec();
    d.extend((s.h as u32).to_be_bytes());
    d.extend([s.depth, s.color, 0, 0, s.adam7 as u8]);
    chunk("IHDR", &d)
}
pub const SIG: [u8; 8] = [0x89, b'P', b'N', b'G', 13, 10, 26, 10];
impl Spec {
    pub fn new(w: usize, h: usize, color: u8, depth: u8, adam7: bool, seed: u64) -> Spec {
        let nc = comps(color);
        let max = if depth == 16 { 65535u32 } else { (1 << depth) - 1 };
        let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
        let npal = if color == 3 { (1usize << depth).min(256) } else { 0 };
        let samples = (0..w * h * nc)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                ((x >> 33) as u32 % (max + 1)) as u16
            })
            .collect();
        let palette = (0..npal).map(|i| [(i * 7 + 3) as u8, (i * 31 + 100) as u8, 255 - (i * 13) as u8]).collect();
        Spec { w, h, color, depth, adam7, samples, palette, trns: None, filters: vec![0], pack: Pack::Fixed, splits: vec![], pre: vec![], mid: vec![], post: vec![] }
    }
    pub fn max(&self) -> u16 {
        if self.depth == 16 { 65535 } else { (1u32 << self.depth) as u16 - 1 }
    }
    pub fn zdata(&self) -> Vec<u8> {
        compress(&filtered(self.w, self.h, self.color, self.depth, self.adam7, &self.samples, &self.filters), self.pack)
    }
    pub fn trns_bytes(&self) -> Option<Vec<u8>> {
        self.trns.as_ref().map(|t| match t {
            Trns::Gray(v) => v.to_be_bytes().to_vec(),
            Trns::Rgb(v) => v.iter().flat_map(|x| x.to_be_bytes()).collect(),
            Trns::Pal(v) => v.clone()
        })
    }
    pub fn head(&self) -> Vec<u8> {
        let mut o = SIG.to_vec();
        o.extend(ihdr(self));
        for (t, d) in &self.pre {
            o.extend(chunk(t, d));
        }
        if self.color == 3 {
            o.extend(chunk("PLTE", &self.palette.concat()));
        }
        if let Some(t) = self.trns_bytes() {
            o.extend(chunk("tRNS", &t));
        }
        for (t, d) in &self.mid {
            o.extend(chunk(t, d));
        }
        o
    }
    pub fn file(&self) -> Vec<u8> {
        self.file_with(&self.zdata())
    }
    pub fn file_with(&self, z: &[u8]) -> Vec<u8> {
        let mut o = self.head();
        let mut i = 0;
        for s in &self.splits {
            let e = (i + s).min(z.len());
            o.extend(chunk("IDAT", &z[i..e]));
            i = e;
        }
        if i < z.len() {
            o.extend(chunk("IDAT", &z[i..]));
        }
        for (t, d) in &self.post {
            o.extend(chunk(t, d));
        }
        o.extend(chunk("IEND", &[]));
        o
    }
    /// what a decoder has to deliver: 8-bit samples for depths up to 8, 16-bit ones otherwise
    pub fn expect(&self) -> Out {
        expect(self.color, self.depth, &self.samples, &self.palette, &self.trns)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub nc:   usize,
    pub wide: bool,
    pub v:    Vec<u16>
}
pub fn expect(color: u8, depth: u8, samples: &[u16], palette: &[[u8; 3]], trns: &Option<Trns>) -> Out {
    let wide = depth == 16;
    let full = if wide { 65535u16 } else { 255 };
    let nc = comps(color);
    let scale = |v: u16| match depth {
        16 | 8 => v,
        d => v * (255 / ((1 << d) - 1))
    };
    let mut v = vec![];
    let mut out_nc = nc;
    for px in samples.chunks(nc) {
        if color == 3 {
            let i = px[0] as usize;
            v.extend(palette[i].iter().map(|x| *x as u16));
            out_nc = 3;
            if let Some(Trns::Pal(a)) = trns {
                v.push(a.get(i).copied().unwrap_or(255) as u16);
                out_nc = 4;
            }
        } else {
            v.extend(px.iter().map(|x| scale(*x)));
            let key = match trns {
                Some(Trns::Gray(k)) => Some(px[0] == *k),
                Some(Trns::Rgb(k)) => Some(px == k),
                _ => None
            };
            if let Some(k) = key {
                v.push(if k { 0 } else { full });
                out_nc = nc + 1;
            }
        }
    }
    Out { nc: out_nc, wide, v }
}
impl Out {
    pub fn add_alpha(&self) -> Out {
        if self.nc == 2 || self.nc == 4 {
            return self.clone();
        }
        let full = if self.wide { 65535 } else { 255 };
        let v = self.v.chunks(self.nc).flat_map(|p| p.iter().copied().chain([full])).collect();
        Out { nc: self.nc + 1, wide: self.wide, v }
    }
    pub fn strip(&self) -> Out {
        if !self.wide {
            return self.clone();
        }
        Out { nc: self.nc, wide: false, v: self.v.iter().map(|x| x >> 8).collect() }
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        if !self.wide {
            return self.v.iter().map(|x| *x as u8).collect();
        }
        self.v.iter().flat_map(|x| if big { x.to_be_bytes() } else { x.to_le_bytes() }).collect()
    }
}
