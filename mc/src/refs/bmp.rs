//! Reference BMP writer, and the pixels the format defines for what it wrote
use crate::util::pattern;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Comp {
    Rgb,
    Rle8,
    Rle4,
    Bitfields
}
#[derive(Clone, Debug)]
pub struct Bmp {
    /// size of the information header
    pub ih:      usize,
    pub w:       usize,
    pub h:       usize,
    pub topdown: bool,
    pub bpp:     usize,
    pub comp:    Comp,
    pub masks:   [u32; 4],
    pub palette: Vec<[u8; 3]>,
    /// colour count field (0: the full palette)
    pub used:    usize,
    /// unused bytes between the palette and the pixels
    pub gap:     usize,
    /// pixels in top-down order: palette index, 0xRRGGBB, or the raw 16/32 bit word
    pub px:      Vec<u32>,
    /// run-length stream, replaces the pixels
    pub rle:     Vec<u8>,
    pub tail:    Vec<u8>,
    /// fields without meaning for the pixels are not zero
    pub junk:    bool
}
pub fn row_bytes(w: usize, bpp: usize) -> usize {
    (w * bpp + 31) / 32 * 4
}
impl Bmp {
    pub fn new(ih: usize, w: usize, h: usize, bpp: usize, seed: u32) -> Bmp {
        let n = if bpp <= 8 { 1usize << bpp } else { 0 };
        let p = pattern(n * 3, seed ^ 0x55);
        let d = pattern(w * h * 4, seed);
        let px = (0..w * h)
            .map(|i| {
                let v = u32::from_le_bytes([d[4 * i], d[4 * i + 1], d[4 * i + 2], d[4 * i + 3]]);
                if bpp == 32 {
                    v
                } else {
                    (v >> 3) & ((1u32 << bpp) - 1)
                }
            })
            .collect();
        Bmp {
            ih,
            w,
            h,
            topdown: false,
            bpp,
            comp: Comp::Rgb,
            masks: [0; 4],
            palette: p.chunks(3).map(|c| [c[0], c[1], c[2]]).collect(),
            used: 0,
            gap: 0,
            px,
            rle: vec![],
            tail: vec![],
            junk: false
        }
    }
    pub fn data(&self) -> Vec<u8> {
        if matches!(self.comp, Comp::Rle4 | Comp::Rle8) {
            return self.rle.clone();
        }
        let mut o = vec![];
        for y in 0..self.h {
            let y = if self.topdown { y } else { self.h - 1 - y };
            let row = &self.px[y * self.w..(y + 1) * self.w];
            let mut b = vec![];
            match self.bpp {
                1 | 2 | 4 => {
                    let per = 8 / self.bpp;
                    for c in row.chunks(per) {
                        let mut v = 0u32;
                        for i in 0..per {
                            v = v << self.bpp | c.get(i).copied().unwrap_or(0);
                        }
                        b.push(v as u8);
                    }
                }
                8 => b.extend(row.iter().map(|x| *x as u8)),
                n => {
                    for v in row {
                        b.extend(&v.to_le_bytes()[..n / 8]);
                    }
                }
            }
            // the padding is not zero, so that a reader that mixes it in is noticed
            b.resize(row_bytes(self.w, self.bpp), 0xA5);
            o.extend(b);
        }
        o
    }
    pub fn head(&self) -> Vec<u8> {
        let masks_after = self.comp == Comp::Bitfields && self.ih == 40;
        let entry = if self.ih == 12 { 3 } else { 4 };
        let off = 14 + self.ih + if masks_after { 12 } else { 0 } + self.palette.len() * entry + self.gap;
        let data = self.data();
        let mut o = b"BM".to_vec();
        o.extend(((off + data.len()) as u32).to_le_bytes());
        o.extend(if self.junk { [1, 2, 3, 0xF4] } else { [0; 4] });
        o.extend((off as u32).to_le_bytes());
        o.extend((self.ih as u32).to_le_bytes());
        let height = if self.topdown { -(self.h as i64) } else { self.h as i64 };
        if self.ih == 12 {
            o.extend((self.w as u16).to_le_bytes());
            o.extend((height as u16).to_le_bytes());
        } else {
            o.extend((self.w as u32).to_le_bytes());
            o.extend((height as i32).to_le_bytes());
        }
        o.extend(1u16.to_le_bytes());
        o.extend((self.bpp as u16).to_le_bytes());
        if self.ih > 16 {
            let c = match self.comp {
                Comp::Rgb => 0u32,
                Comp::Rle8 => 1,
                Comp::Rle4 => 2,
                Comp::Bitfields => 3
            };
            o.extend(c.to_le_bytes());
            o.extend((data.len() as u32).to_le_bytes());
            for r in if self.junk { [u32::MAX, 0] } else { [2835u32; 2] } {
                o.extend(r.to_le_bytes());
            }
            o.extend((self.used as u32).to_le_bytes());
            o.extend(if self.junk { 1u32 } else { 0 }.to_le_bytes());
        }
        if self.ih >= 52 && self.ih != 64 {
            for m in &self.masks[..3] {
                o.extend(m.to_le_bytes());
            }
            if self.ih >= 56 {
                o.extend(self.masks[3].to_le_bytes());
            }
        }
        if self.ih >= 108 {
            o.extend(0x7352_4742u32.to_le_bytes());
        }
        if self.junk {
            // other colours' coordinates, and the fields of the OS/2 header
            o.extend(pattern((14 + self.ih).saturating_sub(o.len()).min(if self.ih > 64 { 48 } else { 64 }), 9));
        }
        o.resize(14 + self.ih, 0);
        if masks_after {
            for m in &self.masks[..3] {
                o.extend(m.to_le_bytes());
            }
        }
        for c in &self.palette {
            o.extend([c[2], c[1], c[0]]);
            if entry == 4 {
                o.push(0x77);
            }
        }
        o.resize(off, 0xC3);
        o
    }
    pub fn file(&self) -> Vec<u8> {
        let mut o = self.head();
        o.extend(self.data());
        o.extend(&self.tail);
        o
    }
    /// number of output channels
    pub fn comps(&self) -> usize {
        match (self.bpp, self.comp) {
            (32, _) | (16, Comp::Bitfields) => 4,
            (8, _) if self.palette.is_empty() && self.gap == 0 => 1,
            _ => 3
        }
    }
    /// per output sample: (field value, largest field value); exact 8-bit samples have 255
    pub fn expect(&self) -> Vec<(u32, u32)> {
        let mut o = vec![];
        for v in &self.px {
            match (self.bpp, self.comp) {
                (1..=8, _) if self.comps() == 1 => o.push((*v, 255)),
                (1..=8, _) => {
                    let c = self.palette.get(*v as usize).copied().unwrap_or([0; 3]);
                    o.extend(c.map(|x| (x as u32, 255)));
                }
                (24, _) => o.extend([(v >> 16 & 255, 255), (v >> 8 & 255, 255), (v & 255, 255)]),
                (16, Comp::Rgb) => o.extend([(v >> 10 & 31, 31), (v >> 5 & 31, 31), (v & 31, 31)]),
                (32, Comp::Rgb) => o.extend([(v >> 16 & 255, 255), (v >> 8 & 255, 255), (v & 255, 255), (255, 255)]),
                _ => {
                    for (i, m) in self.masks.iter().enumerate() {
                        if *m == 0 {
                            o.push((if i == 3 { 1 } else { 0 }, 1));
                        } else {
                            o.push(((v & m) >> m.trailing_zeros(), m >> m.trailing_zeros()));
                        }
                    }
                }
            }
        }
        o
    }
}
/// a field value scaled to 8 bits: the ends are exact and nothing is a whole step off
pub fn scaled_ok(got: u8, (v, max): (u32, u32)) -> bool {
    if max == 255 {
        return got as u32 == v;
    }
    if v == 0 || v == max {
        return got == if v == 0 { 0 } else { 255 };
    }
    (got as f64 - v as f64 * 255.0 / max as f64).abs() < 1.0
}
