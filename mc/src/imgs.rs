//! A plain image model (sample bit patterns per frame and plane) bound to zune_image::Image
use crate::engine::*;
use std::any::TypeId;
use std::num::NonZeroU32;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;

#[derive(Clone, PartialEq, Debug)]
pub struct M {
    pub w: usize,
    pub h: usize,
    pub cs: ColorSpace,
    pub bt: BitType,
    /// frame, plane, sample (bit pattern)
    pub f: Vec<Vec<Vec<u32>>>
}

pub const DEPTHS: [BitType; 3] = [BitType::U8, BitType::U16, BitType::F32];

pub fn multi(n: u32) -> ColorSpace {
    ColorSpace::MultiBand(NonZeroU32::new(n).unwrap())
}
pub fn depth_of(b: BitType) -> BitDepth {
    match b {
        BitType::U8 => BitDepth::Eight,
        BitType::U16 => BitDepth::Sixteen,
        _ => BitDepth::Float32
    }
}
pub fn size_of(b: BitType) -> usize {
    match b {
        BitType::U8 => 1,
        BitType::U16 => 2,
        _ => 4
    }
}
pub fn max_of(b: BitType) -> f64 {
    match b {
        BitType::U8 => 255.0,
        BitType::U16 => 65535.0,
        _ => 1.0
    }
}
pub fn to_f(b: BitType, v: u32) -> f64 {
    match b {
        BitType::F32 => f32::from_bits(v) as f64,
        _ => v as f64
    }
}
pub fn from_f(b: BitType, v: f64) -> u32 {
    match b {
        BitType::F32 => (v as f32).to_bits(),
        _ => v as u32
    }
}
/// the i-th of many distinct samples
pub fn distinct(b: BitType, i: usize) -> u32 {
    match b {
        BitType::U8 => (i * 7 + 3) as u32 & 0xff,
        BitType::U16 => (i * 257 + 513) as u32 & 0xffff,
        _ => ((i % 997 + 1) as f32 / 1024.0).to_bits()
    }
}

pub fn plane_of(c: &Channel) -> Vec<u32> {
    let t = c.type_id();
    let raw = unsafe { c.alias() };
    if t == TypeId::of::<u8>() {
        raw.iter().map(|x| *x as u32).collect()
    } else if t == TypeId::of::<u16>() {
        raw.chunks_exact(2).map(|x| u16::from_ne_bytes([x[0], x[1]]) as u32).collect()
    } else {
        raw.chunks_exact(4).map(|x| u32::from_ne_bytes([x[0], x[1], x[2], x[3]])).collect()
    }
}
pub fn channel_of(b: BitType, p: &[u32]) -> Channel {
    match b {
        BitType::U8 => {
            let v: Vec<u8> = p.iter().map(|x| *x as u8).collect();
            let mut c = Channel::new_with_capacity::<u8>(v.len());
            c.extend(&v);
            c
        }
        BitType::U16 => {
            let v: Vec<u16> = p.iter().map(|x| *x as u16).collect();
            let mut c = Channel::new_with_capacity::<u16>(v.len() * 2);
            c.extend(&v);
            c
        }
        _ => {
            let v: Vec<f32> = p.iter().map(|x| f32::from_bits(*x)).collect();
            let mut c = Channel::new_with_capacity::<f32>(v.len() * 4);
            c.extend(&v);
            c
        }
    }
}

/// images that don't fit the types smaller than usize in one way or another
pub const LONG: [(usize, usize); 6] = [(300, 2), (2, 300), (257, 256), (66000, 1), (1, 66000), (1000, 70)];

impl M {
    pub fn new(w: usize, h: usize, cs: ColorSpace, bt: BitType, frames: usize, f: impl Fn(usize, usize, usize) -> u32) -> M {
        let n = cs.num_components();
        M {
            w,
            h,
            cs,
            bt,
            f: (0..frames).map(|k| (0..n).map(|c| (0..w * h).map(|i| f(k, c, i)).collect()).collect()).collect()
        }
    }
    /// every sample distinct (as far as the depth allows)
    pub fn unique(w: usize, h: usize, cs: ColorSpace, bt: BitType, frames: usize) -> M {
        let n = cs.num_components();
        M::new(w, h, cs, bt, frames, |k, c, i| distinct(bt, (k * n + c) * w * h + i))
    }
    /// samples without any period
    pub fn hashed(w: usize, h: usize, cs: ColorSpace, bt: BitType, frames: usize) -> M {
        let n = cs.num_components();
        M::new(w, h, cs, bt, frames, |k, c, i| {
            let mut x = (((k * n + c) * w * h + i) as u32).wrapping_mul(0x9E37_79B9) ^ 0x5bd1_e995;
            x ^= x >> 15;
            x = x.wrapping_mul(0x85EB_CA6B);
            x ^= x >> 13;
            match bt {
                BitType::U8 => x & 0xff,
                BitType::U16 => x & 0xffff,
                _ => ((x & 0xffff) as f32 / 65536.0).to_bits()
            }
        })
    }
    pub fn image(&self) -> Image {
        let frames = self
            .f
            .iter()
            .map(|p| Frame::new(p.iter().map(|x| channel_of(self.bt, x)).collect()))
            .collect();
        Image::new_frames(frames, depth_of(self.bt), self.w, self.h, self.cs)
    }
    pub fn map_planes(&self, w: usize, h: usize, f: impl Fn(usize, &[u32]) -> Vec<u32>) -> M {
        M { w, h, cs: self.cs, bt: self.bt, f: self.f.iter().map(|p| p.iter().enumerate().map(|(i, x)| f(i, x)).collect()).collect() }
    }
    /// out(x, y) = in(src(x, y))
    pub fn remap(&self, w: usize, h: usize, src: impl Fn(usize, usize) -> (usize, usize)) -> M {
        let iw = self.w;
        self.map_planes(w, h, |_, p| {
            (0..w * h)
                .map(|i| {
                    let (x, y) = src(i % w, i / w);
                    p[y * iw + x]
                })
                .collect()
        })
    }
    /// interleaved samples of a frame
    pub fn inter(&self, frame: usize) -> Vec<u32> {
        let p = &self.f[frame];
        (0..self.w * self.h).flat_map(|i| p.iter().map(move |c| c[i])).collect()
    }
    /// interleaved samples of a frame as bytes
    pub fn bytes(&self, frame: usize, big_endian: bool) -> Vec<u8> {
        let be = big_endian || cfg!(target_endian = "big");
        self.inter(frame)
            .into_iter()
            .flat_map(|v| match (self.bt, be) {
                (BitType::U8, _) => vec![v as u8],
                (BitType::U16, true) => (v as u16).to_be_bytes().to_vec(),
                (BitType::U16, false) => (v as u16).to_le_bytes().to_vec(),
                (_, true) => v.to_be_bytes().to_vec(),
                (_, false) => v.to_le_bytes().to_vec()
            })
            .collect()
    }
    pub fn short(&self) -> String {
        format!("{}x{} {:?} {:?} {} frame(s)", self.w, self.h, self.cs, self.bt, self.f.len())
    }
}

/// The image is internally consistent (what any operation must leave behind)
pub fn valid(im: &Image) -> Result<(), String> {
    let (w, h) = im.dimensions();
    let sz = im.depth().size_of();
    for (k, f) in im.frames_ref().iter().enumerate() {
        let n = f.channels_vec_ref().len();
        if n != im.colorspace().num_components() {
            return Err(format!("frame {k} has {n} channels for {:?}", im.colorspace()));
        }
        for (c, chn) in f.channels_vec_ref().iter().enumerate() {
            if chn.len() != w * h * sz {
                return Err(format!("frame {k} channel {c} has {} bytes for {w}x{h} {:?}", chn.len(), im.depth()));
            }
            let t = match im.depth().bit_type() {
                BitType::U8 => TypeId::of::<u8>(),
                BitType::U16 => TypeId::of::<u16>(),
                _ => TypeId::of::<f32>()
            };
            if chn.type_id() != t {
                return Err(format!("frame {k} channel {c} has another element type than {:?}", im.depth()));
            }
        }
    }
    Ok(())
}

pub fn model_of(im: &Image) -> M {
    let (w, h) = im.dimensions();
    M {
        w,
        h,
        cs: im.colorspace(),
        bt: im.depth().bit_type(),
        f: im.frames_ref().iter().map(|f| f.channels_vec_ref().iter().map(plane_of).collect()).collect()
    }
}

fn show_s(b: BitType, v: u32) -> String {
    match b {
        BitType::F32 => format!("{:?}", f32::from_bits(v)),
        _ => format!("{v}")
    }
}

/// exact comparison
pub fn same(im: &Image, m: &M, what: &str) -> Res {
    if im.dimensions() != (m.w, m.h) {
        return bad("dims", format!("{what}: dimensions {:?}, expected {:?}", im.dimensions(), (m.w, m.h)));
    }
    if im.colorspace() != m.cs {
        return bad("colorspace", format!("{what}: colour space {:?}, expected {:?}", im.colorspace(), m.cs));
    }
    if im.depth().bit_type() != m.bt {
        return bad("depth", format!("{what}: depth {:?}, expected {:?}", im.depth(), m.bt));
    }
    if im.frames_ref().len() != m.f.len() {
        return bad("frames", format!("{what}: {} frames, expected {}", im.frames_ref().len(), m.f.len()));
    }
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    for (k, (f, mf)) in im.frames_ref().iter().zip(&m.f).enumerate() {
        for (c, (p, mp)) in f.channels_vec_ref().iter().zip(mf).enumerate() {
            let p = plane_of(p);
            if &p != mp {
                let i = (0..p.len()).find(|i| p[*i] != mp[*i]).unwrap_or(0);
                return bad(
                    "samples",
                    format!(
                        "{what}: frame {k} channel {c} at ({},{}) is {}, expected {}",
                        i % m.w.max(1),
                        i / m.w.max(1),
                        show_s(m.bt, p[i]),
                        show_s(m.bt, mp[i])
                    )
                );
            }
        }
    }
    Ok(())
}

/// comparison of the samples against expected real values with an absolute tolerance per depth
pub fn near(im: &Image, what: &str, tol: f64, exp: impl Fn(usize, usize, usize) -> Option<f64>) -> Res {
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    let b = im.depth().bit_type();
    let w = im.dimensions().0.max(1);
    for (k, f) in im.frames_ref().iter().enumerate() {
        for (c, p) in f.channels_vec_ref().iter().enumerate() {
            for (i, v) in plane_of(p).into_iter().enumerate() {
                if let Some(e) = exp(k, c, i) {
                    let g = to_f(b, v);
                    if !((g - e).abs() <= tol) {
                        return bad(
                            "samples",
                            format!("{what}: frame {k} channel {c} at ({},{}) is {g}, expected {e} (tolerance {tol})", i % w, i / w)
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn obs_image(ch: &mut Ch, im: &Image) {
    for c in im.frames_ref().iter().flat_map(|f| f.channels_vec_ref()) {
        ch.obs_bytes(unsafe { c.alias() });
    }
    ch.obs(im.dimensions().0 as u64 * 1000 + im.dimensions().1 as u64);
}
