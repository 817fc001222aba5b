//! C26 JPEG XL encoding
use crate::engine::*;
use crate::sched;
use crate::Check;
use std::collections::BTreeMap;
use jxl_oxide::{JxlImage, JxlThreadPool, PixelFormat};
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_jpegxl::JxlSimpleEncoder;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26",
        level: "model_checking",
        rule: "every tiny image over a set of extreme sample values (values), every dimension of a list around the chunk, group and DC group sizes with every colour space, depth, effort and sample pattern (shapes), runs of every length up to the bound at several positions (runs), noise that makes files of every size around the changes of the section size coding (sizes), images of many groups in both directions (large), and for images of several groups every thread count with every order in which the threads it creates can run, also with one preemption at every allocation (threads); the file is decoded with jxl-oxide and compared sample for sample, and has to be the same bytes as encoding on one thread; a state is (image, effort, threads, order)",
        assumptions: &["jxl-oxide decodes correctly", "threads are scheduled by holding them in an interposed pthread_create"],
        scenarios: |_| vec![
            Scenario { name: "values", f: values },
            Scenario { name: "shapes", f: shapes },
            Scenario { name: "runs", f: runs },
            Scenario { name: "sizes", f: sizes },
            Scenario { name: "large", f: large },
            Scenario { name: "threads", f: threads },
            Scenario { name: "rejected", f: rejected }
        ]
    }]
}

const CS: [ColorSpace; 4] = [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA];

struct Im {
    w: usize,
    h: usize,
    cs: ColorSpace,
    bits: u32,
    /// interleaved samples
    px: Vec<u16>
}
impl Im {
    fn new(w: usize, h: usize, cs: ColorSpace, bits: u32, f: impl Fn(usize, usize, usize) -> u32) -> Im {
        let n = cs.num_components();
        let mut px = Vec::with_capacity(w * h * n);
        for y in 0..h {
            for x in 0..w {
                for c in 0..n {
                    px.push(f(x, y, c) as u16 & if bits == 8 { 255 } else { 65535 });
                }
            }
        }
        Im { w, h, cs, bits, px }
    }
    fn bytes(&self) -> Vec<u8> {
        if self.bits == 8 {
            self.px.iter().map(|x| *x as u8).collect()
        } else {
            self.px.iter().flat_map(|x| x.to_ne_bytes()).collect()
        }
    }
    fn max(&self) -> u32 {
        if self.bits == 8 { 255 } else { 65535 }
    }
    fn options(&self, effort: u8, threads: u8) -> EncoderOptions {
        let d = if self.bits == 8 { BitDepth::Eight } else { BitDepth::Sixteen };
        EncoderOptions::new(self.w, self.h, self.cs, d).set_effort(effort).set_num_threads(threads)
    }
    fn short(&self) -> String {
        format!("{}x{} {:?} {} bits", self.w, self.h, self.cs, self.bits)
    }
}

fn encode(im: &Im, effort: u8, threads: u8) -> Result<Vec<u8>, String> {
    let data = im.bytes();
    let mut out = vec![];
    match JxlSimpleEncoder::new(&data, im.options(effort, threads)).encode(&mut out) {
        Ok(n) if n == out.len() => Ok(out),
        Ok(n) => Err(format!("reports {n} bytes, wrote {}", out.len())),
        Err(e) => Err(format!("{e:?}"))
    }
}

fn expand(file: &[u8], im: &Im, what: &str) -> Res {
    let r = guard(|| -> Result<(), Bad> {
        let j = match JxlImage::builder().pool(JxlThreadPool::none()).read(file) {
            Ok(j) => j,
            Err(e) => return bad("undecodable", format!("{what}: {e}"))
        };
        if (j.width() as usize, j.height() as usize) != (im.w, im.h) {
            return bad("dims", format!("{what}: decodes to {}x{}", j.width(), j.height()));
        }
        let f = match im.cs {
            ColorSpace::Luma => PixelFormat::Gray,
            ColorSpace::LumaA => PixelFormat::Graya,
            ColorSpace::RGB => PixelFormat::Rgb,
            _ => PixelFormat::Rgba
        };
        if j.pixel_format() != f {
            return bad("colorspace", format!("{what}: decodes to {:?}", j.pixel_format()));
        }
        let b = j.image_header().metadata.bit_depth.bits_per_sample();
        if b != im.bits {
            return bad("depth", format!("{what}: the file says {b} bits"));
        }
        for e in &j.image_header().metadata.ec_info {
            if e.bit_depth.bits_per_sample() != im.bits {
                return bad("alpha-depth", format!("{what}: the file says {} bits for alpha", e.bit_depth.bits_per_sample()));
            }
        }
        if j.num_loaded_keyframes() != 1 {
            return bad("frames", format!("{what}: {} frames", j.num_loaded_keyframes()));
        }
        let r = match j.render_frame(0) {
            Ok(r) => r,
            Err(e) => return bad("undecodable", format!("{what}: {e}"))
        };
        let n = im.cs.num_components();
        let planes = r.image_planar();
        if planes.len() != n {
            return bad("channels", format!("{what}: {} channels", planes.len()));
        }
        let max = im.max() as f32;
        for (c, p) in planes.iter().enumerate() {
            let buf = p.buf();
            if buf.len() != im.w * im.h {
                return bad("dims", format!("{what}: channel {c} has {} samples", buf.len()));
            }
            for (i, v) in buf.iter().enumerate() {
                let e = im.px[i * n + c];
                let g = v * max;
                if !((g - e as f32).abs() < 0.3) {
                    return bad("samples", format!("{what}: channel {c} at ({},{}) decodes to {g}, encoded {e}", i % im.w, i / im.w));
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(e) => bad("undecodable", format!("{what}: the decoder panics ({e})"))
    }
}

fn roundtrip(ch: &mut Ch, im: &Im, effort: u8, what: &str) -> Res {
    ch.note(|| what.to_string());
    ch.state(hash_bytes(what.as_bytes()));
    match encode(im, effort, 0) {
        Err(e) => bad("refused", format!("{what}: {e}")),
        Ok(f) => {
            ch.obs_bytes(&f);
            expand(&f, im, what)
        }
    }
}

fn values(ch: &mut Ch) -> Res {
    let bits = ch.pick(&[8u32, 16]);
    let cs = ch.pick(&CS);
    let vals: &[u32] = match (bits, cs, ch.thorough()) {
        (8, ColorSpace::Luma, false) => &[0, 1, 127, 128, 254, 255],
        (8, ColorSpace::Luma, true) => &[0, 1, 2, 63, 64, 127, 128, 192, 254, 255],
        (16, ColorSpace::Luma, false) => &[0, 1, 32767, 32768, 65535],
        (16, ColorSpace::Luma, true) => &[0, 1, 255, 256, 16384, 32767, 32768, 40000, 65535],
        (8, ColorSpace::LumaA, true) => &[0, 128, 255],
        (16, ColorSpace::LumaA, true) => &[0, 32768, 65535],
        (8, ..) => &[0, 255],
        _ => &[0, 65535]
    };
    // the other samples of four component images follow from these
    let free = if cs == ColorSpace::RGBA { if ch.thorough() { 14 } else { 11 } } else { 4 * cs.num_components() };
    let v: Vec<u32> = (0..free).map(|_| *ch.pick_ref(vals)).collect();
    let n = cs.num_components();
    let top = if bits == 8 { 255 } else { 65535 };
    let im = Im::new(2, 2, cs, bits, |x, y, c| {
        let i = (y * 2 + x) * n + c;
        if i < free { v[i] } else { top / (i as u32 - 8) }
    });
    let what = format!("{} {:?}", im.short(), im.px);
    roundtrip(ch, &im, 4, &what)
}

fn sample(kind: usize, bits: u32, x: usize, y: usize, c: usize) -> u32 {
    let top = if bits == 8 { 255usize } else { 65535 };
    let v = match kind {
        // noise
        0 => {
            let mut h = (x * 0x9E37 + y * 0x85EB_CA6B + c * 0xC2B2_AE35 + 77) as u32;
            h ^= h >> 15;
            h = h.wrapping_mul(0x2C1B_3C6D);
            h ^= h >> 12;
            h = h.wrapping_mul(0x297A_2D39);
            (h >> 8) as usize & top
        }
        1 => (x * 3 + y * 5 + c * 40) & top,
        // extremes, so that residuals are as large as possible
        2 => {
            if (x + y + c) % 2 == 0 { top } else { 0 }
        }
        3 => top,
        4 => 0,
        // flat areas with isolated samples
        _ => {
            if (x * 7 + y * 13 + c) % 41 == 0 { top / 2 + 1 } else { top - 3 * c }
        }
    };
    v as u32
}

fn shapes(ch: &mut Ch) -> Res {
    let bits = ch.pick(&[8u32, 16]);
    let cs = ch.pick(&CS);
    let mut dims = vec![
        (2usize, 2usize), (3, 2), (2, 3), (15, 2), (16, 3), (17, 2), (31, 5), (33, 4), (255, 2), (256, 2), (257, 2), (2, 256), (2, 257), (2, 300), (256, 256), (200, 131), (258, 258), (300, 270), (513, 3), (3, 513)
    ];
    if ch.thorough() {
        for i in 4..=40 {
            dims.push((i, 3));
            dims.push((3, i));
        }
        for i in 250..=275 {
            dims.push((i, 3));
            dims.push((3, i));
        }
        dims.extend([(511, 2), (512, 2), (514, 2), (2047, 2), (2, 2047), (600, 600)]);
    }
    dims.extend([(2048, 2), (2049, 2), (2, 2048), (2, 2050), (2300, 2)]);
    let (w, h) = *ch.pick_ref(&dims);
    let kind = ch.choose(6);
    let effort = if w * h > 70000 && !ch.thorough() { ch.pick(&[4u8, 127]) } else { ch.pick(&[4u8, 0, 1, 127, 255]) };
    if !ch.thorough() && w.max(h) >= 2000 && (effort == 1 || effort == 255 || (kind != 0 && kind != 2)) {
        ch.discard();
        return Ok(());
    }
    let im = Im::new(w, h, cs, bits, |x, y, c| sample(kind, bits, x, y, c));
    let what = format!("{} pattern {kind} effort {effort}", im.short());
    roundtrip(ch, &im, effort, &what)
}

/// Images of one group that take about as many bytes as the section sizes of the format change their coding at
fn sizes(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGB]);
    let bits = ch.pick(&[8u32, 16]);
    let around = ch.pick(&[1024usize, 17408]);
    let seed = ch.choose(if ch.thorough() { 16 } else { 4 });
    // the number of noisy samples at which the file is that large
    let image = |k: usize| Im::new(256, 200, cs, bits, |x, y, c| if y * 256 + x < k { sample(0, bits, x + seed * 300, y, c) } else { 7 });
    let len = |k: usize| encode(&image(k), 4, 0).map(|f| f.len());
    static START: std::sync::Mutex<BTreeMap<(u32, usize, usize, usize), usize>> = std::sync::Mutex::new(BTreeMap::new());
    let key = (bits, cs.num_components(), around, seed);
    let known = START.lock().unwrap().get(&key).copied();
    let lo = match known {
        Some(k) => k,
        None => {
            let (mut lo, mut hi) = (0usize, 256 * 200);
            while lo + 1 < hi {
                let mid = (lo + hi) / 2;
                match len(mid) {
                    Err(e) => return bad("refused", format!("{mid} noisy samples: {e}")),
                    Ok(n) => if n < around { lo = mid } else { hi = mid }
                }
            }
            START.lock().unwrap().insert(key, lo);
            lo
        }
    };
    let k = (lo + ch.choose(if ch.thorough() { 160 } else { 100 })).saturating_sub(30);
    let im = image(k);
    let what = format!("{} of which {k} are noisy (seed {seed})", im.short());
    roundtrip(ch, &im, 4, &what)
}

/// Images of many groups in both directions, and dimensions at which their coding changes
fn large(ch: &mut Ch) -> Res {
    let bits = ch.pick(&[8u32, 16]);
    let cs = ch.pick(&CS);
    let mut dims = vec![(800usize, 270usize), (270, 800), (1030, 530), (8192, 2), (8193, 2), (2, 8192), (2, 8194), (16384, 2), (2, 16385)];
    if ch.thorough() {
        dims.extend([(2100, 300), (300, 2100), (1300, 1300), (2100, 2100), (262_144, 2), (262_145, 2), (2, 262_145)]);
    }
    let (w, h) = *ch.pick_ref(&dims);
    let kind = ch.pick(&[0usize, 5]);
    let effort = ch.pick(&[4u8, 127]);
    if !ch.thorough() && (effort == 127) != ((cs == ColorSpace::RGB) && kind == 0) {
        ch.discard();
        return Ok(());
    }
    let im = Im::new(w, h, cs, bits, |x, y, c| sample(kind, bits, x, y, c));
    let what = format!("{} pattern {kind} effort {effort}", im.short());
    roundtrip(ch, &im, effort, &what)
}

/// A flat image with two samples that differ: runs of every length
fn runs(ch: &mut Ch) -> Res {
    let bits = ch.pick(&[8u32, 16]);
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGB]);
    let (w, h) = ch.pick(&[(40usize, 3usize), (300, 2), (256, 256)]);
    let base = ch.pick(&[0u32, 200]);
    let from = ch.pick(&[0usize, 3, 16, 45]);
    let lens: Vec<usize> = if ch.thorough() { (1..=700).collect() } else { (1..=60).chain([100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600]).collect() };
    let len = *ch.pick_ref(&lens);
    let end = from + len;
    if end >= w * h || ((w, h) == (256, 256) && !ch.thorough() && len > 60) {
        ch.discard();
        return Ok(());
    }
    // huge runs: the whole area after the second sample
    let huge = (w, h) == (256, 256);
    let at = |x: usize, y: usize| y * w + x;
    let im = Im::new(w, h, cs, bits, |x, y, c| {
        let i = at(x, y);
        if (i == from || i == end) || (!huge && i > end && (i * 11 + c) % 5 == 0) { base + 1 + c as u32 } else { base }
    });
    let what = format!("{} base {base}, samples that differ at {from} and {end}", im.short());
    roundtrip(ch, &im, 4, &what)
}

fn threads(ch: &mut Ch) -> Res {
    let preempt = ch.flag();
    let bits = ch.pick(&[8u32, 16]);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::RGBA, ColorSpace::LumaA]);
    let (w, h) = if preempt {
        ch.pick(&[(257usize, 2usize), (258, 3)])
    } else if ch.thorough() {
        ch.pick(&[(257usize, 2usize), (2, 600), (300, 300), (520, 260), (1030, 2), (2, 1282)])
    } else {
        ch.pick(&[(257usize, 2usize), (2, 600), (300, 300), (1030, 2)])
    };
    let n = ch.pick(&[4u8, 1, 2, 3, 0, 255]);
    let effort = ch.pick(&[4u8, 127]);
    if effort == 127 && !ch.thorough() && (preempt || n != 4) {
        ch.discard();
        return Ok(());
    }
    let im = Im::new(w, h, cs, bits, |x, y, c| sample(0, bits, x, y, c));
    let key = hash_bytes(format!("jxl {w} {h} {bits} {cs:?} {n} {effort}").as_bytes());
    let p = sched::calibrate(key, || {
        let _ = encode(&im, effort, n);
    });
    let order = sched::choose_order(ch, &p);
    let pre = if preempt {
        if p.threads() < 2 || p.created[0] < p.threads() || order[0] > 1 {
            ch.discard();
            return Ok(());
        }
        let i = order[0];
        let a = p.allocs[i].min(if ch.thorough() { usize::MAX } else { 24 });
        if a == 0 {
            ch.discard();
            return Ok(());
        }
        Some((i, ch.choose(a) + 1, order[1 + ch.choose(order.len() - 1)]))
    } else {
        None
    };
    let what = format!("{} effort {effort} with {n} threads run in order {order:?} preemption {pre:?}", im.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    if p.threads() < 2 {
        ch.trivial();
    }
    let file = match sched::scheduled(&p, order, pre, || encode(&im, effort, n)) {
        Ok(f) => f,
        Err(e) => return bad("refused", format!("{what}: {e}"))
    };
    ch.obs_bytes(&file);
    let one = match encode(&im, effort, 0) {
        Ok(f) => f,
        Err(e) => return bad("refused", format!("{what}: {e} with one thread"))
    };
    if one != file {
        return bad("differs", format!("{what}: the file differs from the one written on one thread ({})", crate::util::first_diff(&file, &one)));
    }
    expand(&file, &im, &what)
}

/// What cannot be encoded is refused without writing anything
fn rejected(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGBA, ColorSpace::CMYK, ColorSpace::YCbCr, ColorSpace::HSL, ColorSpace::Unknown]);
    let d = ch.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]);
    let (w, h) = ch.pick(&[(3usize, 2usize), (1, 2), (2, 1), (1, 1), (300, 2)]);
    let delta = ch.pick(&[0i64, -1, 1, -1000000]);
    let n = w * h * cs.num_components() * d.size_of();
    let len = if delta == -1000000 { 0 } else { (n as i64 + delta).max(0) as usize };
    let what = format!("{w}x{h} {cs:?} {d:?} with {len} bytes (exact: {n})");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let data: Vec<u8> = (0..len).map(|i| (i * 37 % 251) as u8).collect();
    let mut out = vec![];
    let r = guard(|| JxlSimpleEncoder::new(&data, EncoderOptions::new(w, h, cs, d).set_num_threads(0)).encode(&mut out));
    let fits = CS.contains(&cs) && d != BitDepth::Float32 && w > 0 && h > 0 && len == n;
    match r {
        Err(e) => bad("panic", format!("{what}: panics ({e})")),
        Ok(Ok(_)) => {
            ch.obs(1);
            if fits { Ok(()) } else { bad("accepted", format!("{what}: accepted")) }
        }
        Ok(Err(e)) => {
            ch.obs(2);
            if !out.is_empty() {
                return bad("partial", format!("{what}: fails with {e:?} after writing {} bytes", out.len()));
            }
            if fits && w > 1 && h > 1 {
                return bad("refused", format!("{what}: {e:?}"));
            }
            Ok(())
        }
    }
}
