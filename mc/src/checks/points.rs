//! C34 point operations
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C34",
        level: "model_checking",
        rule: "every operation with every parameter set over every 8-bit value, every 16-bit value and a float grid, at every depth and colour space, plus every width in the bound, and colour cubes for the operations that mix channels, compared with the documented formulas in double precision; a state is (operation, parameters, depth, colour space)",
        assumptions: &["integer results may be rounded either way", "float results above the range may be clamped or kept where the documentation does not say"],
        scenarios: |_| vec![
            Scenario { name: "values", f: values },
            Scenario { name: "positions", f: positions },
            Scenario { name: "large", f: large },
            Scenario { name: "mixing", f: mixing },
            Scenario { name: "slices", f: slices }
        ]
    }]
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum P {
    Brighten(f32),
    Contrast(f32),
    Exposure(f32, f32),
    Gamma(f32),
    Invert,
    Binary(f32),
    BinaryInv(f32),
    Trunc(f32),
    ToZero(f32),
    Stretch(f32, f32)
}

pub fn point_op(p: P) -> Box<dyn OperationsTrait> {
    match p {
        P::Brighten(v) => Box::new(Brighten::new(v)),
        P::Contrast(v) => Box::new(Contrast::new(v)),
        P::Exposure(e, b) => Box::new(Exposure::new(e, b)),
        P::Gamma(v) => Box::new(Gamma::new(v)),
        P::Invert => Box::new(Invert::new()),
        P::Binary(t) => Box::new(Threshold::new(t, ThresholdMethod::Binary)),
        P::BinaryInv(t) => Box::new(Threshold::new(t, ThresholdMethod::BinaryInv)),
        P::Trunc(t) => Box::new(Threshold::new(t, ThresholdMethod::ThreshTrunc)),
        P::ToZero(t) => Box::new(Threshold::new(t, ThresholdMethod::ThreshToZero)),
        P::Stretch(a, b) => Box::new(StretchContrast::new(a, b))
    }
}

/// what a sample may become: the real result and how far the arithmetic may be off before rounding
struct E {
    v: f64,
    eps: f64,
    /// out of range float results may stay
    loose: bool
}

fn expect(p: P, bt: BitType, x: f64) -> E {
    let max = max_of(bt);
    let int = bt != BitType::F32;
    let lim = |v: f64| v.clamp(0.0, max);
    let ex = |v: f64| E { v, eps: 0.0, loose: false };
    // thresholds are cast to the sample type
    let thr = |t: f32| if int { (t as f64).clamp(0.0, max).floor() } else { t as f64 };
    match p {
        P::Brighten(v) => E { v: lim(x + v.clamp(-1.0, 1.0) as f64 * max), eps: if int && (v * 4.0).fract() != 0.0 { 0.01 } else { 0.0 }, loose: false },
        P::Contrast(c) => {
            let c = c as f64;
            let f = 259.0 * (c + 255.0) / (255.0 * (259.0 - c));
            E { v: lim(f * (x - 128.0) + 128.0), eps: if c == 0.0 { 0.0 } else { 0.01 + f.abs() * 1e-4 }, loose: false }
        }
        P::Exposure(e, b) => {
            let v = (x - b.clamp(0.0, 1.0) as f64 * max) * e as f64;
            let plain = (e * 4.0).fract() == 0.0 && (b == 0.0 || b == 1.0);
            if int {
                E { v: lim(v), eps: if plain { 0.0 } else { 0.02 }, loose: false }
            } else {
                E { v, eps: 1e-5 * (1.0 + v.abs()), loose: true }
            }
        }
        P::Gamma(g) => {
            let v = max * (x / max).powf(g as f64);
            E { v: if int { lim(v) } else { v }, eps: if int { max * 2e-6 } else { 1e-5 }, loose: false }
        }
        P::Invert => ex(max - x),
        P::Binary(t) => ex(if x > thr(t) { max } else { 0.0 }),
        P::BinaryInv(t) => ex(if x > thr(t) { 0.0 } else { max }),
        P::Trunc(t) => ex(if x > thr(t) { thr(t) } else { x }),
        P::ToZero(t) => ex(if x > thr(t) { x } else { 0.0 }),
        P::Stretch(a, b) => {
            let cut = |t: f32| if int { (t as f64).clamp(0.0, max).floor() } else { t as f64 };
            let (a, b) = (cut(a), cut(b));
            let v = if x >= b {
                max
            } else if x <= a {
                0.0
            } else {
                max * (x - a) / (b - a)
            };
            E { v, eps: if int { 0.0 } else { 1e-5 }, loose: false }
        }
    }
}

fn fits(bt: BitType, e: &E, got: u32) -> bool {
    let g = to_f(bt, got);
    if bt == BitType::F32 {
        let near = |v: f64| (g - v).abs() <= e.eps + 1e-6 * (1.0 + v.abs());
        near(e.v) || (e.loose && near(e.v.clamp(0.0, 1.0)))
    } else {
        g >= (e.v - e.eps).floor() && g <= (e.v + e.eps).ceil()
    }
}

fn supports(p: P, bt: BitType, cs: ColorSpace) -> bool {
    let four = matches!(cs, ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::Luma | ColorSpace::LumaA | ColorSpace::MultiBand(_));
    match p {
        P::Brighten(_) | P::Invert => four,
        P::Contrast(_) => four && bt == BitType::U8,
        P::Stretch(..) => bt != BitType::F32,
        _ => true
    }
}

fn verify(p: P, m: &M, im: &Image) -> Res {
    let what = || format!("{p:?} on {}", m.short());
    let got = model_of(im);
    if (got.w, got.h, got.cs, got.bt, got.f.len()) != (m.w, m.h, m.cs, m.bt, m.f.len()) {
        return bad("shape", format!("{}: the result is {}", what(), got.short()));
    }
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{}: {e}", what()));
    }
    let alpha = m.cs.alpha_position();
    for (k, (gf, mf)) in got.f.iter().zip(&m.f).enumerate() {
        for (c, (gp, mp)) in gf.iter().zip(mf).enumerate() {
            for (i, (g, x)) in gp.iter().zip(mp).enumerate() {
                let e = if Some(c) == alpha {
                    E { v: to_f(m.bt, *x), eps: 0.0, loose: false }
                } else {
                    expect(p, m.bt, to_f(m.bt, *x))
                };
                if !fits(m.bt, &e, *g) {
                    return bad(
                        if Some(c) == alpha { "alpha" } else { "sample" },
                        format!("{}: frame {k} channel {c} sample {i}: {} became {}, expected {}", what(), to_f(m.bt, *x), to_f(m.bt, *g), e.v)
                    );
                }
            }
        }
    }
    Ok(())
}

fn params(bt: BitType) -> Vec<P> {
    let m = max_of(bt) as f32;
    let mut v = vec![P::Invert];
    for x in [0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 0.1, -0.3, 1.0 / 255.0, -1.0 / 255.0, 0.999, 2.0, -7.0] {
        v.push(P::Brighten(x));
    }
    for x in [0.0, 10.0, -10.0, 100.0, -100.0, 128.0, 200.0, -200.0, 255.0, -255.0] {
        v.push(P::Contrast(x));
    }
    for e in [1.0, 0.0, 2.0, 0.5, 3.0, 1.3, -1.0] {
        for b in [0.0, 0.1, 0.5, 1.0, -1.0, 2.0] {
            v.push(P::Exposure(e, b));
        }
    }
    for x in [1.0, 0.8, 2.3, 0.5, 2.0, 3.0, 0.1, 10.0] {
        v.push(P::Gamma(x));
    }
    let ts: &[f32] = if bt == BitType::F32 {
        &[0.0, 0.5, 1.0, 0.25, -0.5, 2.0, 0.7]
    } else {
        &[0.0, 1.0, 127.0, 128.0, 200.5, 254.0, 255.0, 256.0, 300.0, -5.0, 40000.0, 65534.0, 65535.0, 70000.0]
    };
    for t in ts {
        v.extend([P::Binary(*t), P::BinaryInv(*t), P::Trunc(*t), P::ToZero(*t)]);
    }
    for (a, b) in [(0.0, 255.0), (0.0, 65535.0), (10.0, 12.0), (10.0, 11.0), (10.0, 10.0), (100.0, 200.0), (0.0, 1.0), (254.0, 255.0), (1.0, 255.0), (50.0, 65535.0), (1000.0, 50000.0), (3.0, 300.0)] {
        v.push(P::Stretch(a, b));
    }
    v.push(P::Stretch(0.0, m));
    v
}

pub fn all_values(bt: BitType) -> Vec<u32> {
    match bt {
        BitType::U8 => (0..256).collect(),
        BitType::U16 => (0..65536).collect(),
        _ => {
            let mut v: Vec<f32> = (0..=512).map(|i| i as f32 / 512.0).collect();
            v.extend((0..100).map(|i| i as f32 / 99.0));
            v.extend([1e-7, 0.9999999, 1.0 / 255.0, 1e-30, 0.7, 0.69999, 0.70001]);
            v.into_iter().map(f32::to_bits).collect()
        }
    }
}

const CS: [ColorSpace; 11] = [
    ColorSpace::RGBA,
    ColorSpace::Luma,
    ColorSpace::RGB,
    ColorSpace::LumaA,
    ColorSpace::ARGB,
    ColorSpace::BGRA,
    ColorSpace::BGR,
    ColorSpace::YCbCr,
    ColorSpace::CMYK,
    ColorSpace::HSV,
    ColorSpace::YCCK
];

fn run_point(ch: &mut Ch, p: P, m: &M) -> Res {
    let mut im = m.image();
    let op = point_op(p);
    let r = op.execute(&mut im);
    if supports(p, m.bt, m.cs) {
        if let Err(e) = r {
            return bad("refused", format!("{p:?} on {}: {e:?}", m.short()));
        }
        verify(p, m, &im)?;
    } else {
        match r {
            // more may be supported one day, but then with the same meaning
            Ok(()) => verify(p, m, &im)?,
            Err(_) => same(&im, m, &format!("{p:?} on {} (failed)", m.short()))?
        }
        ch.trivial();
    }
    ch.state(hash_bytes(format!("{p:?} {:?} {:?}", m.bt, m.cs).as_bytes()));
    obs_image(ch, &im);
    ch.note(|| format!("{p:?} on {}", m.short()));
    Ok(())
}

/// every sample value in every channel, in the same order in all, shifted per channel
fn values(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let p = *ch.pick_ref(&params(bt));
    let all = all_values(bt);
    let css: &[ColorSpace] = if bt == BitType::U16 && !ch.thorough() { &CS[..5] } else { &CS };
    let mut css = css.to_vec();
    css.push(multi(2));
    let cs = ch.pick(&css);
    let n = all.len();
    let w = if bt == BitType::U16 { 256 } else { n };
    let m = M::new(w, n / w, cs, bt, 1, |_, c, i| all[(i + c * 37) % n]);
    run_point(ch, p, &m)
}

/// short images of every width: no position is special
fn positions(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let m = max_of(bt) as f32;
    let p = ch.pick(&[
        P::Invert,
        P::Brighten(0.25),
        P::Contrast(100.0),
        P::Exposure(2.0, 0.1),
        P::Gamma(2.3),
        P::Binary(m / 2.0),
        P::BinaryInv(m / 2.0),
        P::Trunc(m / 2.0),
        P::ToZero(m / 2.0),
        P::Stretch(m / 4.0, m / 2.0)
    ]);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA]);
    let frames = ch.pick(&[1usize, 2, 3]);
    let h = ch.pick(&[1usize, 3]);
    let w = 1 + ch.choose(if ch.thorough() { 140 } else { 70 });
    let top = max_of(bt);
    let m = M::new(w, h, cs, bt, frames, |f, c, i| {
        let t = ((i * 29 + c * 11 + f * 71) % 101) as f64 / 100.0;
        from_f(bt, t * top)
    });
    run_point(ch, p, &m)
}

/// images with more than 255 and more than 65535 samples in a direction or in all
fn large(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&LONG);
    let bt = ch.pick(&DEPTHS);
    let m = max_of(bt) as f32;
    let p = ch.pick(&[
        P::Invert,
        P::Brighten(0.25),
        P::Contrast(100.0),
        P::Exposure(2.0, 0.1),
        P::Gamma(2.3),
        P::Binary(m / 2.0),
        P::BinaryInv(m / 2.0),
        P::Trunc(m / 2.0),
        P::ToZero(m / 2.0),
        P::Stretch(m / 4.0, m / 2.0)
    ]);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma]);
    let m = M::hashed(w, h, cs, bt, 1);
    run_point(ch, p, &m)
}

type Mat = [[f32; 5]; 4];
const ID: Mat = [[1.0, 0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0, 0.0]];

/// hue/saturation/lightness and the colour matrix
fn mixing(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let max = max_of(bt);
    let mats: Vec<Mat> = {
        let mut v = vec![
            ID,
            [[0.2, 0.5, 0.3, 0.0, 0.0], [0.2, 0.5, 0.3, 0.0, 0.0], [0.2, 0.5, 0.3, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0, 0.0]],
            [[-1.0, 0.0, 0.0, 0.0, 1.0], [0.0, -1.0, 0.0, 0.0, 1.0], [0.0, 0.0, -1.0, 0.0, 1.0], [0.0, 0.0, 0.0, 1.0, 0.0]],
            [[0.1, 0.2, 0.3, 0.25, 0.05], [0.4, 0.1, 0.05, 0.125, 0.1], [0.3, 0.6, -0.4, 0.5, -0.1], [0.25, 0.125, 0.5, 0.0625, -0.02]],
            [[2.0, 0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0, -1.0], [1.0, 1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 0.0, 0.0, 0.5]]
        ];
        // one coefficient at a time
        for r in 0..4 {
            for c in 0..5 {
                let mut m = [[0.0; 5]; 4];
                m[r][c] = 0.5;
                v.push(m);
            }
        }
        v
    };
    let hsv = [
        (0.0f32, 1.0f32, 1.0f32),
        (33.0, 1.0, 1.0),
        (0.0, 0.0, 1.0),
        (180.0, 1.0, 1.0),
        (90.0, 2.0, 0.5),
        (360.0, 1.0, 1.0),
        (-45.0, 0.5, 1.5),
        (0.0, 1.0, 0.0),
        (0.0, 1.0, -1.0),
        (120.0, 0.3, 1.2)
    ];
    let k = ch.choose(mats.len() + hsv.len());
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::RGB, ColorSpace::BGRA, ColorSpace::ARGB, ColorSpace::BGR, ColorSpace::Luma, ColorSpace::LumaA]);
    let frames = ch.pick(&[1usize, 2, 3]);
    let g: usize = if ch.thorough() { 9 } else { 6 };
    let pos = |i: usize| -> [usize; 4] { [i % g, i / g % g, i / g / g % g, i / g / g / g % g] };
    let gray = matches!(cs, ColorSpace::Luma | ColorSpace::LumaA);
    let (w, h) = (g * g, g * g);
    // planes: logical r g b a for the position
    let order: &[usize] = match cs {
        ColorSpace::RGBA => &[0, 1, 2, 3],
        ColorSpace::RGB => &[0, 1, 2],
        ColorSpace::BGRA => &[2, 1, 0, 3],
        ColorSpace::ARGB => &[3, 0, 1, 2],
        ColorSpace::BGR => &[2, 1, 0],
        ColorSpace::Luma => &[0],
        _ => &[0, 3]
    };
    let lvl = |t: usize, f: usize| from_f(bt, ((t + f) % g) as f64 / (g - 1) as f64 * max);
    let m = M::new(w, h, cs, bt, frames, |f, c, i| lvl(pos(i)[order[c]], f));
    let mut im = m.image();
    let (what, r) = if k < mats.len() {
        (format!("color matrix {:?} on {}", mats[k], m.short()), ColorMatrix::new(mats[k]).execute(&mut im))
    } else {
        let (a, b, c) = hsv[k - mats.len()];
        (format!("hsv adjust {:?} on {}", hsv[k - mats.len()], m.short()), HsvAdjust::new(a, b, c).execute(&mut im))
    };
    if let Err(e) = r {
        return bad("refused", format!("{what}: {e:?}"));
    }
    if (im.dimensions(), im.colorspace(), im.depth().bit_type(), im.frames_ref().len()) != ((w, h), cs, bt, frames) {
        return bad("shape", format!("{what}: the result is {}", model_of(&im).short()));
    }
    if let Err(e) = valid(&im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    let has_alpha = cs.has_alpha();
    let int = bt != BitType::F32;
    let lim = |v: f64| v.clamp(0.0, max);
    let calc = |rgba: [f64; 4]| -> [f64; 4] {
        let mut o = [0.0; 4];
        if k < mats.len() {
            for (j, row) in mats[k].iter().enumerate() {
                o[j] = (0..4).map(|c| row[c] as f64 * rgba[c]).sum::<f64>() + row[4] as f64 * max;
            }
        } else {
            let (hue, s, v) = hsv[k - mats.len()];
            let (hue, s, v) = (hue as f64, s as f64, v as f64);
            let u = v * s * hue.to_radians().cos();
            let t = v * s * hue.to_radians().sin();
            let [r, g, b, a] = rgba;
            o[0] = (0.299 * v + 0.701 * u + 0.168 * t) * r + (0.587 * v - 0.587 * u + 0.330 * t) * g + (0.114 * v - 0.114 * u - 0.497 * t) * b;
            o[1] = (0.299 * v - 0.299 * u - 0.328 * t) * r + (0.587 * v + 0.413 * u + 0.035 * t) * g + (0.114 * v - 0.114 * u + 0.292 * t) * b;
            o[2] = (0.299 * v - 0.300 * u + 1.25 * t) * r + (0.587 * v - 0.588 * u - 1.05 * t) * g + (0.114 * v + 0.886 * u - 0.203 * t) * b;
            o[3] = a;
            // this one is documented to stay within the range
            for x in &mut o {
                *x = lim(*x);
            }
        }
        o
    };
    let got = model_of(&im);
    let tol = match (bt, gray) {
        (BitType::F32, _) => 2e-5,
        (BitType::U8, false) => 1.02,
        (BitType::U8, true) => 3.0,
        (_, false) => 1.1,
        (_, true) => 3.0
    };
    let mut worst = 0.0f64;
    for f in 0..frames {
        for i in 0..w * h {
            let mut rgba = [0.0; 4];
            for j in 0..3 {
                rgba[j] = to_f(bt, lvl(pos(i)[if gray { 0 } else { j }], f));
            }
            rgba[3] = if has_alpha { to_f(bt, lvl(pos(i)[3], f)) } else { max };
            let mut o = calc(rgba);
            let raw = o;
            if int {
                o = o.map(lim);
            }
            let fin = |o: [f64; 4]| {
                let mut o = o;
                if gray {
                    o[0] = 0.2989 * o[0] + 0.587 * o[1] + 0.114 * o[2];
                }
                o
            };
            let (o, raw_l) = (fin(o), fin(raw.map(lim)));
            for (c, l) in order.iter().enumerate() {
                let gv = to_f(bt, got.f[f][c][i]);
                let e = o[*l];
                let d = (gv - e).abs();
                let d2 = (gv - raw_l[*l]).abs();
                if !(d.min(if int { d } else { d2 }) <= tol) {
                    return bad("sample", format!("{what}: frame {f} channel {c} of colour {rgba:?} is {gv}, expected {e}"));
                }
                worst = worst.max(d);
            }
        }
    }
    ch.state(k as u64 * 64 + order.len() as u64);
    obs_image(ch, &im);
    ch.note(|| what.clone());
    Ok(())
}

/// the public slice functions
fn slices(ch: &mut Ch) -> Res {
    use zune_imageprocs::stretch_contrast as sc;
    let k = ch.choose(4);
    let n = ch.choose(if ch.thorough() { 40 } else { 20 });
    let (lo, hi) = ch.pick(&[(3u32, 200u32), (0, 255), (10, 12), (10, 11), (7, 7), (9, 8)]);
    let x: Vec<u32> = (0..n as u32).map(|i| (i * 13 + 5) & 255).collect();
    let ok;
    let (bt, out): (BitType, Vec<u32>) = match k {
        0 => {
            let mut v: Vec<u8> = x.iter().map(|x| *x as u8).collect();
            ok = sc::stretch_contrast(&mut v, lo as u8, hi as u8, 255).is_ok();
            (BitType::U8, v.into_iter().map(|x| x as u32).collect())
        }
        1 => {
            let mut v: Vec<u16> = x.iter().map(|x| *x as u16).collect();
            ok = sc::stretch_contrast(&mut v, lo as u16, hi as u16, 65535).is_ok();
            (BitType::U16, v.into_iter().map(|x| x as u32).collect())
        }
        2 => {
            let mut v: Vec<f32> = x.iter().map(|x| *x as f32 / 256.0).collect();
            ok = sc::stretch_contrast_f32(&mut v, lo as f32 / 256.0, hi as f32 / 256.0).is_ok();
            (BitType::F32, v.into_iter().map(|x| x.to_bits()).collect())
        }
        _ => {
            let mut v: Vec<f32> = x.iter().map(|x| *x as f32 / 256.0).collect();
            zune_imageprocs::brighten::brighten_f32(&mut v, lo as f32 / 256.0, 1.0);
            for (a, b) in v.iter().zip(&x) {
                let e = ((*b + lo) as f32 / 256.0).clamp(0.0, 1.0);
                if (a - e).abs() > 1e-6 {
                    return bad("brighten", format!("brighten_f32 of {b}/256 by {lo}/256 gives {a}, expected {e}"));
                }
            }
            ch.obs(n as u64);
            return Ok(());
        }
    };
    if ok != (hi >= lo) {
        return bad("range", format!("stretching {lo}..{hi} {}", if ok { "was accepted" } else { "failed" }));
    }
    for (a, b) in out.iter().zip(&x) {
        let f = if bt == BitType::F32 { *b as f64 / 256.0 } else { *b as f64 };
        let s = if bt == BitType::F32 { 256.0 } else { 1.0 };
        let e = if ok { expect(P::Stretch((lo as f64 / s) as f32, (hi as f64 / s) as f32), bt, f) } else { E { v: f, eps: 0.0, loose: false } };
        if !fits(bt, &e, *a) {
            return bad("sample", format!("stretching {lo}..{hi} at {bt:?}: {f} became {}, expected {}", to_f(bt, *a), e.v));
        }
    }
    ch.obs_bytes(&out.iter().map(|x| *x as u8).collect::<Vec<_>>());
    Ok(())
}
