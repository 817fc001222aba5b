//! C37 resizing and affine transforms
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use std::f64::consts::PI;
use zune_core::bit_depth::BitType;
use zune_core::colorspace::{ColorCharacteristics, ColorSpace};
use zune_image::image::Image;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::AffineTransform;
use zune_imageprocs::resize::{ratio_dimensions_larger, ratio_dimensions_smaller, Resize, ResizeMethod};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C37",
        level: "model_checking",
        rule: "every method with every source and target dimension in the bound, at every depth, in linear and gamma encoded images with and without alpha, compared with a separable reference resampler in double precision; constants of every 8-bit value under every transfer function; all black and white images of small dimensions for the range; affine transforms of a grid of matrices compared with a reference, and all pairs of elementary ones composed and inverted; a state is (method, depth, colour space, transfer, source, target)",
        assumptions: &["integer results may be rounded either way", "samples whose interpolated alpha is below 5% are not compared"],
        scenarios: |_| vec![
            Scenario { name: "reference", f: reference },
            Scenario { name: "constants", f: constants },
            Scenario { name: "range", f: range },
            Scenario { name: "shapes", f: shapes },
            Scenario { name: "large", f: large },
            Scenario { name: "affine", f: affine },
            Scenario { name: "affine-algebra", f: algebra },
            Scenario { name: "ratios", f: ratios }
        ]
    }]
}

const METHODS: [ResizeMethod; 9] = [
    ResizeMethod::Lanczos3,
    ResizeMethod::Lanczos2,
    ResizeMethod::Bicubic,
    ResizeMethod::CatmullRom,
    ResizeMethod::Mitchell,
    ResizeMethod::BSpline,
    ResizeMethod::Hermite,
    ResizeMethod::Sinc,
    ResizeMethod::Bilinear
];
const TRC: [Option<ColorCharacteristics>; 12] = [
    Some(ColorCharacteristics::Linear),
    None,
    Some(ColorCharacteristics::sRGB),
    Some(ColorCharacteristics::Rec709),
    Some(ColorCharacteristics::Gamma2p2),
    Some(ColorCharacteristics::Gamma2p8),
    Some(ColorCharacteristics::Smpte428),
    Some(ColorCharacteristics::Log100),
    Some(ColorCharacteristics::Log100Sqrt10),
    Some(ColorCharacteristics::Bt1361),
    Some(ColorCharacteristics::Smpte240),
    Some(ColorCharacteristics::Iec61966)
];

fn mitchell_netravali(x: f64, b: f64, c: f64) -> f64 {
    let x = x.abs();
    if x < 1.0 {
        ((12.0 - 9.0 * b - 6.0 * c) * x.powi(3) + (-18.0 + 12.0 * b + 6.0 * c) * x * x + 6.0 - 2.0 * b) / 6.0
    } else if x < 2.0 {
        ((-b - 6.0 * c) * x.powi(3) + (6.0 * b + 30.0 * c) * x * x + (-12.0 * b - 48.0 * c) * x + 8.0 * b + 24.0 * c) / 6.0
    } else {
        0.0
    }
}
fn sinc(x: f64) -> f64 {
    if x.abs() < 1e-9 {
        1.0
    } else {
        (PI * x).sin() / (PI * x)
    }
}
fn kernel(m: ResizeMethod, x: f64) -> f64 {
    use ResizeMethod::*;
    match m {
        Lanczos3 if x.abs() < 3.0 => sinc(x) * sinc(x / 3.0),
        Lanczos2 if x.abs() < 2.0 => sinc(x) * sinc(x / 2.0),
        Sinc if x.abs() < 3.0 => sinc(x),
        Lanczos3 | Lanczos2 | Sinc => 0.0,
        Bicubic | Mitchell => mitchell_netravali(x, 1.0 / 3.0, 1.0 / 3.0),
        CatmullRom => mitchell_netravali(x, 0.0, 0.5),
        BSpline => mitchell_netravali(x, 1.0, 0.0),
        Hermite => mitchell_netravali(x, 0.0, 0.0),
        Bilinear => (1.0 - x.abs()).max(0.0)
    }
}

/// the weights of the source samples for every target position
fn weights(m: ResizeMethod, n: usize, out: usize) -> Vec<Vec<f64>> {
    (0..out)
        .map(|o| {
            let mut w = vec![0.0; n];
            if n == out {
                w[o] = 1.0;
            } else if m == ResizeMethod::Bilinear {
                // anchored at the first sample
                let p = o as f64 * n as f64 / out as f64;
                let i = (p.floor() as usize).min(n - 1);
                let a = p - i as f64;
                w[i] += 1.0 - a;
                w[(i + 1).min(n - 1)] += a;
            } else {
                // anchored at the centers
                let p = (o as f64 + 0.5) * n as f64 / out as f64 - 0.5;
                for (i, w) in w.iter_mut().enumerate() {
                    *w = kernel(m, i as f64 - p);
                }
                let s: f64 = w.iter().sum();
                w.iter_mut().for_each(|w| *w /= s);
            }
            w
        })
        .collect()
}

fn resample(m: ResizeMethod, p: &[f64], w: usize, h: usize, ow: usize, oh: usize) -> Vec<f64> {
    let (wx, wy) = (weights(m, w, ow), weights(m, h, oh));
    let mut mid = vec![0.0; ow * h];
    for y in 0..h {
        for x in 0..ow {
            mid[y * ow + x] = (0..w).map(|i| wx[x][i] * p[y * w + i]).sum();
        }
    }
    let mut out = vec![0.0; ow * oh];
    for y in 0..oh {
        for x in 0..ow {
            out[y * ow + x] = (0..h).map(|i| wy[y][i] * mid[i * ow + x]).sum();
        }
    }
    out
}

fn srgb_linear(v: f64) -> f64 {
    if v < 0.04045 {
        v.max(0.0) / 12.92
    } else {
        ((v.min(1.0) + 0.055) / 1.055).powf(2.4)
    }
}
fn srgb_gamma(v: f64) -> f64 {
    if v < 0.0031308 {
        v.max(0.0) * 12.92
    } else {
        1.055 * v.min(1.0).powf(1.0 / 2.4) - 0.055
    }
}

/// the expected samples (0 to 1) of a frame; None: not compared
fn expected(m: ResizeMethod, im: &M, ow: usize, oh: usize, gamma: bool, frame: usize) -> Vec<Vec<Option<f64>>> {
    let max = max_of(im.bt);
    let alpha = im.cs.alpha_position();
    let norm: Vec<Vec<f64>> = im.f[frame].iter().map(|p| p.iter().map(|v| to_f(im.bt, *v) / max).collect()).collect();
    let al = alpha.map(|a| (norm[a].clone(), resample(m, &norm[a], im.w, im.h, ow, oh)));
    norm.iter()
        .enumerate()
        .map(|(c, p)| {
            if Some(c) == alpha {
                return al.as_ref().unwrap().1.iter().map(|v| Some(*v)).collect();
            }
            let mut q: Vec<f64> = if gamma { p.iter().map(|v| srgb_linear(*v)).collect() } else { p.clone() };
            if let Some((a, _)) = &al {
                q.iter_mut().zip(a).for_each(|(v, a)| *v *= a);
            }
            let out = resample(m, &q, im.w, im.h, ow, oh);
            out.iter()
                .enumerate()
                .map(|(i, v)| {
                    let mut v = *v;
                    if let Some((_, a)) = &al {
                        if a[i] < 0.05 {
                            return None;
                        }
                        v /= a[i];
                    }
                    Some(if gamma { srgb_gamma(v) } else { v })
                })
                .collect()
        })
        .collect()
}

fn resized(im: &mut Image, w: usize, h: usize, m: ResizeMethod, what: &str) -> Res {
    match Resize::new(w, h, m).execute(im) {
        Ok(()) => Ok(()),
        Err(e) => bad("refused", format!("{what}: {e:?}"))
    }
}

fn shape(im: &Image, m: &M, ow: usize, oh: usize, what: &str) -> Res {
    let g = (im.dimensions(), im.colorspace(), im.depth().bit_type(), im.frames_ref().len());
    if g != ((ow, oh), m.cs, m.bt, m.f.len()) {
        return bad("shape", format!("{what}: the result is {g:?}"));
    }
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    Ok(())
}

/// samples that vary in both directions, alpha between a half and one
fn bumpy(w: usize, h: usize, cs: ColorSpace, bt: BitType, frames: usize) -> M {
    let al = cs.alpha_position();
    let max = max_of(bt);
    M::new(w, h, cs, bt, frames, |k, c, i| {
        let r = ((i * 7919 + c * 104729 + k * 31 + (i / w) * 13) % 97) as f64 / 96.0;
        let v = if al == Some(c) { 0.5 + r / 2.0 } else { r };
        from_f(bt, (v * max).round_if(bt))
    })
}
trait RoundIf {
    fn round_if(self, b: BitType) -> f64;
}
impl RoundIf for f64 {
    fn round_if(self, b: BitType) -> f64 {
        if b == BitType::F32 {
            self
        } else {
            self.round()
        }
    }
}

fn against_reference(ch: &mut Ch, m: ResizeMethod, src: &M, ow: usize, oh: usize, gamma: bool, flag: bool) -> Res {
    let what = format!("{m:?} of {} to {ow}x{oh}, {}", src.short(), if gamma { "gamma encoded" } else { "linear" });
    let mut im = src.image();
    if !gamma {
        if flag {
            im.metadata_mut().set_linear(true);
        } else {
            im.metadata_mut().set_color_trc(ColorCharacteristics::Linear);
        }
    }
    resized(&mut im, ow, oh, m, &what)?;
    shape(&im, src, ow, oh, &what)?;
    let max = max_of(src.bt);
    let exp: Vec<_> = (0..src.f.len()).map(|k| expected(m, src, ow, oh, gamma, k)).collect();
    let tol = match src.bt {
        BitType::U8 => 1.01,
        BitType::U16 => 12.0,
        _ => 2e-4
    };
    near(&im, &what, tol, |k, c, i| exp[k][c][i].map(|v| if src.bt == BitType::F32 { v } else { (v * max).clamp(0.0, max) }))?;
    ch.state(hash_bytes(format!("{m:?} {:?} {:?} {gamma} {} {} {ow} {oh}", src.bt, src.cs, src.w, src.h).as_bytes()));
    obs_image(ch, &im);
    ch.note(|| what);
    Ok(())
}

fn reference(ch: &mut Ch) -> Res {
    let m = ch.pick(&METHODS);
    let bt = ch.pick(&[BitType::F32, BitType::U8, BitType::U16]);
    let gamma = ch.flag();
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::ARGB]);
    let top = if ch.thorough() { 7 } else { 4 };
    let big = cs == ColorSpace::Luma && ch.flag();
    let (w, h, ow, oh) = if big {
        // one direction at a time, larger
        let sizes: &[usize] = if ch.thorough() { &[1, 2, 5, 8, 13, 16, 17, 31, 64] } else { &[1, 5, 13, 16, 64] };
        let (a, b) = (ch.pick(sizes), ch.pick(sizes));
        let (c, d) = ch.pick(&[(1, 1), (3, 3), (3, 2), (2, 5)]);
        if ch.flag() {
            (a, c, b, d)
        } else {
            (c, a, d, b)
        }
    } else {
        let outs: &[usize] = if ch.thorough() { &[1, 2, 3, 4, 5, 6, 7, 8] } else { &[1, 2, 3, 5] };
        (ch.choose(top) + 1, ch.choose(top - 1) + 1, ch.pick(outs), ch.pick(outs))
    };
    let flag = w % 2 == 1;
    against_reference(ch, m, &bumpy(w, h, cs, bt, 1), ow, oh, gamma, flag)
}

/// more than 255 and more than 65535 samples in a direction, before or after
fn large(ch: &mut Ch) -> Res {
    let m = ch.pick(&METHODS);
    let bt = ch.pick(&DEPTHS);
    let (a, b) = ch.pick(&[(300usize, 5usize), (5, 300), (260, 520), (700, 260)]);
    let c = ch.pick(&[1usize, 2]);
    let (w, h, ow, oh) = if ch.flag() { (a, c, b, c) } else { (c, a, c, b) };
    against_reference(ch, m, &bumpy(w, h, ColorSpace::Luma, bt, 1), ow, oh, false, false)
}

fn constants(ch: &mut Ch) -> Res {
    let m = ch.pick(&METHODS);
    let trc = ch.pick(&TRC);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::LumaA, ColorSpace::CMYK]);
    let (w, h, ow, oh) = ch.pick(&[(3, 2, 5, 3), (7, 6, 2, 5), (1, 1, 4, 4), (9, 9, 1, 1), (4, 3, 4, 6)]);
    // every 8-bit value where the whole range matters, a grid that includes the dark end elsewhere
    let dense = (cs == ColorSpace::RGB && (m == ResizeMethod::Lanczos3 || m == ResizeMethod::Bilinear) && w < 5 && ow > 4) || ch.thorough();
    let all: Vec<u32> = match bt {
        BitType::U8 if dense => (0..256).collect(),
        BitType::U8 => vec![0, 1, 2, 5, 10, 20, 60, 128, 254, 255],
        BitType::U16 if dense => (0..256).map(|i| i * 257).collect(),
        BitType::U16 => vec![0, 1, 7, 100, 500, 3000, 40000, 65535],
        _ => (0..=8).map(|i| (i as f32 / 8.0).to_bits()).collect()
    };
    let what = format!("{m:?} {w}x{h} to {ow}x{oh}, {cs:?} {bt:?} {trc:?}");
    let max = max_of(bt);
    // the values share the frames
    let n = cs.num_components();
    let al = cs.alpha_position();
    let frames = all.len();
    let value = |k: usize, c: usize| if al == Some(c) { from_f(bt, (max * 0.75).round_if(bt)) } else { all[(k + c * (all.len() / n)) % all.len()] };
    let src = M::new(w, h, cs, bt, frames, |k, c, _| value(k, c));
    let mut im = src.image();
    if let Some(t) = trc {
        im.metadata_mut().set_color_trc(t);
    }
    resized(&mut im, ow, oh, m, &what)?;
    shape(&im, &src, ow, oh, &what)?;
    let tol = match bt {
        BitType::U8 => 0.0,
        BitType::U16 => 2.0,
        _ => 1e-4
    };
    near(&im, &what, tol, |k, c, _| Some(to_f(bt, value(k, c))))?;
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &im);
    ch.note(|| what);
    Ok(())
}

/// all images of two values: non-negative kernels stay between them
fn range(ch: &mut Ch) -> Res {
    let m = ch.pick(&[ResizeMethod::Bilinear, ResizeMethod::BSpline, ResizeMethod::Hermite]);
    let deep = ch.thorough();
    let bt = ch.pick(if deep { &DEPTHS[..] } else { &[BitType::U8, BitType::F32] });
    let gamma = ch.flag();
    let (lo, hi) = ch.pick(&[(0.0, 1.0), (0.2, 0.4), (1.0, 0.6)]);
    let (w, h) = ch.pick(&[(3, 2), (1, 5), (6, 1), (2, 2)]);
    let outs: &[usize] = if deep { &[1, 2, 3, 4, 5, 7] } else { &[1, 2, 5] };
    let (ow, oh) = (ch.pick(outs), ch.pick(outs));
    let n = w * h;
    let max = max_of(bt);
    let v = [lo, hi].map(|x| from_f(bt, (x * max).round_if(bt)));
    // every pattern is a frame
    let src = M::new(w, h, ColorSpace::Luma, bt, 1 << n, |k, _, i| v[k >> i & 1]);
    let what = format!("{m:?} {w}x{h} to {ow}x{oh} {bt:?}, values {lo} and {hi}, gamma {gamma}");
    let mut im = src.image();
    if !gamma {
        im.metadata_mut().set_color_trc(ColorCharacteristics::Linear);
    }
    resized(&mut im, ow, oh, m, &what)?;
    shape(&im, &src, ow, oh, &what)?;
    let eps = match bt {
        BitType::U8 => 0.0,
        BitType::U16 => 2.0,
        _ => 1e-4
    };
    let f: Vec<Vec<Vec<u32>>> = model_of(&im).f;
    for (k, p) in f.iter().enumerate() {
        let s: Vec<f64> = src.f[k][0].iter().map(|x| to_f(bt, *x)).collect();
        let (a, b) = s.iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(*x), b.max(*x)));
        for (i, x) in p[0].iter().enumerate() {
            let x = to_f(bt, *x);
            if !(x >= a - eps && x <= b + eps) {
                return bad("range", format!("{what}: pattern {k:b} gives {x} at ({},{}), outside {a}..{b}", i % ow, i / ow));
            }
        }
    }
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &im);
    ch.note(|| what);
    Ok(())
}

fn shapes(ch: &mut Ch) -> Res {
    let m = ch.pick(&METHODS);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::RGB, ColorSpace::BGRA, ColorSpace::YCbCr, ColorSpace::CMYK, ColorSpace::HSV]);
    let kind = ch.pick(&["frames", "same", "zero", "premultiplied", "repeat"]);
    let trcs: &[_] = if ch.thorough() || kind == "same" { &TRC } else { &TRC[..3] };
    let trc = ch.pick(trcs);
    let (w, h) = ch.pick(&[(5, 4), (1, 3), (33, 2)]);
    let what = format!("{kind}: {m:?} of {w}x{h} {cs:?} {bt:?} {trc:?}");
    let src = if kind == "same" { M::unique(w, h, cs, bt, 2) } else { bumpy(w, h, cs, bt, if kind == "frames" { 3 } else { 1 }) };
    let mut im = src.image();
    if let Some(t) = trc {
        im.metadata_mut().set_color_trc(t);
    }
    let mut state = AlphaState::NonPreMultiplied;
    match kind {
        "frames" => {
            if !matches!(trc, None | Some(ColorCharacteristics::Linear)) {
                ch.discard();
                return Ok(());
            }
            return against_reference(ch, m, &src, w + 2, h + 1, trc.is_none(), false);
        }
        "same" => {
            resized(&mut im, w, h, m, &what)?;
            same(&im, &src, &what)?;
        }
        "zero" => {
            let (a, b) = ch.pick(&[(0, 0), (0, 3), (3, 0)]);
            if Resize::new(a, b, m).execute(&mut im).is_ok() {
                return bad("accepted", format!("{what}: resizing to {a}x{b} succeeds"));
            }
            same(&im, &src, &what)?;
        }
        "premultiplied" => {
            state = AlphaState::PreMultiplied;
            im.metadata_mut().set_alpha(state);
            resized(&mut im, 3, 2, m, &what)?;
            shape(&im, &src, 3, 2, &what)?;
        }
        _ => {
            // the same operation on a clone, and again through the copying interface
            let mut other = im.clone();
            resized(&mut im, 3, 7, m, &what)?;
            resized(&mut other, 3, 7, m, &what)?;
            same(&other, &model_of(&im), &what)?;
            let c = match Resize::new(3, 7, m).clone_and_execute(&src_with(&src, trc)) {
                Ok(c) => c,
                Err(e) => return bad("refused", format!("{what}: {e:?}"))
            };
            same(&c, &model_of(&im), &what)?;
            shape(&im, &src, 3, 7, &what)?;
        }
    }
    if im.metadata().alpha() != state || im.metadata().is_linear() || im.metadata().color_trc() != trc {
        return bad("metadata", format!("{what}: alpha state, linearity or transfer function changed"));
    }
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &im);
    ch.note(|| what);
    Ok(())
}
fn src_with(m: &M, trc: Option<ColorCharacteristics>) -> Image {
    let mut im = m.image();
    if let Some(t) = trc {
        im.metadata_mut().set_color_trc(t);
    }
    im
}

/// bilinear interpolation at the source position of every target sample, the brightest value outside
fn affine(ch: &mut Ch) -> Res {
    let vals: &[f32] = if ch.thorough() { &[0.0, 1.0, -1.0, 0.5, 2.0, 1.5, -0.75] } else { &[0.0, 1.0, -1.0, 0.5, 2.0] };
    let (a, b, c, d) = (ch.pick(vals), ch.pick(vals), ch.pick(vals), ch.pick(vals));
    let (tx, ty) = ch.pick(&[(0.0f32, 0.0f32), (1.0, -2.0), (0.25, 3.5)]);
    let bt = ch.pick(&DEPTHS);
    let (w, h) = ch.pick(&[(4, 3), (1, 1), (1, 5), (6, 2)]);
    let cs = if w == 4 { ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma]) } else { ColorSpace::RGB };
    let src = M::unique(w, h, cs, bt, 1);
    let what = format!("affine [{a} {b} {tx}; {c} {d} {ty}] of {}", src.short());
    let mut im = src.image();
    let r = AffineTransform::new(a, b, c, d, tx, ty).execute(&mut im);
    let (fa, fb, fc, fd) = (a as f64, b as f64, c as f64, d as f64);
    let det = fa * fd - fb * fc;
    if det == 0.0 {
        if r.is_ok() {
            return bad("accepted", format!("{what} succeeds"));
        }
        same(&im, &src, &what)?;
        ch.trivial();
        return Ok(());
    }
    if let Err(e) = r {
        return bad("refused", format!("{what}: {e:?}"));
    }
    let corner = |x: usize, y: usize| (fa * x as f64 + fb * y as f64, fc * x as f64 + fd * y as f64);
    let cs4 = [corner(0, 0), corner(w, 0), corner(0, h), corner(w, h)];
    let lim = |f: &dyn Fn(&(f64, f64)) -> f64| cs4.iter().map(f).fold((f64::MAX, f64::MIN), |(l, u), v| (l.min(v), u.max(v)));
    let ((x0, x1), (y0, y1)) = (lim(&|p| p.0), lim(&|p| p.1));
    let (ow, oh) = ((x1 - x0).ceil() as usize, (y1 - y0).ceil() as usize);
    shape(&im, &src, ow, oh, &what)?;
    let max = max_of(bt);
    let tol = if bt == BitType::F32 { 1e-4 } else { 1.01 };
    near(&im, &what, tol, |k, ch, i| {
        let (x, y) = ((i % ow) as f64 + x0, (i / ow) as f64 + y0);
        let (sx, sy) = ((fd * x - fb * y) / det, (fa * y - fc * x) / det);
        // exactly on the border the arithmetic may fall on either side
        let border = |v: f64, n: usize| v.abs() < 1e-4 || (v - (n - 1) as f64).abs() < 1e-4;
        let exact = [a, b, c, d].iter().all(|v| v.fract() == 0.0 || *v == 0.5) && det.abs().log2().fract() == 0.0 && tx == 0.0;
        if !exact && (border(sx, w) || border(sy, h)) {
            return None;
        }
        if sx < 0.0 || sy < 0.0 || sx > (w - 1) as f64 || sy > (h - 1) as f64 {
            return Some(max);
        }
        let (ix, iy) = (sx.floor() as usize, sy.floor() as usize);
        let (fx, fy) = (sx - ix as f64, sy - iy as f64);
        let at = |x: usize, y: usize| to_f(bt, src.f[k][ch][y.min(h - 1) * w + x.min(w - 1)]);
        Some(at(ix, iy) * (1.0 - fx) * (1.0 - fy) + at(ix + 1, iy) * fx * (1.0 - fy) + at(ix, iy + 1) * (1.0 - fx) * fy + at(ix + 1, iy + 1) * fx * fy)
    })?;
    if (a, b, c, d) == (1.0, 0.0, 0.0, 1.0) && tx == 0.0 {
        same(&im, &src, &format!("{what} (identity)"))?;
    }
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &im);
    ch.note(|| what);
    Ok(())
}

/// the elementary transforms, what they compose to and their inverses, as maps of points
fn algebra(ch: &mut Ch) -> Res {
    // (transform, exact matrix)
    fn one(ch: &mut Ch) -> (AffineTransform, [f64; 6], String) {
        let v = if ch.thorough() { &[0.0f32, 1.0, -1.0, 0.5, 2.0, -3.25][..] } else { &[0.0f32, 1.0, -0.5, 2.0][..] };
        match ch.choose(6) {
            0 => (AffineTransform::identity(), [1.0, 0.0, 0.0, 1.0, 0.0, 0.0], "identity".into()),
            1 => {
                let a = ch.pick(if ch.thorough() { &[0.0f32, 30.0, 45.0, 90.0, 180.0, 270.0, -90.0, 359.0, 725.0][..] } else { &[0.0f32, 30.0, 90.0, 180.0, -90.0][..] });
                let (s, c) = (a as f64 * PI / 180.0).sin_cos();
                (AffineTransform::rotation(a), [c, -s, s, c, 0.0, 0.0], format!("rotation {a}"))
            }
            2 => {
                let (x, y) = (ch.pick(v), ch.pick(v));
                (AffineTransform::translation(x, y), [1.0, 0.0, 0.0, 1.0, x as f64, y as f64], format!("translation {x} {y}"))
            }
            3 => {
                let (x, y) = (ch.pick(v), ch.pick(v));
                (AffineTransform::scale(x, y), [x as f64, 0.0, 0.0, y as f64, 0.0, 0.0], format!("scale {x} {y}"))
            }
            4 => {
                let (x, y) = (ch.pick(v), ch.pick(v));
                (AffineTransform::shear(x, y), [1.0, x as f64, y as f64, 1.0, 0.0, 0.0], format!("shear {x} {y}"))
            }
            _ => {
                let m: [f32; 6] = *ch.pick_ref(&[[1.0, 2.0, 3.0, 4.0, 5.0, 6.0], [0.5, -1.0, 2.0, 0.25, -7.0, 1.5], [2.0, 4.0, 1.0, 2.0, 1.0, 1.0]]);
                (AffineTransform::new(m[0], m[1], m[2], m[3], m[4], m[5]), m.map(|x| x as f64), format!("{m:?}"))
            }
        }
    }
    fn map(m: &[f64; 6], p: (f64, f64)) -> (f64, f64) {
        (m[0] * p.0 + m[1] * p.1 + m[4], m[2] * p.0 + m[3] * p.1 + m[5])
    }
    let (t, m, n) = one(ch);
    let (u, k, l) = one(ch);
    let what = format!("{n}, {l}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let points = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (3.0, -2.0), (0.5, 7.25)];
    let close = |g: (f32, f32), e: (f64, f64)| (g.0 as f64 - e.0).abs() < 1e-4 * (1.0 + e.0.abs()) && (g.1 as f64 - e.1).abs() < 1e-4 * (1.0 + e.1.abs());
    for p in points {
        let q = (p.0 as f32, p.1 as f32);
        let g = t.transform_point(q.0, q.1);
        if !close(g, map(&m, p)) {
            return bad("algebra:point", format!("{n} takes {p:?} to {g:?}, expected {:?}", map(&m, p)));
        }
        // the product of the matrices
        let g = t.then(&u).transform_point(q.0, q.1);
        let e = map(&m, map(&k, p));
        if !close(g, e) {
            return bad("algebra:compose", format!("{what} composed take {p:?} to {g:?}, expected {e:?}"));
        }
    }
    let det = m[0] * m[3] - m[1] * m[2];
    match t.inverse() {
        None if det.abs() < 1e-6 => Ok(()),
        Some(i) if det.abs() > 1e-6 => {
            for p in points {
                let q = map(&m, p);
                let g = i.transform_point(q.0 as f32, q.1 as f32);
                if !close(g, p) {
                    return bad("algebra:inverse", format!("the inverse of {n} takes {q:?} to {g:?}, expected {p:?}"));
                }
            }
            Ok(())
        }
        i => bad("algebra:inverse", format!("{n} with determinant {det}: the inverse exists: {}", i.is_some()))
    }
}

fn ratios(ch: &mut Ch) -> Res {
    let top = if ch.thorough() { 24 } else { 10 };
    let (w, h, nw, nh) = (ch.choose(top) + 1, ch.choose(top) + 1, ch.choose(top) + 1, ch.choose(top) + 1);
    let (rx, ry) = (nw as f64 / w as f64, nh as f64 / h as f64);
    for (name, got, r) in [
        ("smaller", ratio_dimensions_smaller(w, h, nw, nh), rx.min(ry)),
        ("larger", ratio_dimensions_larger(w, h, nw, nh), rx.max(ry))
    ] {
        let e = (w as f64 * r, h as f64 * r);
        let ok = |g: usize, e: f64| (g as f64) > e - 1.0 - 1e-9 && (g as f64) < e + 1.0;
        if !ok(got.0, e.0) || !ok(got.1, e.1) {
            return bad("ratio", format!("{name} ratio dimensions of {w}x{h} for {nw}x{nh} are {got:?}, expected {e:?}"));
        }
        ch.obs((got.0 * 1000 + got.1) as u64);
    }
    ch.state((((w * 100 + h) * 100 + nw) * 100 + nh) as u64);
    ch.note(|| format!("{w}x{h} for {nw}x{nh}"));
    Ok(())
}
