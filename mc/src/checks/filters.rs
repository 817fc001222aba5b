//! C35 neighbourhood filters
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::median::Median;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::unsharpen::Unsharpen;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C35",
        level: "model_checking",
        rule: "every filter with every radius in the bound over every tiny image on a two-level alphabet (three levels when thorough), every image size in the bound with distinct samples, every kernel coefficient, constant images and windows far larger than the image, at every supported depth, compared pixel by pixel with the definition over replicated borders; a state is (filter, depth, width, height)",
        assumptions: &[
            "the Gaussian blur is documented as approximate, so its weights are not fixed: only symmetry, range, constants and agreement of the depths are required",
            "integer results may be rounded either way"
        ],
        scenarios: |_| vec![
            Scenario { name: "tiny", f: tiny },
            Scenario { name: "sizes", f: sizes },
            Scenario { name: "channels", f: channels },
            Scenario { name: "constant", f: constant },
            Scenario { name: "kernels", f: kernels },
            Scenario { name: "windows", f: windows },
            Scenario { name: "lines", f: lines },
            Scenario { name: "large", f: large },
            Scenario { name: "gaussian", f: gaussian },
            Scenario { name: "unsharpen", f: unsharpen },
            Scenario { name: "padding", f: padding }
        ]
    }]
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Sobel,
    Scharr,
    Convolve(Vec<f32>, f32),
    Box(usize),
    Median(usize),
    Max(usize),
    Min(usize),
    Mean(usize),
    Gradient(usize),
    Contrast(usize),
    Bilateral(i32, f32, f32)
}

pub fn filter_op(k: &K) -> Box<dyn OperationsTrait> {
    let s = |r: &usize, o| Box::new(SpatialOps::new(*r, o));
    match k {
        K::Sobel => Box::new(Sobel::new()),
        K::Scharr => Box::new(Scharr::new()),
        K::Convolve(w, s) => Box::new(Convolve::new(w.clone(), *s)),
        K::Box(r) => Box::new(BoxBlur::new(*r)),
        K::Median(r) => Box::new(Median::new(*r)),
        K::Max(r) => s(r, SpatialOperations::Maximum),
        K::Min(r) => s(r, SpatialOperations::Minimum),
        K::Mean(r) => s(r, SpatialOperations::Mean),
        K::Gradient(r) => s(r, SpatialOperations::Gradient),
        K::Contrast(r) => s(r, SpatialOperations::Contrast),
        K::Bilateral(d, c, sp) => Box::new(BilateralFilter::new(*d, *c, *sp))
    }
}
fn floats(k: &K) -> bool {
    matches!(k, K::Sobel | K::Scharr | K::Convolve(..) | K::Box(_))
}
fn keeps_alpha(k: &K) -> bool {
    !matches!(k, K::Box(_))
}

/// the box blur mean of one line
fn box_line(p: &[f64], r: usize) -> Vec<f64> {
    let n = p.len();
    let mut d = (2 * r + 1).min(n);
    if d % 2 == 0 {
        d -= 1;
    }
    let r = (d / 2) as isize;
    (0..n as isize)
        .map(|x| (x - r..=x + r).map(|i| p[i.clamp(0, n as isize - 1) as usize]).sum::<f64>() / d as f64)
        .collect()
}

/// the range every output sample has to lie in
fn reference(k: &K, bt: BitType, p: &[f64], w: usize, h: usize) -> Vec<(f64, f64)> {
    let max = max_of(bt);
    let int = bt != BitType::F32;
    let win = |x: usize, y: usize, r: usize| -> Vec<f64> {
        let r = r as isize;
        let mut v = Vec::with_capacity(((2 * r + 1) * (2 * r + 1)) as usize);
        for j in -r..=r {
            for i in -r..=r {
                let xx = (x as isize + i).clamp(0, w as isize - 1) as usize;
                let yy = (y as isize + j).clamp(0, h as isize - 1) as usize;
                v.push(p[yy * w + xx]);
            }
        }
        v
    };
    // the range of a real result: rounded either way, and float results beyond the range kept or clamped
    let rnd = |v: f64, eps: f64| -> (f64, f64) {
        if int {
            let c = v.clamp(0.0, max);
            ((c - eps).floor(), (c + eps).ceil())
        } else {
            let c = v.clamp(0.0, max);
            let e = 1e-5 * (1.0 + v.abs());
            (v.min(c) - e, v.max(c) + e)
        }
    };
    let all = |f: &dyn Fn(usize, usize) -> (f64, f64)| -> Vec<(f64, f64)> { (0..w * h).map(|i| f(i % w, i / w)).collect() };
    let grad = |a: f64, b: f64, x: usize, y: usize| -> (f64, f64) {
        let c = win(x, y, 1);
        let gx = a * (c[2] - c[0]) + b * (c[5] - c[3]) + a * (c[8] - c[6]);
        let gy = a * (c[6] - c[0]) + b * (c[7] - c[1]) + a * (c[8] - c[2]);
        rnd((gx * gx + gy * gy).sqrt(), max * 1e-6)
    };
    let minmax = |v: &[f64]| v.iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(*x), b.max(*x)));
    match k {
        K::Sobel => all(&|x, y| grad(1.0, 2.0, x, y)),
        K::Scharr => all(&|x, y| grad(3.0, 10.0, x, y)),
        K::Convolve(wt, s) => {
            let r = match wt.len() {
                9 => 1,
                25 => 2,
                _ => 3
            };
            all(&|x, y| {
                let v = win(x, y, r);
                let mag: f64 = v.iter().zip(wt).map(|(a, b)| (a * *b as f64).abs()).sum::<f64>() * s.abs() as f64;
                rnd(v.iter().zip(wt).map(|(a, b)| a * *b as f64).sum::<f64>() * *s as f64, mag * 1e-5)
            })
        }
        K::Box(r) => {
            let r = match r {
                0 | 1 => return p.iter().map(|v| (*v, *v)).collect(),
                r => r | 1
            };
            let mut t = vec![0.0; w * h];
            for y in 0..h {
                for (x, v) in box_line(&p[y * w..(y + 1) * w], r).into_iter().enumerate() {
                    t[y * w + x] = v;
                }
            }
            let mut o = vec![0.0; w * h];
            for x in 0..w {
                let col: Vec<f64> = (0..h).map(|y| t[y * w + x]).collect();
                for (y, v) in box_line(&col, r).into_iter().enumerate() {
                    o[y * w + x] = v;
                }
            }
            // two integer divisions
            o.into_iter().map(|v| if int { ((v - 2.0).ceil(), (v + 1.0).floor()) } else { (v - 2e-5, v + 2e-5) }).collect()
        }
        K::Median(r) => all(&|x, y| {
            let mut v = win(x, y, *r);
            v.sort_by(f64::total_cmp);
            (v[v.len() / 2], v[v.len() / 2])
        }),
        K::Max(r) => all(&|x, y| {
            let m = minmax(&win(x, y, *r)).1;
            (m, m)
        }),
        K::Min(r) => all(&|x, y| {
            let m = minmax(&win(x, y, *r)).0;
            (m, m)
        }),
        K::Gradient(r) => all(&|x, y| {
            let (a, b) = minmax(&win(x, y, *r));
            (b - a, b - a)
        }),
        K::Contrast(r) => all(&|x, y| {
            let (a, b) = minmax(&win(x, y, *r));
            if a + b == 0.0 {
                (0.0, 0.0)
            } else {
                // with whole numbers the quotient is 0 or 1
                let q = (b - a) / (a + b);
                (0.0, if q > 0.0 { 1.0 } else { 0.0 })
            }
        }),
        K::Mean(r) => all(&|x, y| {
            let v = win(x, y, *r);
            rnd(v.iter().sum::<f64>() / v.len() as f64, 0.0)
        }),
        K::Bilateral(d, sc, ss) => {
            let ss = if *ss <= 0.0 { 1.0 } else { *ss as f64 };
            let sc = if *sc <= 0.0 { 1.0 } else { *sc as f64 };
            let r = if *d <= 0 { (ss * 1.5).round() as usize } else { (*d / 2) as usize };
            all(&|x, y| {
                let v = win(x, y, r);
                let n = 2 * r + 1;
                let mid = v[v.len() / 2];
                let (mut s, mut ws) = (0.0, 0.0);
                for (i, c) in v.iter().enumerate() {
                    let dx = (i % n) as f64 - r as f64;
                    let dy = (i / n) as f64 - r as f64;
                    let q = dx * dx + dy * dy;
                    if q > (r * r) as f64 {
                        continue;
                    }
                    let wt = (-q / (2.0 * ss * ss)).exp() * (-(c - mid) * (c - mid) / (2.0 * sc * sc)).exp();
                    s += wt * c;
                    ws += wt;
                }
                rnd(s / ws, 1e-3)
            })
        }
    }
}

fn run(ch: &mut Ch, k: &K, m: &M) -> Res {
    let mut im = m.image();
    let what = || format!("{k:?} on {}", m.short());
    if let Err(e) = filter_op(k).execute(&mut im) {
        return bad("refused", format!("{}: {e:?}", what()));
    }
    let got = model_of(&im);
    if (got.w, got.h, got.cs, got.bt, got.f.len()) != (m.w, m.h, m.cs, m.bt, m.f.len()) {
        return bad("shape", format!("{}: the result is {}", what(), got.short()));
    }
    if let Err(e) = valid(&im) {
        return bad("invalid", format!("{}: {e}", what()));
    }
    let alpha = if keeps_alpha(k) { m.cs.alpha_position() } else { None };
    for (f, (gf, mf)) in got.f.iter().zip(&m.f).enumerate() {
        for (c, (gp, mp)) in gf.iter().zip(mf).enumerate() {
            if Some(c) == alpha {
                if gp != mp {
                    return bad("alpha", format!("{}: frame {f}: the alpha channel changed", what()));
                }
                continue;
            }
            let p: Vec<f64> = mp.iter().map(|v| to_f(m.bt, *v)).collect();
            for (i, ((lo, hi), g)) in reference(k, m.bt, &p, m.w, m.h).into_iter().zip(gp).enumerate() {
                let g = to_f(m.bt, *g);
                if !(g >= lo && g <= hi) {
                    let name = format!("{k:?}");
                    let name = name.split('(').next().unwrap();
                    return bad(
                        format!("{name}"),
                        format!("{}: frame {f} channel {c} at ({},{}) is {g}, expected {lo}..={hi}; input {:?}", what(), i % m.w, i / m.w, &p[..p.len().min(30)])
                    );
                }
            }
        }
    }
    ch.state(hash_bytes(format!("{k:?} {:?} {}x{}", m.bt, m.w, m.h).as_bytes()));
    obs_image(ch, &im);
    ch.note(what);
    Ok(())
}

fn wts(n: usize) -> Vec<f32> {
    (0..n).map(|i| [0.25, -0.5, 0.75, 1.0, -0.125, 0.5, 0.375, -1.0, 0.625][(i * 5 + i / 9) % 9]).collect()
}
fn filters(thorough: bool) -> Vec<K> {
    let mut v = vec![
        K::Sobel,
        K::Scharr,
        K::Convolve(wts(9), 0.5),
        K::Convolve(wts(25), 0.25),
        K::Convolve(wts(49), 0.125),
        K::Box(2),
        K::Box(3),
        K::Box(1),
        K::Median(1),
        K::Median(2),
        K::Max(1),
        K::Min(2),
        K::Mean(1),
        K::Gradient(1),
        K::Contrast(1),
        K::Bilateral(3, 60.0, 2.0),
        K::Bilateral(5, 100.0, 1.5)
    ];
    if thorough {
        v.extend([
            K::Box(0),
            K::Box(5),
            K::Box(6),
            K::Median(0),
            K::Median(3),
            K::Max(0),
            K::Max(3),
            K::Min(1),
            K::Mean(0),
            K::Mean(2),
            K::Gradient(2),
            K::Contrast(2),
            K::Bilateral(1, 20.0, 2.0),
            K::Bilateral(2, 20.0, 2.0),
            K::Bilateral(4, 200.0, 3.0),
            K::Bilateral(0, 50.0, 1.0)
        ]);
    }
    v
}
fn depths(k: &K) -> &'static [BitType] {
    if floats(k) {
        &DEPTHS
    } else {
        &DEPTHS[..2]
    }
}
/// colour sigmas are in sample units
fn scaled(k: K, bt: BitType) -> K {
    match k {
        K::Bilateral(d, c, s) if bt == BitType::U16 => K::Bilateral(d, c * 257.0, s),
        k => k
    }
}

/// every image up to 3x3 over two (three) levels
fn tiny(ch: &mut Ch) -> Res {
    let k = ch.pick_ref(&filters(ch.thorough())).clone();
    let bt = ch.pick(depths(&k));
    let k = scaled(k, bt);
    let max = max_of(bt);
    let levels: usize = if ch.thorough() && !(bt == BitType::U16 && matches!(k, K::Median(_))) { 3 } else { 2 };
    let w = 1 + ch.choose(3);
    let h = 1 + ch.choose(3);
    let val = |l: usize| match l {
        0 => from_f(bt, max * 0.1),
        1 => from_f(bt, max),
        _ => from_f(bt, max * 0.6)
    };
    let px: Vec<u32> = (0..w * h).map(|_| val(ch.choose(levels))).collect();
    let m = M::new(w, h, ColorSpace::Luma, bt, 1, |_, _, i| px[i]);
    run(ch, &k, &m)
}

fn busy(bt: BitType, f: usize, c: usize, i: usize) -> u32 {
    let t = (i * i * 31 + i * 17 + c * 41 + f * 59 + 13) % 257;
    from_f(bt, t as f64 / 256.0 * max_of(bt))
}

fn sizes(ch: &mut Ch) -> Res {
    let k = ch.pick_ref(&filters(true)).clone();
    let bt = ch.pick(depths(&k));
    let k = scaled(k, bt);
    let top = match (bt, &k, ch.thorough()) {
        (BitType::U16, K::Median(_), false) => 5,
        (BitType::U16, K::Median(_), true) => 12,
        (_, _, false) => 10,
        _ => 24
    };
    let w = 1 + ch.choose(top);
    let h = 1 + ch.choose(top);
    let m = M::new(w, h, ColorSpace::Luma, bt, 1, |f, c, i| busy(bt, f, c, i));
    run(ch, &k, &m)
}

fn channels(ch: &mut Ch) -> Res {
    let k = ch.pick_ref(&filters(ch.thorough())).clone();
    let bt = ch.pick(depths(&k));
    let k = scaled(k, bt);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::ARGB, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::BGRA, ColorSpace::CMYK, ColorSpace::YCbCr, multi(2), multi(5)]);
    let frames = ch.pick(&[1usize, 2, 3]);
    let (w, h) = ch.pick(&[(4usize, 3usize), (2, 5), (1, 4), (5, 1)]);
    let m = M::new(w, h, cs, bt, frames, |f, c, i| busy(bt, f, c, i));
    run(ch, &k, &m)
}

/// constant images stay constant (or become zero for derivatives)
fn constant(ch: &mut Ch) -> Res {
    let mut fs = filters(true);
    fs.retain(|k| !matches!(k, K::Convolve(..)));
    for n in [9usize, 25, 49] {
        fs.push(K::Convolve(vec![1.0; n], 1.0 / n as f32));
    }
    let k = ch.pick_ref(&fs).clone();
    let bt = ch.pick(depths(&k));
    let k = scaled(k, bt);
    let max = max_of(bt);
    let v = ch.pick(&[0.0, 1.0, 0.5, 1.0 / 255.0, 254.0 / 255.0]);
    let v = from_f(bt, (v * max) as f64);
    let (w, h) = ch.pick(&[(1usize, 1usize), (2, 1), (1, 2), (2, 2), (3, 3), (4, 7), (8, 8), (6, 1), (1, 9), (17, 5)]);
    let m = M::new(w, h, ColorSpace::LumaA, bt, 1, |_, c, _| if c == 0 { v } else { from_f(bt, max * 0.4) });
    let mut im = m.image();
    let what = format!("{k:?} on a constant {} ({})", m.short(), to_f(bt, v));
    if let Err(e) = filter_op(&k).execute(&mut im) {
        return bad("refused", format!("{what}: {e:?}"));
    }
    let zero = matches!(k, K::Sobel | K::Scharr | K::Gradient(_) | K::Contrast(_));
    let tol = match (bt, &k) {
        (BitType::F32, _) => 1e-5,
        (_, K::Convolve(..)) => 1.0,
        _ => 0.0
    };
    near(&im, &what, tol, |_, c, _| Some(if c == 1 { to_f(bt, m.f[0][1][0]) } else if zero { 0.0 } else { to_f(bt, v) }))?;
    obs_image(ch, &im);
    Ok(())
}

/// every coefficient of every kernel size acts on its own neighbour
fn kernels(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let n = ch.pick(&[9usize, 25, 49, 0, 1, 4, 8, 10, 24, 26, 48, 50, 81]);
    let (w, h) = ch.pick(&[(7usize, 7usize), (5, 8), (2, 3), (1, 1), (1, 9)]);
    let m = M::new(w, h, ColorSpace::Luma, bt, 1, |f, c, i| busy(bt, f, c, i));
    if !matches!(n, 9 | 25 | 49) {
        let mut im = m.image();
        if Convolve::new(vec![0.5; n], 1.0).execute(&mut im).is_ok() {
            return bad("accepted", format!("a kernel of {n} weights was accepted"));
        }
        ch.trivial();
        return same(&im, &m, &format!("a failed convolution with {n} weights on {}", m.short()));
    }
    let i = ch.choose(n);
    let s = ch.pick(&[1.0f32, -1.0, 0.5, 2.0]);
    let mut wt = vec![0.0; n];
    wt[i] = ch.pick(&[1.0f32, -1.0, 0.25]);
    run(ch, &K::Convolve(wt, s), &m)
}

/// windows much larger than the image
fn windows(ch: &mut Ch) -> Res {
    let r = ch.pick(&[7usize, 20, 127, 128, 150]);
    let k = match ch.choose(8) {
        0 => K::Mean(r),
        1 => K::Max(r),
        2 => K::Min(r),
        3 => K::Gradient(r),
        4 => K::Median(r),
        5 => K::Box(r),
        6 => K::Box(r + 1),
        _ => K::Bilateral((r.min(20) * 2) as i32, 80.0, 5.0)
    };
    let bt = ch.pick(&DEPTHS[..2]);
    let k = scaled(k, bt);
    let (w, h) = ch.pick(&[(1usize, 1usize), (2, 3), (3, 2), (4, 1)]);
    let white = ch.flag();
    let m = M::new(w, h, ColorSpace::Luma, bt, 1, |f, c, i| if white { from_f(bt, max_of(bt)) } else { busy(bt, f, c, i) });
    run(ch, &k, &m)
}

/// wide windows on long lines
fn lines(ch: &mut Ch) -> Res {
    let r = ch.pick(&[31usize, 63, 64, 127, 128, 129, 200, 255, 256, 300, 511]);
    let bt = ch.pick(&DEPTHS);
    let (w, h) = ch.pick(&[(300usize, 2usize), (2, 300), (521, 1), (1, 521), (1030, 3), (3, 1030)]);
    let img = ch.choose(3);
    let m = M::new(w, h, ColorSpace::Luma, bt, 1, |f, c, i| match img {
        0 => busy(bt, f, c, i),
        1 => from_f(bt, max_of(bt)),
        _ => from_f(bt, if i * 2 < w * h { max_of(bt) } else { 0.0 })
    });
    let f = ch.choose(4);
    match (f, bt, r) {
        (0, ..) => run(ch, &K::Box(r), &m),
        (_, BitType::F32, _) | (_, _, 65..) => {
            ch.trivial();
            Ok(())
        }
        (1, ..) => run(ch, &K::Max(r), &m),
        (2, ..) => run(ch, &K::Mean(r), &m),
        _ => run(ch, &K::Gradient(r), &m)
    }
}
/// small windows on images of many pixels
fn large(ch: &mut Ch) -> Res {
    let k = match ch.choose(9) {
        0 => K::Median(1),
        1 => K::Median(2),
        2 => K::Max(1),
        3 => K::Mean(1),
        4 => K::Sobel,
        5 => K::Scharr,
        6 => K::Convolve(wts(25), 0.25),
        7 => K::Bilateral(3, 60.0, 2.0),
        _ => K::Box(2)
    };
    let bt = ch.pick(depths(&k));
    let k = scaled(k, bt);
    let dims: &[(usize, usize)] = if ch.thorough() {
        &[(257, 259), (66000, 1), (1, 66000), (5000, 3), (3, 5000), (300, 300), (1100, 70), (70, 1100), (17000, 4), (4, 17000)]
    } else {
        &[(257, 259), (66000, 1), (1, 5000), (3, 1100)]
    };
    let (w, h) = *ch.pick_ref(dims);
    // the 16 bit median looks at every possible value below it
    let small = matches!(k, K::Median(_)) && bt == BitType::U16;
    let m = M::new(w, h, ColorSpace::Luma, bt, 1, |f, c, i| if small { (i * i * 31 + i * 17) as u32 % 97 } else { busy(bt, f, c, i) });
    run(ch, &k, &m)
}

fn blurred(m: &M, s: f32) -> Result<M, Bad> {
    let mut im = m.image();
    let what = format!("gaussian blur {s} of {}", m.short());
    if let Err(e) = GaussianBlur::new(s).execute(&mut im) {
        return bad("refused", format!("{what}: {e:?}"));
    }
    if let Err(e) = valid(&im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    let g = model_of(&im);
    if (g.w, g.h, g.cs, g.bt, g.f.len()) != (m.w, m.h, m.cs, m.bt, m.f.len()) {
        return bad("shape", format!("{what}: the result is {}", g.short()));
    }
    Ok(g)
}

/// what a symmetric, averaging blur has to satisfy
fn gaussian(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS[..2]);
    let s = ch.pick(&[0.0f32, 0.5, 1.0, 2.0, 3.5, 10.0, -1.0]);
    let top = if ch.thorough() { 22 } else { 12 };
    let w = 1 + ch.choose(top);
    let h = 1 + ch.choose(top);
    let img = ch.choose(3);
    let m = M::new(w, h, ColorSpace::LumaA, bt, 1, |f, c, i| match img {
        0 => busy(bt, f, c, i),
        1 => from_f(bt, if i == w * h / 2 { max_of(bt) } else { 0.0 }),
        _ => from_f(bt, max_of(bt) * 0.7)
    });
    let g = blurred(&m, s)?;
    let what = || format!("gaussian blur {s} of {} (image {img})", m.short());
    for (c, p) in g.f[0].iter().enumerate() {
        let src = &m.f[0][c];
        let (lo, hi) = (*src.iter().min().unwrap(), *src.iter().max().unwrap());
        for (i, v) in p.iter().enumerate() {
            // six rounding divisions may each lose one
            if *v > hi || (*v as i64) < lo as i64 - if lo == hi { 0 } else { 6 } {
                return bad("range", format!("{}: sample {i} is {v}, the input is within {lo}..={hi}", what()));
            }
        }
    }
    let close = |a: &M, b: &M, n: &str| -> Res {
        for (pa, pb) in a.f[0].iter().zip(&b.f[0]) {
            for (i, (x, y)) in pa.iter().zip(pb).enumerate() {
                if (*x as i64 - *y as i64).abs() > 6 {
                    return bad(n, format!("{}: {n}: sample {i} is {x} against {y}", what()));
                }
            }
        }
        Ok(())
    };
    let t = m.remap(h, w, |x, y| (y, x));
    close(&blurred(&t, s)?.remap(w, h, |x, y| (y, x)), &g, "transposed")?;
    let t = m.remap(w, h, |x, y| (w - 1 - x, y));
    close(&blurred(&t, s)?.remap(w, h, |x, y| (w - 1 - x, y)), &g, "mirrored")?;
    let t = m.remap(w, h, |x, y| (x, h - 1 - y));
    close(&blurred(&t, s)?.remap(w, h, |x, y| (x, h - 1 - y)), &g, "flipped")?;
    // the same picture at twice the depth
    if bt == BitType::U8 {
        let mut t = m.clone();
        t.bt = BitType::U16;
        for p in t.f.iter_mut().flatten() {
            for v in p {
                *v *= 257;
            }
        }
        let gg = blurred(&t, s)?;
        for (pa, pb) in gg.f[0].iter().zip(&g.f[0]) {
            for (i, (x, y)) in pa.iter().zip(pb).enumerate() {
                if (*x as f64 / 257.0 - *y as f64).abs() > 6.5 {
                    return bad("depths", format!("{}: sample {i} is {y} at 8 bits and {x} at 16 bits", what()));
                }
            }
        }
    }
    // every column (row) of an image that is constant along rows (columns) is blurred alike
    if img == 0 && h > 1 {
        let t = m.remap(w, h, |x, _| (x, 0));
        let gt = blurred(&t, s)?;
        let row = m.remap(w, 1, |x, _| (x, 0));
        let gr = blurred(&row, s)?;
        close(&gt, &gr.remap(w, h, |x, _| (x, 0)), "rows")?;
    }
    ch.state((w * 1000 + h * 10 + img) as u64);
    for p in &g.f[0] {
        ch.obs_bytes(&p.iter().map(|x| (*x >> if bt == BitType::U16 { 8 } else { 0 }) as u8).collect::<Vec<_>>());
    }
    ch.note(what);
    Ok(())
}

/// original + (original - blurred) where the difference exceeds the threshold
fn unsharpen(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS[..2]);
    let s = ch.pick(&[1.0f32, 2.0, 0.5, 5.0]);
    let unit = if bt == BitType::U16 { 257 } else { 1 };
    // a threshold, or the difference of one of the pixels
    let t = ch.pick(&[0u32, 1, 10, 60, 254, 255, 256, 300, 65535, 1_000_000, 1_000_001]);
    let top = if ch.thorough() { 12 } else { 6 };
    let w = 1 + ch.choose(top);
    let h = 1 + ch.choose(top);
    let img = ch.choose(3);
    let cs = ch.pick(&[ColorSpace::LumaA, ColorSpace::RGB]);
    let m = M::new(w, h, cs, bt, 1, |f, c, i| match img {
        0 => busy(bt, f, c, i),
        1 => from_f(bt, if i == w * h / 2 { max_of(bt) } else { 0.0 }),
        _ => from_f(bt, if i == w * h / 2 { max_of(bt) * 0.2 } else { max_of(bt) * 0.9 })
    });
    let b = blurred(&m, s)?;
    let t = match t {
        1_000_000.. => {
            let d: Vec<u32> = m.f[0][0].iter().zip(&b.f[0][0]).filter(|(o, b)| o > b).map(|(o, b)| o - b).collect();
            if d.is_empty() {
                ch.trivial();
                return Ok(());
            }
            // exactly the difference, or one less
            d[d.len() / 2] - (t - 1_000_000)
        }
        t => (t * unit).min(65535)
    };
    let mut e = m.clone();
    let alpha = m.cs.alpha_position();
    for c in 0..m.f[0].len() {
        if Some(c) == alpha {
            continue;
        }
        for (i, v) in e.f[0][c].iter_mut().enumerate() {
            let o = m.f[0][c][i];
            let bl = b.f[0][c][i];
            if o > bl && o - bl > t {
                *v = (o + (o - bl)).min(max_of(bt) as u32);
            }
        }
    }
    let mut im = m.image();
    let what = format!("unsharpen sigma {s} threshold {t} on {} (image {img})", m.short());
    if let Err(e) = Unsharpen::new(s, t as u16, 10).execute(&mut im) {
        return bad("refused", format!("{what}: {e:?}"));
    }
    same(&im, &e, &what)?;
    obs_image(ch, &im);
    ch.note(|| what.clone());
    Ok(())
}

fn padding(ch: &mut Ch) -> Res {
    use zune_imageprocs::pad::{pad, PadMethod};
    let top = if ch.thorough() { 6 } else { 4 };
    let long = ch.pick(&[None, Some((1, 5000)), Some((5000, 1)), Some((300, 260))]);
    let (w, h) = match long {
        Some(d) => d,
        None => (1 + ch.choose(top), 1 + ch.choose(top))
    };
    let px = ch.choose(top + 1);
    let py = ch.choose(top + 1);
    let rep = ch.flag();
    let src: Vec<u16> = (0..w * h).map(|i| (i * 3 + 1) as u16).collect();
    let out = pad(&src, w, h, px, py, if rep { PadMethod::Replicate } else { PadMethod::Constant });
    let (pw, ph) = (w + 2 * px, h + 2 * py);
    if out.len() != pw * ph {
        return bad("pad-size", format!("padding {w}x{h} by {px},{py} gives {} samples", out.len()));
    }
    for (i, v) in out.iter().enumerate() {
        let (x, y) = ((i % pw) as isize - px as isize, (i / pw) as isize - py as isize);
        let (cx, cy) = (x.clamp(0, w as isize - 1), y.clamp(0, h as isize - 1));
        let e = if !rep && (cx, cy) != (x, y) { 0 } else { src[cy as usize * w + cx as usize] };
        if *v != e {
            return bad("pad", format!("padding {w}x{h} by {px},{py} (replicate {rep}): ({x},{y}) is {v}, expected {e}"));
        }
    }
    ch.obs_bytes(bytemuck::cast_slice(&out));
    Ok(())
}
