//! C36 combining images: blend, composite, alpha pre-multiplication
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::composite::{Composite, CompositeMethod};
use zune_imageprocs::premul_alpha::PremultiplyAlpha;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C36",
        level: "model_checking",
        rule: "blend: every opacity of a list around the clamping points with every pair of samples of the grid (all 65536 pairs at 8 bits), every colour space, every kind of mismatch; composite: every method with every small destination, source and position (inside, partly and fully outside), every depth and colour space, and every (source, destination, alpha) of a grid; pre-multiplication: every pair of sample and alpha of the grid and every sequence of conversions up to the bound; compared with the documented formulas in double precision; a state is (operation, parameters, depth, colour space)",
        assumptions: &["results may be rounded either way", "DstIn has no implementation in the library and is not claimed"],
        scenarios: |_| vec![
            Scenario { name: "blend-values", f: blend_values },
            Scenario { name: "blend-shapes", f: blend_shapes },
            Scenario { name: "large", f: large },
            Scenario { name: "composite-places", f: composite_places },
            Scenario { name: "composite-values", f: composite_values },
            Scenario { name: "composite-mismatch", f: composite_mismatch },
            Scenario { name: "premultiply-values", f: premultiply_values },
            Scenario { name: "premultiply-histories", f: premultiply_histories }
        ]
    }]
}

const CS: [ColorSpace; 9] = [
    ColorSpace::RGBA,
    ColorSpace::Luma,
    ColorSpace::RGB,
    ColorSpace::LumaA,
    ColorSpace::ARGB,
    ColorSpace::BGRA,
    ColorSpace::BGR,
    ColorSpace::YCbCr,
    ColorSpace::CMYK
];

fn grid(bt: BitType, n: u32) -> Vec<u32> {
    match bt {
        BitType::U8 => {
            let step = (255 / n.min(255)).max(1);
            let mut v: Vec<u32> = (0..=255).step_by(step as usize).collect();
            v.extend([1, 2, 127, 128, 254, 255]);
            v.sort_unstable();
            v.dedup();
            v
        }
        BitType::U16 => {
            let mut v: Vec<u32> = (0..=n).map(|i| i * 65535 / n).collect();
            v.extend([1, 2, 255, 256, 257, 32767, 32768, 65533, 65534, 65535]);
            v.sort_unstable();
            v.dedup();
            v
        }
        _ => (0..=n).map(|i| (i as f32 / n as f32).to_bits()).collect()
    }
}

/// strictly closer than one unit for integers
fn close(bt: BitType, got: f64, exp: f64) -> bool {
    match bt {
        BitType::F32 => (got - exp).abs() <= 1e-5 * (1.0 + exp.abs()),
        BitType::U16 => got >= (exp - 0.02).floor() && got <= (exp + 0.02).ceil(),
        _ => got >= (exp - 0.001).floor() && got <= (exp + 0.001).ceil()
    }
}

/// compare every sample with the real value `exp(frame, channel, i)`
fn compare(im: &zune_image::image::Image, m: &M, what: &str, exp: impl Fn(usize, usize, usize) -> f64) -> Res {
    let got = model_of(im);
    if (got.w, got.h, got.cs, got.bt, got.f.len()) != (m.w, m.h, m.cs, m.bt, m.f.len()) {
        return bad("shape", format!("{what}: the result is {}", got.short()));
    }
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    for (k, f) in got.f.iter().enumerate() {
        for (c, p) in f.iter().enumerate() {
            for (i, v) in p.iter().enumerate() {
                let (g, e) = (to_f(m.bt, *v), exp(k, c, i));
                if !close(m.bt, g, e) {
                    let key = if m.cs.alpha_position() == Some(c) { "alpha" } else { "sample" };
                    return bad(key, format!("{what}: frame {k} channel {c} at ({},{}) is {g}, expected {e}", i % m.w, i / m.w));
                }
            }
        }
    }
    Ok(())
}

/// two images whose samples run through all pairs of the grid, shifted per channel
fn pairs(bt: BitType, cs: ColorSpace, n: u32) -> (M, M) {
    let g = grid(bt, n);
    let l = g.len();
    let a = M::new(l, l, cs, bt, 1, |_, c, i| g[(i % l + c) % l]);
    let b = M::new(l, l, cs, bt, 1, |_, c, i| g[(i / l + 2 * c) % l]);
    (a, b)
}

const OPACITY: [f32; 18] = [
    0.5, 0.0, 1.0, 0.25, 0.75, 0.1, 0.9, 0.999, 0.001, 1.0 / 255.0, -1.0, -0.0, 1.5, 3.3, 1e30, f32::NAN, f32::INFINITY, f32::NEG_INFINITY
];

fn check_blend(ch: &mut Ch, src: &M, dst: &M, a: f32) -> Res {
    let s = src.image();
    let mut d = dst.image();
    let what = format!("blend with opacity {a} of {} onto {}", src.short(), dst.short());
    let before = model_of(&s);
    match Blend::new(&s, a).execute(&mut d) {
        Ok(()) => {}
        Err(e) => {
            if a.is_finite() {
                return bad("refused", format!("{what}: {e:?}"));
            }
            same(&d, dst, &format!("{what} (failed)"))?;
            ch.trivial();
            return Ok(());
        }
    }
    if a.is_nan() {
        return bad("nan", format!("{what} succeeds"));
    }
    let (_, al) = ((), dst.cs.alpha_position());
    let a = (a as f64).clamp(0.0, 1.0);
    compare(&d, dst, &what, |k, c, i| {
        let (x, y) = (to_f(src.bt, src.f[k][c][i]), to_f(dst.bt, dst.f[k][c][i]));
        if Some(c) == al {
            y
        } else {
            a * x + (1.0 - a) * y
        }
    })?;
    same(&s, &before, &format!("{what}: source"))?;
    obs_image(ch, &d);
    Ok(())
}

fn blend_values(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let a = ch.pick(&OPACITY);
    let cs = ch.pick(&CS);
    let n = match bt {
        BitType::U8 if cs == ColorSpace::RGBA || ch.thorough() => 255,
        _ => 40
    };
    let (s, d) = pairs(bt, cs, n);
    ch.state(hash_bytes(format!("blend {a} {bt:?} {cs:?}").as_bytes()));
    check_blend(ch, &s, &d, a)?;
    ch.note(|| format!("blend {a}, {bt:?} {cs:?}"));
    Ok(())
}

/// all small dimensions and frame counts; mismatched images are refused
fn blend_shapes(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::ARGB, ColorSpace::RGB]);
    let (w, h) = (ch.choose(9) + 1, ch.choose(4) + 1);
    let frames = ch.choose(3) + 1;
    let dst = M::unique(w, h, cs, bt, frames);
    let mut src = M::unique(w, h, cs, bt, frames);
    src = src.map_planes(w, h, |_, p| p.iter().rev().copied().collect());
    let kind = ch.pick(&["none", "width", "height", "both", "depth", "colorspace", "frames", "swapped"]);
    match kind {
        "none" => {
            let a = ch.pick(&[0.5f32, 0.3, 1.0, 2.0, 0.0]);
            return check_blend(ch, &src, &dst, a);
        }
        "width" => src = M::unique(w + 1, h, cs, bt, frames),
        "height" => src = M::unique(w, h + 1, cs, bt, frames),
        "both" => src = M::unique(w + 1, h + 2, cs, bt, frames),
        "depth" => {
            let o = ch.pick(&DEPTHS);
            if o == bt {
                ch.discard();
            return Ok(());
            }
            src = M::unique(w, h, cs, o, frames)
        }
        "colorspace" => {
            let o = ch.pick(&CS);
            if o == cs {
                ch.discard();
            return Ok(());
            }
            src = M::unique(w, h, o, bt, frames)
        }
        "frames" => {
            let o = ch.choose(4) + 1;
            if o == frames {
                ch.discard();
            return Ok(());
            }
            src = M::unique(w, h, cs, bt, o)
        }
        _ => {
            if w == h {
                ch.discard();
            return Ok(());
            }
            src = M::unique(h, w, cs, bt, frames)
        }
    }
    let a = ch.pick(&[0.5f32, 1.0]);
    let s = src.image();
    let mut d = dst.image();
    let what = format!("blend of {} onto {}", src.short(), dst.short());
    if Blend::new(&s, a).execute(&mut d).is_ok() {
        return bad("accepted", format!("{what} succeeds"));
    }
    same(&d, &dst, &format!("{what} (failed)"))?;
    ch.state(hash_bytes(format!("{kind} {bt:?} {cs:?}").as_bytes()));
    obs_image(ch, &d);
    ch.note(|| what);
    Ok(())
}

const METHODS: [CompositeMethod; 3] = [CompositeMethod::Over, CompositeMethod::Src, CompositeMethod::Dst];

/// the documented composition, in real numbers
fn composed(m: CompositeMethod, src: &M, dst: &M, pos: (usize, usize), k: usize, c: usize, i: usize) -> f64 {
    let max = max_of(dst.bt);
    let y = to_f(dst.bt, dst.f[k][c][i]);
    let (px, py) = (i % dst.w, i / dst.w);
    let inside = k < src.f.len() && px >= pos.0 && py >= pos.1 && px - pos.0 < src.w && py - pos.1 < src.h;
    let at = |c: usize| to_f(src.bt, src.f[k][c][(py - pos.1) * src.w + px - pos.0]);
    match m {
        CompositeMethod::Src => {
            if inside {
                at(c)
            } else if k < src.f.len() {
                max
            } else {
                y
            }
        }
        CompositeMethod::Over if inside => match dst.cs.alpha_position() {
            None => at(c),
            Some(a) => {
                let al = (at(a) / max).clamp(0.0, 1.0);
                if a == c {
                    at(a) + (1.0 - al) * y
                } else {
                    al * at(c) + (1.0 - al) * y
                }
            }
        },
        _ => y
    }
}

fn check_composite(ch: &mut Ch, m: CompositeMethod, src: &M, dst: &M, pos: (usize, usize)) -> Res {
    let s = src.image();
    let mut d = dst.image();
    let what = format!("{m:?} of {} on {} at {pos:?}", src.short(), dst.short());
    if let Err(e) = Composite::new(&s, m, pos).execute(&mut d) {
        return bad("refused", format!("{what}: {e:?}"));
    }
    compare(&d, dst, &what, |k, c, i| composed(m, src, dst, pos, k, c, i))?;
    same(&s, src, &format!("{what}: source"))?;
    obs_image(ch, &d);
    ch.state(hash_bytes(format!("{m:?} {:?} {:?} {pos:?} {} {}", dst.cs, dst.bt, src.w, src.h).as_bytes()));
    ch.note(|| what);
    Ok(())
}

fn composite_places(ch: &mut Ch) -> Res {
    let m = ch.pick(&METHODS);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&CS);
    let deep = ch.thorough();
    let (dw, dh) = if deep {
        (ch.choose(4) + 1, ch.choose(4) + 1)
    } else {
        ch.pick(&[(1, 1), (3, 2), (2, 4), (4, 3)])
    };
    let (sw, sh) = (ch.choose(3) + 1, ch.choose(3) + 1);
    let (sw, sh) = if !deep && sw == 3 { (dw + 2, sh) } else { (sw, sh) };
    let far = [0, 1, 2, 3, 4, 5, 1000, usize::MAX / 2, usize::MAX];
    let pos = (ch.pick(&far), ch.pick(&far));
    let frames = if pos == (1, 0) { ch.pick(&[(2usize, 2usize), (1, 1), (3, 3)]) } else { (1, 1) };
    let src = M::unique(sw, sh, cs, bt, frames.0);
    let src = src.map_planes(sw, sh, |c, p| p.iter().map(|v| if bt == BitType::F32 { f32::to_bits(f32::from_bits(*v) * 0.5) } else { (*v * 3 + c as u32) % (max_of(bt) as u32 + 1) }).collect());
    let dst = M::unique(dw, dh, cs, bt, frames.1);
    check_composite(ch, m, &src, &dst, pos)
}

/// every combination of source, destination and alpha values of a grid
fn composite_values(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let m = ch.pick(&METHODS);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::LumaA, ColorSpace::ARGB, ColorSpace::BGRA]);
    let g = grid(bt, if ch.thorough() { 24 } else { 10 });
    let al = if bt == BitType::U8 && (cs == ColorSpace::LumaA || ch.thorough()) { (0..256).collect() } else { g.clone() };
    let dal = ch.pick_ref(&g).to_owned();
    let l = g.len();
    let a = cs.alpha_position().unwrap();
    let src = M::new(l * l, al.len(), cs, bt, 1, |_, c, i| if c == a { al[i / (l * l)] } else { g[(i % l + c) % l] });
    let dst = M::new(l * l, al.len(), cs, bt, 1, |_, c, i| if c == a { dal } else { g[(i % (l * l) / l + 2 * c) % l] });
    check_composite(ch, m, &src, &dst, (0, 0))
}

fn composite_mismatch(ch: &mut Ch) -> Res {
    let m = ch.pick(&METHODS);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&CS);
    let (obt, ocs) = (ch.pick(&DEPTHS), ch.pick(&CS));
    if (obt, ocs) == (bt, cs) {
        ch.discard();
            return Ok(());
    }
    let src = M::unique(2, 2, ocs, obt, 1);
    let dst = M::unique(3, 2, cs, bt, 2);
    let s = src.image();
    let mut d = dst.image();
    let what = format!("{m:?} of {} on {}", src.short(), dst.short());
    if Composite::new(&s, m, (0, 0)).execute(&mut d).is_ok() {
        return bad("accepted", format!("{what} succeeds"));
    }
    same(&d, &dst, &format!("{what} (failed)"))?;
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &d);
    ch.note(|| what);
    Ok(())
}

/// large images, and small ones at every kind of place on them
fn large(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&LONG);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma]);
    let dst = M::hashed(w, h, cs, bt, 1);
    let src = |w, h| M::hashed(w, h, cs, bt, 2).f.swap_remove(1);
    match ch.choose(3) {
        0 => {
            let s = M { f: vec![src(w, h)], ..dst.clone() };
            check_blend(ch, &s, &dst, ch_pick_opacity(w))
        }
        1 => {
            let m = ch.pick(&METHODS);
            let (x, y) = (ch.pick(&[0, 1, w / 2, w.max(257) - 257, w - 1, w, 256, 65536]), ch.pick(&[0, 1, h / 2, h.max(257) - 257, h - 1, h, 256, 65536]));
            let (sw, sh) = ch.pick(&[(3, 2), (300, 1), (1, 300), (w, h)]);
            let s = M { w: sw, h: sh, f: vec![src(sw, sh)], ..dst.clone() };
            check_composite(ch, m, &s, &dst, (x, y))
        }
        _ => {
            let to = ch.pick(&[AlphaState::PreMultiplied, AlphaState::NonPreMultiplied]);
            let mut im = dst.image();
            if to == AlphaState::NonPreMultiplied {
                im.metadata_mut().set_alpha(AlphaState::PreMultiplied);
            }
            premultiply_step(&mut im, to)?;
            obs_image(ch, &im);
            ch.state((w * 100 + h) as u64);
            ch.note(|| format!("to {to:?}, {}", dst.short()));
            Ok(())
        }
    }
}
fn ch_pick_opacity(w: usize) -> f32 {
    if w % 2 == 0 { 0.3 } else { 0.75 }
}

/// a conversion of the model: the range of values every sample may have afterwards
fn premul(v: f64, a: f64, max: f64, to: AlphaState) -> f64 {
    if to == AlphaState::PreMultiplied {
        v * a / max
    } else if a == 0.0 {
        0.0
    } else {
        v * max / a
    }
}

fn premultiply_step(im: &mut zune_image::image::Image, to: AlphaState) -> Res {
    let m = model_of(im);
    let from = im.metadata().alpha();
    let what = format!("{from:?} to {to:?} of {}", m.short());
    if let Err(e) = PremultiplyAlpha::new(to).execute(im) {
        return bad("refused", format!("{what}: {e:?}"));
    }
    let alpha = m.cs.alpha_position();
    if alpha.is_none() || from == to {
        same(im, &m, &what)?;
        if im.metadata().alpha() != from {
            return bad("state", format!("{what}: the state became {:?}", im.metadata().alpha()));
        }
        return Ok(());
    }
    if im.metadata().alpha() != to {
        return bad("state", format!("{what}: the recorded state is {:?}", im.metadata().alpha()));
    }
    let a = alpha.unwrap();
    let max = max_of(m.bt);
    compare(im, &m, &what, |k, c, i| {
        let v = to_f(m.bt, m.f[k][c][i]);
        if c == a {
            return v;
        }
        let e = premul(v, to_f(m.bt, m.f[k][a][i]), max, to);
        if m.bt == BitType::F32 {
            e
        } else {
            e.min(max)
        }
    })
}

fn premultiply_values(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let to = ch.pick(&[AlphaState::PreMultiplied, AlphaState::NonPreMultiplied]);
    let cs = ch.pick(&CS);
    let n = match bt {
        BitType::U8 => 255,
        BitType::U16 => if ch.thorough() { 1000 } else { 200 },
        _ => if ch.thorough() { 300 } else { 64 }
    };
    let (mut m, other) = pairs(bt, cs, n);
    if let Some(a) = cs.alpha_position() {
        m.f[0][a] = other.f[0][a].clone();
    }
    let mut im = m.image();
    if to == AlphaState::NonPreMultiplied {
        im.metadata_mut().set_alpha(AlphaState::PreMultiplied);
    }
    premultiply_step(&mut im, to)?;
    ch.state(hash_bytes(format!("{bt:?} {to:?} {cs:?}").as_bytes()));
    obs_image(ch, &im);
    ch.note(|| format!("to {to:?}, {}", m.short()));
    Ok(())
}

/// every sequence of conversions; opaque pixels survive all of them
fn premultiply_histories(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::LumaA, ColorSpace::ARGB, ColorSpace::RGB]);
    let (w, h) = ch.pick(&[(1, 1), (5, 1), (9, 3), (1, 17), (33, 2)]);
    let frames = ch.choose(3) + 1;
    let opaque = ch.flag();
    let mut m = M::unique(w, h, cs, bt, frames);
    if let (true, Some(a)) = (opaque, cs.alpha_position()) {
        for f in &mut m.f {
            f[a].fill(from_f(bt, max_of(bt)));
        }
    }
    let mut im = m.image();
    if ch.flag() {
        im.metadata_mut().set_alpha(AlphaState::PreMultiplied);
    }
    let n = if ch.thorough() { 6 } else { 4 };
    for _ in 0..n {
        let to = ch.pick(&[AlphaState::PreMultiplied, AlphaState::NonPreMultiplied]);
        premultiply_step(&mut im, to)?;
        if opaque {
            same(&im, &m, "opaque image after conversions")?;
        }
        ch.state(hash_bytes(format!("{bt:?} {cs:?} {opaque} {:?} {:?}", im.metadata().alpha(), model_of(&im).f).as_bytes()));
    }
    obs_image(ch, &im);
    ch.note(|| format!("{n} conversions of {}", m.short()));
    Ok(())
}
