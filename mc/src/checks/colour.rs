//! C45 colour profiles
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use moxcms::{ColorProfile, Layout, TransformOptions};
use std::sync::OnceLock;
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::color_transform::{ColorProfiles, ColorTransform};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C45",
        level: "model_checking",
        rule: "every pair of source profile (valid, of another kind of image, damaged, none) and destination profile on every colour space, depth, dimension and frame count of the bound, and every sequence of transformations up to the bound, compared with the profile library applied to the interleaved pixels of each frame; a state is (profiles, image kind)",
        assumptions: &["moxcms converts single pixels correctly and independently of each other"],
        scenarios: |_| vec![Scenario { name: "profiles", f: profiles }, Scenario { name: "sequences", f: sequences }]
    }]
}

// ------------------------------------------------------------------------------------- profiles

const DEST: [ColorProfiles; 5] = [ColorProfiles::sRGB, ColorProfiles::AdobeRgb, ColorProfiles::DisplayP3, ColorProfiles::Bt2020, ColorProfiles::DciP3];

fn profile(p: ColorProfiles) -> ColorProfile {
    match p {
        ColorProfiles::sRGB => ColorProfile::new_srgb(),
        ColorProfiles::AdobeRgb => ColorProfile::new_adobe_rgb(),
        ColorProfiles::DisplayP3 => ColorProfile::new_display_p3(),
        ColorProfiles::Bt2020 => ColorProfile::new_bt2020(),
        ColorProfiles::DciP3 => ColorProfile::new_dci_p3()
    }
}
/// profiles an image may carry: none, the five destinations, one of grayscale, and damaged ones
fn sources() -> &'static Vec<(String, Option<Vec<u8>>)> {
    static S: OnceLock<Vec<(String, Option<Vec<u8>>)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![("none".to_string(), None)];
        for d in DEST {
            v.push((format!("{d:?}"), Some(profile(d).encode().unwrap())));
        }
        v.push(("gray".into(), Some(ColorProfile::new_gray_with_gamma(2.2).encode().unwrap())));
        v.push(("pro photo".into(), Some(ColorProfile::new_pro_photo_rgb().encode().unwrap())));
        let b = profile(DEST[1]).encode().unwrap();
        v.push(("cut".into(), Some(b[..b.len() / 2].to_vec())));
        v.push(("empty".into(), Some(vec![])));
        v.push(("text".into(), Some(b"no profile at all".to_vec())));
        v
    })
}

fn layout(cs: ColorSpace) -> Option<Layout> {
    match cs {
        ColorSpace::RGB => Some(Layout::Rgb),
        ColorSpace::RGBA => Some(Layout::Rgba),
        ColorSpace::Luma => Some(Layout::Gray),
        _ => None
    }
}

/// the interleaved samples converted by the profile library; Err: it can't
fn by_library(src: &[u8], dst: ColorProfiles, l: Layout, bt: BitType, inter: &[u32]) -> Result<Vec<u32>, ()> {
    let s = ColorProfile::new_from_slice(src).map_err(|_| ())?;
    let d = profile(dst);
    let o = TransformOptions::default();
    match bt {
        BitType::U8 => {
            let t = s.create_transform_8bit(l, &d, l, o).map_err(|_| ())?;
            let i: Vec<u8> = inter.iter().map(|x| *x as u8).collect();
            let mut out = vec![0u8; i.len()];
            t.transform(&i, &mut out).map_err(|_| ())?;
            Ok(out.iter().map(|x| *x as u32).collect())
        }
        BitType::U16 => {
            let t = s.create_transform_16bit(l, &d, l, o).map_err(|_| ())?;
            let i: Vec<u16> = inter.iter().map(|x| *x as u16).collect();
            let mut out = vec![0u16; i.len()];
            t.transform(&i, &mut out).map_err(|_| ())?;
            Ok(out.iter().map(|x| *x as u32).collect())
        }
        _ => {
            let t = s.create_transform_f32(l, &d, l, o).map_err(|_| ())?;
            let i: Vec<f32> = inter.iter().map(|x| f32::from_bits(*x)).collect();
            let mut out = vec![0f32; i.len()];
            t.transform(&i, &mut out).map_err(|_| ())?;
            Ok(out.iter().map(|x| x.to_bits()).collect())
        }
    }
}

fn profiles(ch: &mut Ch) -> Res {
    let (name, src) = ch.pick_ref(sources()).clone();
    let dst = ch.pick(&DEST);
    let cs = ch.pick(&[
        ColorSpace::RGB,
        ColorSpace::RGBA,
        ColorSpace::Luma,
        ColorSpace::LumaA,
        ColorSpace::BGR,
        ColorSpace::ARGB,
        ColorSpace::CMYK,
        ColorSpace::HSL
    ]);
    let bt = ch.pick(&DEPTHS);
    let dims: &[(usize, usize)] = if ch.thorough() { &[(1, 1), (3, 2), (2, 5), (7, 3), (17, 2), (16, 16)] } else { &[(1, 1), (3, 2), (7, 3)] };
    let (w, h) = ch.pick(dims);
    let frames = 1 + ch.choose(3);
    let m = M::unique(w, h, cs, bt, frames);
    let mut im = m.image();
    if let Some(s) = &src {
        im.metadata_mut().set_icc_chunk(s.clone());
    }
    let what = format!("from {name} to {dst:?} on {}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let r = match guard(|| ColorTransform::new(dst).execute(&mut im)) {
        Err(e) => return bad("panic", format!("{what}: panics ({e})")),
        Ok(r) => r
    };
    obs_image(ch, &im);
    let Some(s) = src else {
        // nothing to convert from
        if r.is_ok() && im.metadata().icc_chunk().is_some() {
            return bad("profile", format!("{what}: a profile appeared"));
        }
        return same(&im, &m, &format!("{what} ({r:?})"));
    };
    let want: Result<Vec<Vec<u32>>, ()> = match layout(cs) {
        None => Err(()),
        Some(l) => (0..frames).map(|k| by_library(&s, dst, l, bt, &m.inter(k))).collect()
    };
    match (r, want) {
        (Err(_), Err(())) => {
            same(&im, &m, &format!("{what}: after an error"))?;
            if im.metadata().icc_chunk() != Some(&s) {
                bad("profile", format!("{what}: failed, but the profile changed"))?;
            }
            Ok(())
        }
        (Ok(()), Err(())) => bad("unsupported", format!("{what}: succeeds")),
        (Err(e), Ok(_)) => bad("refused", format!("{what}: {e:?}")),
        (Ok(()), Ok(want)) => {
            let n = cs.num_components();
            let mut e = m.clone();
            for k in 0..frames {
                for c in 0..n {
                    for i in 0..w * h {
                        e.f[k][c][i] = want[k][i * n + c];
                    }
                }
            }
            same(&im, &e, &what)?;
            // the image now has the profile it was converted to: converting once more does (nearly) nothing
            let Some(now) = im.metadata().icc_chunk().cloned() else {
                return bad("profile", format!("{what}: the image lost its profile"));
            };
            if let Some(l) = layout(cs) {
                for k in 0..frames {
                    let again = by_library(&s, dst, l, bt, &m.inter(k)).unwrap();
                    let twice = match by_library(&now, dst, l, bt, &again) {
                        Ok(t) => t,
                        Err(()) => return bad("profile", format!("{what}: the image's profile can't be converted from"))
                    };
                    // the library's DCI-P3 profile holds two different tone curves, and which one is used for grayscale depends on the direction
                    if cs == ColorSpace::Luma && matches!(dst, ColorProfiles::DciP3) {
                        continue;
                    }
                    let tol = 0.012 * max_of(bt);
                    if let Some(i) = (0..again.len()).find(|i| (to_f(bt, again[*i]) - to_f(bt, twice[*i])).abs() > tol) {
                        return bad("profile", format!("{what}: the profile of the result isn't {dst:?}: converting again changes sample {i} from {} to {}", to_f(bt, again[i]), to_f(bt, twice[i])));
                    }
                }
            }
            Ok(())
        }
    }
}

/// a chain of transformations ends where the last one leads
fn sequences(ch: &mut Ch) -> Res {
    let (cs, l) = ch.pick(&[(ColorSpace::RGB, Layout::Rgb), (ColorSpace::RGBA, Layout::Rgba)]);
    let bt = ch.pick(&DEPTHS);
    let first = ch.pick(&DEST);
    let m = M::unique(4, 3, cs, bt, 1);
    let mut im = m.image();
    im.metadata_mut().set_icc_chunk(profile(first).encode().unwrap());
    let mut at = profile(first).encode().unwrap();
    let mut inter = m.inter(0);
    let mut what = format!("{first:?} {}", m.short());
    let n = 2 + ch.choose(if ch.thorough() { 3 } else { 2 });
    for _ in 0..n {
        let d = ch.pick(&DEST);
        what = format!("{what} to {d:?}");
        match guard(|| ColorTransform::new(d).execute(&mut im)) {
            Ok(Ok(())) => {}
            r => return bad("refused", format!("{what}: {r:?}"))
        }
        inter = by_library(&at, d, l, bt, &inter).unwrap();
        at = profile(d).encode().unwrap();
        let got = model_of(&im).inter(0);
        let tol = 0.012 * max_of(bt);
        if let Some(i) = (0..got.len()).find(|i| !((to_f(bt, got[*i]) - to_f(bt, inter[*i])).abs() <= tol)) {
            return bad("chain", format!("{what}: sample {i} is {}, expected {}", to_f(bt, got[i]), to_f(bt, inter[i])));
        }
    }
    obs_image(ch, &im);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    Ok(())
}
