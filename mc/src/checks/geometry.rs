//! C33 geometric operations
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::colorspace::ColorSpace;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::transpose::Transpose;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C33",
        level: "model_checking",
        rule: "every operation on every image size, depth, colour space and frame count in the bound with all samples distinct, and every sequence of operations up to the depth bound on small images, compared sample by sample with an index-map model; a state is (width, height, permutation)",
        assumptions: &["rotation is only claimed for multiples of 90 degrees"],
        scenarios: |_| vec![
            Scenario { name: "single", f: single },
            Scenario { name: "sizes", f: sizes },
            Scenario { name: "large", f: large },
            Scenario { name: "crop", f: crop },
            Scenario { name: "sequences", f: sequences }
        ]
    }]
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum G {
    FlipH,
    FlipV,
    FlipX,
    North,
    South,
    East,
    West,
    Transpose,
    Rot(i32),
    Crop(usize, usize, usize, usize)
}

pub fn op_of(g: G) -> Box<dyn OperationsTrait> {
    match g {
        G::FlipH => Box::new(Flip::new(FlipDirection::Horizontal)),
        G::FlipV => Box::new(Flip::new(FlipDirection::Vertical)),
        G::FlipX => Box::new(Flip::new(FlipDirection::MirrorXAxis)),
        G::North => Box::new(Mirror::new(MirrorMode::North)),
        G::South => Box::new(Mirror::new(MirrorMode::South)),
        G::East => Box::new(Mirror::new(MirrorMode::East)),
        G::West => Box::new(Mirror::new(MirrorMode::West)),
        G::Transpose => Box::new(Transpose::new()),
        G::Rot(a) => Box::new(Rotate::new(a as f32)),
        G::Crop(w, h, x, y) => Box::new(Crop::new(w, h, x, y))
    }
}
/// None: the request does not fit and has to fail
pub fn model(m: &M, g: G) -> Option<M> {
    let (w, h) = (m.w, m.h);
    Some(match g {
        G::FlipH => m.remap(w, h, |x, y| (w - 1 - x, y)),
        G::FlipV => m.remap(w, h, |x, y| (x, h - 1 - y)),
        G::FlipX => m.remap(w, h, |x, y| (w - 1 - x, h - 1 - y)),
        G::North => m.remap(w, h, |x, y| (x, y.min(h - 1 - y))),
        G::South => m.remap(w, h, |x, y| (x, y.max(h - 1 - y))),
        G::East => m.remap(w, h, |x, y| (x.min(w - 1 - x), y)),
        G::West => m.remap(w, h, |x, y| (x.max(w - 1 - x), y)),
        G::Transpose => m.remap(h, w, |x, y| (y, x)),
        G::Rot(a) => match a.rem_euclid(360) {
            0 => m.clone(),
            // clockwise
            90 => m.remap(h, w, |x, y| (y, h - 1 - x)),
            180 => m.remap(w, h, |x, y| (w - 1 - x, h - 1 - y)),
            _ => m.remap(h, w, |x, y| (w - 1 - y, x))
        },
        G::Crop(cw, chh, cx, cy) => {
            if cx.checked_add(cw)? > w || cy.checked_add(chh)? > h {
                return None;
            }
            m.remap(cw, chh, |x, y| (x + cx, y + cy))
        }
    })
}

const FIXED: &[G] = &[
    G::Transpose,
    G::FlipH,
    G::FlipV,
    G::FlipX,
    G::North,
    G::South,
    G::East,
    G::West,
    G::Rot(90),
    G::Rot(180),
    G::Rot(270),
    G::Rot(0),
    G::Rot(360),
    G::Rot(450),
    G::Rot(-90)
];

pub fn step(m: &M, im: &mut zune_image::image::Image, g: G, what: &str) -> Result<Option<M>, Bad> {
    let r = op_of(g).execute(im);
    match (model(m, g), r) {
        (Some(n), Ok(())) => {
            same(im, &n, what)?;
            Ok(Some(n))
        }
        (Some(_), Err(e)) => bad("refused", format!("{what}: failed: {e:?}")),
        (None, Ok(())) => bad("accepted", format!("{what}: a request outside the image succeeded")),
        (None, Err(_)) => {
            same(im, m, &format!("{what} (failed)"))?;
            Ok(None)
        }
    }
}

fn single(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGBA, multi(5)]);
    let bt = ch.pick(&DEPTHS);
    let g = ch.pick(FIXED);
    let frames = ch.pick(&[1usize, 2, 3]);
    let w = ch.pick(&[3usize, 1, 2, 4, 5, 8, 9]);
    let h = ch.pick(&[2usize, 1, 3, 4, 5, 8, 17]);
    let m = M::unique(w, h, cs, bt, frames);
    let mut im = m.image();
    step(&m, &mut im, g, &format!("{g:?} of {}", m.short()))?;
    ch.state((w * 100 + h) as u64);
    obs_image(ch, &im);
    ch.note(|| format!("{g:?} of {}", m.short()));
    Ok(())
}

fn sizes(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let g = ch.pick(&FIXED[..11]);
    let top = if ch.thorough() { 41 } else { 26 };
    let w = 1 + ch.choose(top);
    let h = 1 + ch.choose(top);
    let m = M::unique(w, h, ColorSpace::Luma, bt, 1);
    let mut im = m.image();
    step(&m, &mut im, g, &format!("{g:?} of {}", m.short()))?;
    ch.state((w * 100 + h) as u64);
    obs_image(ch, &im);
    Ok(())
}

/// images with more than 255 and more than 65535 samples in a direction or in all
fn large(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&LONG);
    let bt = ch.pick(&DEPTHS);
    let i = ch.choose(11 + 6);
    let g = match i {
        0..=10 => FIXED[i],
        11 => G::Crop(w.max(2) - 1, h.max(2) - 1, w.min(2) - 1, h.min(2) - 1),
        12 => G::Crop(1, 1, w - 1, h - 1),
        13 => G::Crop(w.min(280), h.min(280), w - w.min(280), h - h.min(280)),
        14 => G::Crop(w.div_ceil(2), h, w / 2, 0),
        15 => G::Crop(w, h.div_ceil(2), 0, h / 2),
        _ => G::Crop(w, h, 1, 0)
    };
    let m = M::hashed(w, h, if h == 70 { ColorSpace::RGBA } else { ColorSpace::LumaA }, bt, 1);
    let mut im = m.image();
    step(&m, &mut im, g, &format!("{g:?} of {}", m.short()))?;
    ch.state((w * 100 + h) as u64);
    obs_image(ch, &im);
    ch.note(|| format!("{g:?} of {}", m.short()));
    Ok(())
}

fn crop(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGBA]);
    let top = if ch.thorough() { 5 } else { 4 };
    let w = 1 + ch.choose(top);
    let h = 1 + ch.choose(top);
    let big = usize::MAX;
    let mut v: Vec<usize> = (1..=top + 1).collect();
    v.push(big);
    v.push(1 << 63);
    let cw = ch.pick(&v);
    let chh = ch.pick(&v);
    let mut v: Vec<usize> = (0..=top + 1).collect();
    v.push(big);
    let x = ch.pick(&v);
    let y = ch.pick(&v);
    let m = M::unique(w, h, cs, bt, 1);
    let mut im = m.image();
    let g = G::Crop(cw, chh, x, y);
    let r = step(&m, &mut im, g, &format!("{g:?} of {}", m.short()))?;
    if r.is_none() {
        ch.obs(1);
    }
    obs_image(ch, &im);
    Ok(())
}

fn sequences(ch: &mut Ch) -> Res {
    let bt = ch.pick(&[zune_core::bit_depth::BitType::U16, zune_core::bit_depth::BitType::U8, zune_core::bit_depth::BitType::F32]);
    let (w, h) = ch.pick(&[(3usize, 2usize), (1, 4), (5, 5), (9, 3)]);
    let mut m = M::unique(w, h, ColorSpace::LumaA, bt, 1);
    let mut im = m.image();
    let depth = if ch.thorough() { 4 } else { 3 };
    let mut hist = m.short();
    for _ in 0..depth {
        let i = ch.choose(14);
        let g = match i {
            0..=10 => FIXED[i],
            11 => G::Crop(m.w.max(2) - 1, m.h, m.w.min(2) - 1, 0),
            12 => G::Crop(m.w, m.h.max(2) - 1, 0, 0),
            _ => G::Crop(m.w, m.h, 1, 0)
        };
        hist.push_str(&format!(" {g:?}"));
        if let Some(n) = step(&m, &mut im, g, &hist)? {
            m = n;
        }
        ch.state(hash_bytes(format!("{m:?}").as_bytes()));
    }
    obs_image(ch, &im);
    ch.note(|| hist.clone());
    Ok(())
}
