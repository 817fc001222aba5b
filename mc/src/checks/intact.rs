//! C42 failed operations leave the image intact
use super::ops::*;
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C42",
        level: "model_checking",
        rule: "every operation with a list of parameters including meaningless ones (zero, negative, huge, not a number), on every colour space, depth, alpha state, and small dimensions (from 1x1 up) and frame counts, and every sequence of operations from the list up to the bound; a failed operation must leave dimensions, colour space, depth, alpha state and every sample as they were, a successful one an image whose channels fit its dimensions, depth and colour space; a state is (operation, image kind)",
        assumptions: &["images have at least one pixel"],
        scenarios: |_| vec![
            Scenario { name: "operations", f: operations },
            Scenario { name: "conversions", f: conversions_ },
            Scenario { name: "sequences", f: sequences },
            Scenario { name: "unfaithful", f: unfaithful }
        ]
    }]
}

const CS: [ColorSpace; 12] = [
    ColorSpace::RGBA,
    ColorSpace::RGB,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::ARGB,
    ColorSpace::BGRA,
    ColorSpace::BGR,
    ColorSpace::YCbCr,
    ColorSpace::CMYK,
    ColorSpace::YCCK,
    ColorSpace::HSL,
    ColorSpace::HSV
];

fn all_cs() -> Vec<ColorSpace> {
    let mut v = CS.to_vec();
    v.extend([multi(1), multi(2), multi(3), multi(4), multi(5)]);
    v
}

fn all_ops() -> Vec<Op> {
    CHANNELWISE.iter().chain(OTHERS).copied().collect()
}

fn attempt(ch: &mut Ch, im: &mut Image, op: &dyn OperationsTrait, what: &str) -> Result<bool, Bad> {
    let before = model_of(im);
    let alpha = im.metadata().alpha();
    let pre = im.metadata().is_premultiplied_alpha();
    match guard(|| op.execute(im)) {
        Err(e) => Err(Bad { key: format!("panic:{}", panic_class(&e)), msg: format!("{what}: panics ({e})") }),
        Ok(Err(e)) => {
            ch.obs(1);
            same(im, &before, &format!("{what}: after the error {e:?}"))?;
            if im.metadata().is_premultiplied_alpha() != pre {
                bad("alpha-state", format!("{what}: changed the alpha state from {alpha:?} while failing with {e:?}"))?;
            }
            Ok(false)
        }
        Ok(Ok(())) => {
            ch.obs(2);
            obs_image(ch, im);
            if let Err(e) = valid(im) {
                bad("invalid", format!("{what}: succeeded, but {e}"))?;
            }
            if im.frames_ref().len() != before.f.len() {
                bad("frames", format!("{what}: {} frames instead of {}", im.frames_ref().len(), before.f.len()))?;
            }
            Ok(true)
        }
    }
}

fn kind(ch: &mut Ch, css: &[ColorSpace]) -> (Image, String) {
    let cs = *ch.pick_ref(css);
    let bt = ch.pick(&DEPTHS);
    let mut dims = vec![(4usize, 3usize), (1, 1), (1, 4), (5, 1), (2, 2)];
    if ch.thorough() {
        dims.extend([(3, 3), (1, 2), (2, 1), (7, 2), (2, 9), (8, 8)]);
    }
    let (w, h) = *ch.pick_ref(&dims);
    let frames = if (w, h) == (4, 3) { ch.pick(&[1usize, 2, 3]) } else { 1 };
    let m = M::new(w, h, cs, bt, frames, |f, c, i| match bt {
        // out of range samples too
        BitType::F32 if c == 0 && i % 5 == 3 => [1.5f32, -0.25, 0.0][f % 3].to_bits(),
        _ => distinct(bt, f * 50 + c * 13 + i)
    });
    let mut im = m.image();
    if cs.has_alpha() && frames == 1 && ch.flag() {
        im.metadata_mut().set_alpha(AlphaState::PreMultiplied);
    }
    (im, m.short())
}

fn operations(ch: &mut Ch) -> Res {
    let ops = all_ops();
    let (name, make) = *ch.pick_ref(&ops);
    let (mut im, kind) = kind(ch, &all_cs());
    let what = format!("{name} on {kind}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    attempt(ch, &mut im, &*make(), &what)?;
    Ok(())
}

fn conversions_(ch: &mut Ch) -> Res {
    let to = *ch.pick_ref(&conversions());
    let (mut im, kind) = kind(ch, &all_cs());
    let what = format!("conversion of {kind} to {to:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    attempt(ch, &mut im, &*convert(to), &what)?;
    Ok(())
}

/// Any operation after any other, on what the first one left
fn sequences(ch: &mut Ch) -> Res {
    let ops = all_ops();
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::RGB, multi(3)]);
    let bt = ch.pick(&DEPTHS);
    let m = M::unique(3, 2, cs, bt, 1);
    let mut im = m.image();
    let mut what = m.short();
    let n = if ch.thorough() && cs == ColorSpace::RGBA && bt == BitType::U8 { 3 } else { 2 };
    for _ in 0..n {
        let i = ch.choose(ops.len() + 3);
        let (name, op) = if i < ops.len() {
            (ops[i].0.to_string(), (ops[i].1)())
        } else {
            let c = [ColorSpace::LumaA, ColorSpace::HSV, ColorSpace::CMYK][i - ops.len()];
            (format!("convert to {c:?}"), convert(c))
        };
        what = format!("{what}, {name}");
        attempt(ch, &mut im, &*op, &what)?;
        let (w, h) = im.dimensions();
        // empty images (a crop of no width, a rotation by no number) are not processed further
        if w * h > 4096 || w * h == 0 {
            break;
        }
    }
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    Ok(())
}

/// an operation that leaves an image inconsistent, or is given one, doesn't succeed
struct Breaks {
    what: usize,
    frame: usize,
    channel: usize
}
impl Breaks {
    fn apply(&self, im: &mut Image) {
        let (w, h) = im.dimensions();
        let fr = &mut im.frames_mut()[self.frame];
        let n = fr.channels_vec().len();
        let c = self.channel % n;
        match self.what {
            0 => im.set_dimensions(w + 1, h),
            1 => im.set_dimensions(w, h + 3),
            2 => drop(fr.channels_vec().remove(c)),
            3 => {
                let x = fr.channels_vec()[c].clone();
                fr.channels_vec().push(x);
            }
            4 => fr.channels_vec()[c].push(9u8),
            _ => fr.channels_vec()[c] = Channel::new::<u8>()
        }
    }
}
impl OperationsTrait for Breaks {
    fn name(&self) -> &'static str {
        "breaks the image"
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        self.apply(image);
        Ok(())
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8, BitType::U16, BitType::F32]
    }
}
fn unfaithful(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::RGB, ColorSpace::LumaA, multi(3)]);
    let bt = ch.pick(&DEPTHS);
    let frames = ch.choose(4) + 1;
    let b = Breaks { what: ch.choose(6), frame: ch.choose(frames), channel: ch.choose(cs.num_components()) };
    let m = M::unique(3, 2, cs, bt, frames);
    let before = ch.flag();
    let mut im = m.image();
    let what = format!("{} broken in way {} at frame {} channel {}, before {before}", m.short(), b.what, b.frame, b.channel);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    if before {
        b.apply(&mut im);
        let all = all_ops();
        let (name, op) = ch.pick_ref(&all);
        match guard(|| op().execute(&mut im)) {
            Err(e) => bad(format!("panic:{}", panic_class(&e)), format!("{name} on {what}: panics ({e})")),
            Ok(Ok(())) => bad("inconsistent", format!("{name} succeeds on {what}")),
            Ok(Err(_)) => Ok(())
        }
    } else {
        match b.execute(&mut im) {
            Ok(()) => bad("inconsistent", format!("{what}: the operation that did it succeeds")),
            Err(_) => Ok(())
        }
    }
}
