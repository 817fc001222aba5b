//! C31 pipelines
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use std::cell::RefCell;
use std::rc::Rc;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::colorspace::ColorSpace;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::pipelines::Pipeline;
use zune_image::traits::{IntoImage, OperationsTrait};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C31",
        level: "model_checking",
        rule: "every sequence of chaining images, decoders and operations (succeeding and failing in every way an operation can fail) and advancing the pipeline, up to the depth bound, plus every combination of images, operation sequence and failing position in one run, compared with a model of the documented steps; a state is (step, operations applied to each image)",
        assumptions: &["operations are deterministic", "after a decoder has failed only the reported error is claimed"],
        scenarios: |_| vec![
            Scenario { name: "histories", f: histories },
            Scenario { name: "runs", f: runs }
        ]
    }]
}

/// an operation that leaves a trace in every sample, or fails in one of the possible ways
#[derive(Copy, Clone, PartialEq, Debug)]
enum O {
    Mark(u16),
    /// fails when the image carries this start value in its first frame, otherwise marks
    FailOn(u16),
    Fail,
    WrongSpace,
    WrongDepth,
    BreaksLength,
    BreaksCount
}
const SP: [ColorSpace; 1] = [ColorSpace::YCCK];
impl OperationsTrait for O {
    fn name(&self) -> &'static str {
        "traced operation"
    }
    fn supported_colorspaces(&self) -> &'static [ColorSpace] {
        if *self == O::WrongSpace {
            &SP
        } else {
            &zune_core::colorspace::ALL_COLORSPACES
        }
    }
    fn supported_types(&self) -> &'static [BitType] {
        if *self == O::WrongDepth {
            &[BitType::F32]
        } else {
            &[BitType::U16]
        }
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        match self {
            O::Fail => return Err(ImageErrors::GenericStr("told to fail")),
            O::FailOn(id) => {
                let v = plane_of(image.frames_ref()[0].channels_vec_ref().last().unwrap())[0];
                if v == *id as u32 {
                    return Err(ImageErrors::GenericStr("told to fail on this image"));
                }
                mark(image, 9);
            }
            O::Mark(k) => mark(image, *k),
            O::BreaksLength => image.set_dimensions(3, 1),
            O::BreaksCount => {
                image.frames_mut()[0].channels_vec().pop();
            }
            _ => mark(image, 77)
        }
        Ok(())
    }
}
fn mark(image: &mut Image, k: u16) {
    for f in image.frames_mut() {
        for c in f.channels_vec() {
            for v in c.reinterpret_as_mut::<u16>().unwrap() {
                *v = v.wrapping_mul(11).wrapping_add(k);
            }
        }
    }
}
/// two channels: the first starts at 0 and only records the operations, the second the image's identity
fn image(id: u16, frames: usize) -> Image {
    M::new(2, 1, ColorSpace::LumaA, BitType::U16, frames, |k, c, i| if c == 0 { 0 } else { id as u32 + (k * 2 + i) as u32 * 40 }).image()
}
#[derive(Clone, PartialEq, Debug)]
struct Im {
    id:     u16,
    frames: usize,
    ops:    Vec<u16>,
    broken: bool
}
impl Im {
    fn check(&self, im: &Image, what: &str) -> Res {
        if self.broken {
            return Ok(());
        }
        let m = M::new(2, 1, ColorSpace::LumaA, BitType::U16, self.frames, |k, c, i| {
            let mut v = if c == 0 { 0u16 } else { self.id + (k * 2 + i) as u16 * 40 };
            for o in &self.ops {
                v = v.wrapping_mul(11).wrapping_add(*o);
            }
            v as u32
        });
        same(im, &m, what).or_else(|b| bad("applied", format!("{} (expected operations {:?} on image {})", b.msg, self.ops, self.id)))
    }
}

struct Dec {
    id:   u16,
    fail: bool,
    runs: Rc<RefCell<u32>>
}
impl IntoImage for Dec {
    fn into_image(&mut self) -> Result<Image, ImageErrors> {
        *self.runs.borrow_mut() += 1;
        if self.fail {
            return Err(ImageErrors::GenericStr("decoder told to fail"));
        }
        Ok(image(self.id, 1))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Init,
    Decode,
    Ops,
    Encode,
    Finished,
    End
}
struct Model {
    st:   St,
    dec:  Option<(u16, bool, Rc<RefCell<u32>>)>,
    imgs: Vec<Im>,
    ops:  Vec<O>,
    /// a failing decoder was consumed
    lost: bool
}
impl Model {
    fn advance(&mut self) -> bool {
        match self.st {
            St::Init => self.st = St::Decode,
            St::Decode => match self.dec.take() {
                None => {
                    if self.imgs.is_empty() {
                        return false;
                    }
                    self.st = St::Ops;
                }
                Some((id, fail, _)) => {
                    if fail {
                        self.lost = true;
                        return false;
                    }
                    self.imgs.push(Im { id, frames: 1, ops: vec![], broken: false });
                    self.st = St::Ops;
                }
            },
            St::Ops => {
                if self.imgs.is_empty() {
                    return false;
                }
                let ops = self.ops.clone();
                for im in self.imgs.iter_mut() {
                    if im.broken {
                        return ops.is_empty();
                    }
                    for o in &ops {
                        match o {
                            O::Mark(k) => im.ops.push(*k),
                            O::FailOn(id) => {
                                if im.ops.is_empty() && im.id == *id {
                                    return false;
                                }
                                im.ops.push(9);
                            }
                            O::BreaksLength | O::BreaksCount => {
                                im.broken = true;
                                return false;
                            }
                            _ => return false
                        }
                    }
                }
                self.st = St::Encode;
            }
            St::Encode => self.st = St::Finished,
            St::Finished => self.st = St::End,
            St::End => {}
        }
        true
    }
    fn to_end(&mut self) -> bool {
        while self.st != St::End {
            if !self.advance() {
                return false;
            }
        }
        true
    }
    fn key(&self) -> u64 {
        hash_bytes(format!("{:?} {:?} {:?} {:?}", self.st, self.imgs, self.ops, self.dec.as_ref().map(|d| d.0)).as_bytes())
    }
    fn check(&self, p: &Pipeline, what: &str) -> Res {
        let ims = p.images();
        if ims.len() != self.imgs.len() {
            return bad("images", format!("{what}: the pipeline holds {} images, expected {}", ims.len(), self.imgs.len()));
        }
        for (k, (i, m)) in ims.iter().zip(&self.imgs).enumerate() {
            m.check(i, &format!("{what}: image {k}"))?;
        }
        Ok(())
    }
}
fn new_model() -> Model {
    Model { st: St::Init, dec: None, imgs: vec![], ops: vec![], lost: false }
}
fn step(p: &mut Pipeline, m: &mut Model, end: bool, ch: &mut Ch, what: &str) -> Result<bool, Bad> {
    let dec = m.dec.clone();
    let (ok, exp) = if end { (p.advance_to_end().is_ok(), m.to_end()) } else { (p.advance().is_ok(), m.advance()) };
    ch.note(|| format!("{} -> ok={ok} (expected {exp})", if end { "advance_to_end" } else { "advance" }));
    if ok != exp {
        return bad(
            if ok { "missed-error" } else { "spurious-error" },
            format!("{what}: {} returned {}, expected {}", if end { "advance_to_end" } else { "advance" }, if ok { "success" } else { "an error" }, if exp { "success" } else { "an error" })
        );
    }
    if let Some((_, _, runs)) = dec {
        let n = *runs.borrow();
        let e = m.dec.is_none() as u32;
        if n != e {
            return bad("decoder-runs", format!("{what}: the decoder ran {n} times, expected {e}"));
        }
    }
    m.check(p, what)?;
    ch.state(m.key());
    ch.obs(ok as u64);
    Ok(exp)
}

fn histories(ch: &mut Ch) -> Res {
    let depth = if ch.thorough() { 7 } else { 6 };
    let mut p = Pipeline::new();
    let mut m = new_model();
    let mut trail = String::new();
    let mut next = 1u16;
    for _ in 0..depth {
        let a = ch.choose(11);
        let what;
        match a {
            0 => {
                let frames = 1 + m.imgs.len() % 2;
                p.chain_image(image(next, frames));
                m.imgs.push(Im { id: next, frames, ops: vec![], broken: false });
                next += 1;
                what = "image".to_string();
            }
            1 | 2 => {
                let runs = Rc::new(RefCell::new(0));
                p.chain_decoder(Box::new(Dec { id: next, fail: a == 2, runs: runs.clone() }));
                m.dec = Some((next, a == 2, runs));
                next += 1;
                what = format!("decoder({})", if a == 2 { "failing" } else { "ok" });
            }
            3..=8 => {
                let o = [O::Mark(1), O::Mark(2), O::FailOn(2), O::WrongSpace, O::WrongDepth, O::BreaksLength][a - 3];
                p.chain_operations(Box::new(o));
                m.ops.push(o);
                what = format!("{o:?}");
            }
            _ => {
                what = if a == 9 { "advance" } else { "advance_to_end" }.to_string();
                trail.push_str(&what);
                if !step(&mut p, &mut m, a == 10, ch, &trail)? {
                    after_error(&mut p, &mut m, &trail)?;
                    break;
                }
                trail.push(' ');
                continue;
            }
        }
        ch.note(|| what.clone());
        trail.push_str(&what);
        trail.push(' ');
    }
    ch.obs(hash_bytes(trail.as_bytes()));
    Ok(())
}
/// an operation that keeps failing keeps the pipeline from reporting success
fn after_error(p: &mut Pipeline, m: &mut Model, trail: &str) -> Res {
    if m.lost || m.st != St::Ops || m.imgs.is_empty() {
        return Ok(());
    }
    if p.advance_to_end().is_ok() && m.ops.iter().any(|o| !matches!(o, O::Mark(_) | O::FailOn(_))) {
        return bad("skipped", format!("{trail}: the operation step failed, and advancing again reported success although an operation still cannot succeed"));
    }
    Ok(())
}

fn runs(ch: &mut Ch) -> Res {
    let nimg = ch.choose(4);
    let dec = ch.choose(3);
    let nops = ch.choose(if ch.thorough() { 6 } else { 5 });
    let mut p = Pipeline::new();
    let mut m = new_model();
    let mut trail = format!("{nimg} images, decoder {dec}, operations");
    for k in 0..nimg {
        let frames = 1 + k % 2;
        p.chain_image(image(k as u16 + 1, frames));
        m.imgs.push(Im { id: k as u16 + 1, frames, ops: vec![], broken: false });
    }
    if dec > 0 {
        let runs = Rc::new(RefCell::new(0));
        p.chain_decoder(Box::new(Dec { id: 9, fail: dec == 2, runs: runs.clone() }));
        m.dec = Some((9, dec == 2, runs));
    }
    for i in 0..nops {
        let o = ch.pick(&[O::Mark(1), O::Mark(2), O::Mark(3), O::FailOn(1), O::FailOn(2), O::FailOn(9), O::Fail, O::BreaksCount]);
        // an operation that depends on the image comes first, so that the identity is still there
        if i > 0 && matches!(o, O::FailOn(_)) {
            ch.discard();
            return Ok(());
        }
        p.chain_operations(Box::new(o));
        m.ops.push(o);
        trail.push_str(&format!(" {o:?}"));
    }
    let whole = ch.flag();
    ch.note(|| trail.clone());
    ch.obs(hash_bytes(trail.as_bytes()));
    for _ in 0..if whole { 2 } else { 8 } {
        if !step(&mut p, &mut m, whole, ch, &trail)? {
            return after_error(&mut p, &mut m, &trail);
        }
    }
    let _ = BitDepth::Eight;
    Ok(())
}
