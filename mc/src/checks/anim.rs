//! C44 animated images read as the canvases an APNG player shows
use super::png::{fctl, Fr};
use crate::engine::*;
use crate::imgs::*;
use crate::refs::png::*;
use crate::util::*;
use crate::Check;
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zune_image::image::Image;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C44",
        level: "model_checking",
        rule: "every sequence of animation frames up to the bound over regions (every region of small canvases), disposal and blend operations, delays, colour types and a default image that is or is not part of the animation, read as an image and compared frame by frame with a model of the APNG canvas; a state is a distinct canvas",
        assumptions: &["alpha values are 0 or 255 in blended frames, so that the result does not depend on gamma"],
        scenarios: |_| vec![Scenario { name: "canvas", f: canvas }, Scenario { name: "regions", f: regions }, Scenario { name: "still", f: still }]
    }]
}

struct Anim {
    base:     Spec,
    first_in: bool,
    list:     Vec<Fr>
}
impl Anim {
    fn file(&self) -> Vec<u8> {
        let b = &self.base;
        let mut o = b.head();
        o.extend(chunk("acTL", &[(self.list.len() as u32).to_be_bytes(), 0u32.to_be_bytes()].concat()));
        let filt = [1u8, 4, 2];
        let z = |w, h, s: &[u16]| compress(&filtered(w, h, b.color, b.depth, b.adam7, s, &filt), Pack::Fixed);
        let mut seq = 0;
        if !self.first_in {
            o.extend(chunk("IDAT", &z(b.w, b.h, &b.samples)));
        }
        for (k, f) in self.list.iter().enumerate() {
            o.extend(fctl(seq, f));
            seq += 1;
            let d = z(f.w, f.h, &f.samples);
            if k == 0 && self.first_in {
                o.extend(chunk("IDAT", &d));
            } else {
                o.extend(chunk("fdAT", &[&(seq as u32).to_be_bytes()[..], &d].concat()));
                seq += 1;
            }
        }
        o.extend(chunk("IEND", &[]));
        o
    }
    fn out(&self, s: &[u16]) -> Out {
        expect(self.base.color, self.base.depth, s, &self.base.palette, &self.base.trns)
    }
    /// the canvases shown
    fn play(&self) -> Vec<Vec<u8>> {
        let b = &self.base;
        let nc = self.out(&b.samples).nc;
        let alpha = nc == 2 || nc == 4;
        let mut canvas = vec![0u8; b.w * b.h * nc];
        let mut shown = vec![];
        for (k, f) in self.list.iter().enumerate() {
            let before = canvas.clone();
            let px = self.out(&f.samples).v;
            for j in 0..f.h {
                for i in 0..f.w {
                    let p = &px[(j * f.w + i) * nc..][..nc];
                    if alpha && f.blend == 1 && p[nc - 1] == 0 {
                        continue;
                    }
                    for c in 0..nc {
                        canvas[((j + f.y) * b.w + i + f.x) * nc + c] = p[c] as u8;
                    }
                }
            }
            shown.push(canvas.clone());
            // the first frame has nothing to go back to
            match if k == 0 && f.dispose == 2 { 1 } else { f.dispose } {
                1 => {
                    for j in 0..f.h {
                        canvas[((j + f.y) * b.w + f.x) * nc..][..f.w * nc].fill(0);
                    }
                }
                2 => canvas = before,
                _ => {}
            }
        }
        shown
    }
}
fn a_anim(ch: &mut Ch, kinds: &[(u8, u8, bool)], most: usize) -> Anim {
    let (color, depth, tr) = *ch.pick_ref(kinds);
    let mut base = Spec::new(4, 3, color, depth, false, 21);
    if tr {
        base.trns = Some(Trns::Pal((0..base.palette.len()).map(|i| if i % 2 == 0 { 255 } else { 0 }).collect()));
    }
    let first_in = ch.flag();
    let n = 1 + ch.choose(most);
    let mut list = vec![];
    for k in 0..n {
        let (w, h, x, y) = if k == 0 && first_in { (4, 3, 0, 0) } else { ch.pick(&[(4usize, 3usize, 0usize, 0usize), (2, 2, 1, 1), (1, 3, 3, 0)]) };
        let mut s = Spec::new(w, h, color, depth, false, 100 + k as u64).samples;
        if color == 4 || color == 6 {
            let nc = comps(color);
            for (i, p) in s.chunks_mut(nc).enumerate() {
                p[nc - 1] = if (i + k) % 3 == 0 { 0 } else { 255 };
            }
        }
        let dispose = ch.choose(3) as u8;
        let blend = ch.choose(2) as u8;
        list.push(Fr { w, h, x, y, num: 1 + 300 * k as u16, den: 10 + k as u16, dispose, blend, samples: s, cuts: 0 });
    }
    Anim { base, first_in, list }
}
fn describe(a: &Anim) -> String {
    format!(
        "colour {} depth {} transparency {} default image in the animation: {}, frames {:?}",
        a.base.color, a.base.depth, a.base.trns.is_some(), a.first_in,
        a.list.iter().map(|f| (f.w, f.h, f.x, f.y, ["none", "background", "previous"][f.dispose as usize], ["source", "over"][f.blend as usize])).collect::<Vec<_>>()
    )
}
/// a full frame, a frame of any region, and another one
fn regions(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&[(6u8, 8u8), (4, 8), (2, 8)]);
    let (cw, chh) = ch.pick(&[(4usize, 3usize), (1, 4), (9, 2)]);
    let base = Spec::new(cw, chh, color, depth, false, 21);
    let first_in = ch.flag();
    let mut list = vec![];
    let mut all = vec![];
    for h in 1..=chh {
        for w in 1..=cw {
            for y in 0..=chh - h {
                for x in 0..=cw - w {
                    all.push((w, h, x, y));
                }
            }
        }
    }
    for k in 0..3 {
        let (w, h, x, y) = match k {
            0 => (cw, chh, 0, 0),
            1 => *ch.pick_ref(&all),
            _ if ch.thorough() && cw != 9 => *ch.pick_ref(&all),
            _ => *ch.pick_ref(&[(1, 1, 0, 0), (cw, 1, 0, chh - 1), (1, chh, cw - 1, 0)])
        };
        let mut s = Spec::new(w, h, color, depth, false, 100 + k as u64).samples;
        if color != 2 {
            let nc = comps(color);
            for (i, p) in s.chunks_mut(nc).enumerate() {
                p[nc - 1] = if (i + k) % 3 == 0 { 0 } else { 255 };
            }
        }
        let (dispose, blend) = match k {
            1 => (ch.choose(3) as u8, ch.choose(2) as u8),
            0 => (0, 0),
            _ => (ch.choose(3) as u8, 1)
        };
        list.push(Fr { w, h, x, y, num: 5 + k as u16, den: 1000 - k as u16, dispose, blend, samples: s, cuts: 0 });
    }
    // shows what the disposal of the last region left
    let mut s = Spec::new(1, 1, color, depth, false, 7).samples;
    if color != 2 {
        *s.last_mut().unwrap() = 255;
    }
    list.push(Fr { w: 1, h: 1, x: cw / 2, y: 0, num: 65535, den: 1, dispose: 0, blend: 0, samples: s, cuts: 0 });
    plays(ch, Anim { base, first_in, list })
}
fn canvas(ch: &mut Ch) -> Res {
    let most = if ch.thorough() { 5 } else { 3 };
    let a = if ch.thorough() {
        a_anim(ch, &[(6, 8, false), (3, 4, true), (2, 8, false)], most)
    } else {
        a_anim(ch, &[(6, 8, false), (3, 4, true), (2, 8, false), (4, 8, false), (0, 2, false)], most)
    };
    plays(ch, a)
}
fn plays(ch: &mut Ch, a: Anim) -> Res {
    let what = describe(&a);
    ch.note(|| what.clone());
    let im = match Image::read(ZCursor::new(&a.file()), DecoderOptions::default()) {
        Ok(i) => i,
        Err(e) => return bad("decode-error", format!("{what}: {e:?}"))
    };
    if im.dimensions() != (a.base.w, a.base.h) {
        return bad("dimensions", format!("{what}: {:?}", im.dimensions()));
    }
    let want = a.play();
    let got = im.flatten_to_u8();
    if got.len() != want.len() {
        return bad("frames", format!("{what}: {} frames, expected {}", got.len(), want.len()));
    }
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        ch.state(hash_bytes(w));
        ch.obs_bytes(g);
        if g != w {
            return bad("canvas", format!("{what}: frame {k}: {}", first_diff(g, w)));
        }
        let (f, t) = (&im.frames_ref()[k], &a.list[k]);
        if (f.numerator(), f.denominator()) != (usize::from(t.num), usize::from(t.den)) {
            return bad("delay", format!("{what}: frame {k} is shown for {}/{} seconds, expected {}/{}", f.numerator(), f.denominator(), t.num, t.den));
        }
    }
    Ok(())
}
/// when animations are not wanted, the default image is what is read
fn still(ch: &mut Ch) -> Res {
    let a = a_anim(ch, &[(6, 8, false), (3, 4, true), (2, 8, false), (4, 8, false), (0, 2, false), (6, 16, false)], 2);
    let what = describe(&a);
    ch.note(|| what.clone());
    let im = match Image::read(ZCursor::new(&a.file()), DecoderOptions::default().png_set_decode_animated(false)) {
        Ok(i) => i,
        Err(e) => return bad("decode-error", format!("{what}: {e:?}"))
    };
    let want = a.out(if a.first_in { &a.list[0].samples } else { &a.base.samples });
    ch.state(hash_bytes(&want.bytes(true)));
    let m = model_of(&im);
    if im.frames_ref().len() != 1 {
        return bad("still-frames", format!("{what}: {} frames", im.frames_ref().len()));
    }
    let got = m.bytes(0, true);
    ch.obs_bytes(&got);
    if got != want.bytes(true) {
        return bad("still", format!("{what}: {}", first_diff(&got, &want.bytes(true))));
    }
    Ok(())
}
