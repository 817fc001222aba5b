//! C38 per-channel work running in parallel
use super::ops::*;
use crate::engine::*;
use crate::imgs::*;
use crate::sched;
use crate::Check;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C38",
        level: "model_checking",
        rule: "every operation that works channel by channel, on every depth and several colour spaces and frame counts, under every order in which the threads it creates can run (orders), and additionally with one preemption at every allocation of every thread in favour of every other waiting thread (preemptions); every non-empty set of channels made invalid under every order (faults); copying a large image under every order (copies); the expected image comes from running the operation on each channel alone; a state is (operation, depth, colour space, frames, order, preemption)",
        assumptions: &["threads are scheduled by holding them in an interposed pthread_create; within a thread the preemption points are its allocations", "whether an alpha channel is processed is a matter of the operation, both are accepted; resize of images with alpha is compared with the sequential order only"],
        scenarios: |_| vec![
            Scenario { name: "orders", f: orders },
            Scenario { name: "preemptions", f: preemptions },
            Scenario { name: "faults", f: faults },
            Scenario { name: "copies", f: copies }
        ]
    }]
}

const W: usize = 4;
const H: usize = 3;

fn sample(bt: BitType, f: usize, c: usize, i: usize) -> u32 {
    let v = ((i * i * 31 + i * 57 + c * 83 + f * 29 + 11) % 241) as f64 / 255.0;
    from_f(bt, v * max_of(bt))
}
fn source(cs: ColorSpace, bt: BitType, frames: usize) -> M {
    M::new(W, H, cs, bt, frames, |f, c, i| sample(bt, f, c, i))
}

/// the operation applied to each channel alone, as a one channel image
fn alone(k: usize, bt: BitType, f: usize, c: usize) -> Option<Arc<M>> {
    static CACHE: OnceLock<Mutex<HashMap<(usize, u8, usize, usize), Option<Arc<M>>>>> = OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let key = (k, size_of(bt) as u8, f, c);
    if let Some(r) = cache.lock().unwrap().get(&key) {
        return r.clone();
    }
    let m = M::new(W, H, ColorSpace::Luma, bt, 1, |_, _, i| sample(bt, f, c, i));
    let mut im = m.image();
    let r = match (CHANNELWISE[k].1)().execute(&mut im) {
        Ok(()) => Some(Arc::new(model_of(&im))),
        Err(_) => None
    };
    cache.lock().unwrap().insert(key, r.clone());
    r
}

fn alpha_at(cs: ColorSpace) -> Option<usize> {
    cs.has_alpha().then(|| if cs == ColorSpace::ARGB { 0 } else { cs.num_components() - 1 })
}

/// Compares with the channels processed one after another
fn judge(im: &Image, src: &M, k: usize, what: &str) -> Res {
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    let got = model_of(im);
    if got.f.len() != src.f.len() || got.cs != src.cs || got.bt != src.bt {
        return bad("image", format!("{what}: the result is {}", got.short()));
    }
    for (f, p) in got.f.iter().enumerate() {
        for (c, p) in p.iter().enumerate() {
            let Some(e) = alone(k, src.bt, f, c) else {
                return bad("single", format!("{what}: fails on a single channel"));
            };
            let alpha = alpha_at(src.cs) == Some(c);
            if (e.w, e.h) != (got.w, got.h) {
                return bad("dims", format!("{what}: result {}x{}, alone {}x{}", got.w, got.h, e.w, e.h));
            }
            if p != &e.f[0][0] && !(alpha && p == &src.f[f][c]) {
                let i = (0..p.len()).find(|i| p[*i] != e.f[0][0][*i]).unwrap();
                return bad(
                    if p == &src.f[f][c] { "untouched" } else { "channel" },
                    format!("{what}: frame {f} channel {c} sample {i} is {}, processed alone {} (before: {})", to_f(src.bt, p[i]), to_f(src.bt, e.f[0][0][i]), src.f[f][c].get(i).map_or(-1.0, |v| to_f(src.bt, *v)))
                );
            }
        }
    }
    Ok(())
}

fn key(parts: &[u64]) -> u64 {
    hash_bytes(&parts.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())
}
fn cs_id(c: ColorSpace) -> u64 {
    hash_bytes(format!("{c:?}").as_bytes())
}

fn go(ch: &mut Ch, src: &M, k: usize, preempt: bool) -> Res {
    let (name, make) = CHANNELWISE[k];
    let kk = key(&[1, k as u64, cs_id(src.cs), src.bt as u64, src.f.len() as u64]);
    let p = sched::calibrate(kk, || {
        let _ = make().execute(&mut src.image());
    });
    let order = sched::choose_order(ch, &p);
    let pre = if preempt && p.threads() > 1 {
        if p.created[0] != p.threads() {
            // not all started at once: orders covers it
            ch.discard();
            return Ok(());
        }
        let i = ch.choose(p.threads());
        let a = p.allocs[i];
        if a == 0 {
            ch.discard();
            return Ok(());
        }
        let n = ch.choose(a) + 1;
        let pos = order.iter().position(|x| *x == i).unwrap();
        if pos + 1 == order.len() {
            ch.discard();
            return Ok(());
        }
        let t = order[pos + 1 + ch.choose(order.len() - pos - 1)];
        Some((i, n, t))
    } else {
        None
    };
    let what = format!("{name} on {} with the threads in order {order:?} preemption {pre:?}", src.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let mut im = src.image();
    let r = match sched::scheduled(&p, order, pre, || make().execute(&mut im)) {
        Ok(()) => {
            obs_image(ch, &im);
            if p.threads() < 2 {
                ch.trivial();
            }
            if name.starts_with("resize") && src.cs.has_alpha() {
                let mut seq = src.image();
                let all: Vec<usize> = (0..p.threads()).collect();
                if let Err(e) = sched::scheduled(&p, all, None, || make().execute(&mut seq)) {
                    return bad("sequential", format!("{what}: only the sequential order fails: {e:?}"));
                }
                same(&im, &model_of(&seq), &what)
            } else {
                judge(&im, src, k, &what)
            }
        }
        Err(e) => {
            ch.obs(1);
            ch.trivial();
            // not supported: for every order, and without touching the image
            if (0..src.f.len()).any(|f| (0..src.cs.num_components()).any(|c| alone(k, src.bt, f, c).is_some())) && src.cs == ColorSpace::RGB {
                return bad("error", format!("{what}: {e:?}, but the channels can be processed alone"));
            }
            same(&im, src, &what)
        }
    };
    r
}

fn orders(ch: &mut Ch) -> Res {
    let k = ch.choose(CHANNELWISE.len());
    let bt = ch.pick(&DEPTHS);
    let mut conf = vec![
        (ColorSpace::RGB, 1),
        (ColorSpace::Luma, 1),
        (ColorSpace::LumaA, 1),
        (ColorSpace::RGBA, 1),
        (ColorSpace::Luma, 3),
        (ColorSpace::LumaA, 2),
        (ColorSpace::ARGB, 1),
        (multi(4), 1)
    ];
    if ch.thorough() {
        conf.extend([(ColorSpace::RGB, 2), (multi(5), 1), (ColorSpace::CMYK, 1), (ColorSpace::BGRA, 1), (ColorSpace::YCbCr, 1), (ColorSpace::LumaA, 3)]);
    }
    let (cs, frames) = *ch.pick_ref(&conf);
    go(ch, &source(cs, bt, frames), k, false)
}

fn preemptions(ch: &mut Ch) -> Res {
    let k = ch.choose(CHANNELWISE.len());
    let bt = ch.pick(&DEPTHS);
    let mut conf = vec![(ColorSpace::RGB, 1), (ColorSpace::LumaA, 1), (ColorSpace::Luma, 2)];
    if ch.thorough() {
        conf.extend([(ColorSpace::RGBA, 1), (ColorSpace::LumaA, 2)]);
    }
    let (cs, frames) = *ch.pick_ref(&conf);
    go(ch, &source(cs, bt, frames), k, true)
}

/// a channel with the right number of bytes and another element type
fn wrong(c: &Channel) -> Channel {
    let n = unsafe { c.alias() }.len();
    if c.type_id() == std::any::TypeId::of::<u16>() {
        Channel::new_with_length::<u8>(n)
    } else {
        Channel::new_with_length::<u16>(n)
    }
}

fn faults(ch: &mut Ch) -> Res {
    let k = ch.choose(CHANNELWISE.len());
    let (name, make) = CHANNELWISE[k];
    let bt = ch.pick(&DEPTHS);
    let (cs, frames) = ch.pick(&[(ColorSpace::RGB, 1), (ColorSpace::Luma, 2), (ColorSpace::RGBA, 1)]);
    if cs == ColorSpace::RGBA && !ch.thorough() {
        ch.discard();
        return Ok(());
    }
    let src = source(cs, bt, frames);
    // resize converts the depth of the whole image before it starts threads
    if alone(k, bt, 0, 0).is_none() || name.starts_with("resize") {
        ch.discard();
        return Ok(());
    }
    let colors = if cs.has_alpha() { 3 } else { cs.num_components() };
    let n = colors * frames;
    let mask = ch.choose((1 << n) - 1) + 1;
    let kk = key(&[2, k as u64, cs_id(cs), bt as u64, frames as u64, mask as u64]);
    let build = || {
        let mut im = src.image();
        for (f, fr) in im.frames_mut().iter_mut().enumerate() {
            for c in 0..colors {
                if mask >> (f * colors + c) & 1 == 1 {
                    let chan = &mut fr.channels_mut(cs, false)[c];
                    *chan = wrong(chan);
                }
            }
        }
        im
    };
    let p = sched::calibrate(kk, || {
        let _ = make().execute(&mut build());
    });
    let order = sched::choose_order(ch, &p);
    let what = format!("{name} on {} with wrongly typed channels {mask:b}, threads in order {order:?}", src.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let mut im = build();
    match guard(|| sched::scheduled(&p, order, None, || make().execute(&mut im))) {
        Err(e) => bad("panic", format!("{what}: panics ({e})")),
        Ok(Ok(())) => bad("lost", format!("{what}: reports success")),
        Ok(Err(_)) => {
            ch.obs(mask as u64);
            Ok(())
        }
    }
}

fn copies(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGBA, multi(4)]);
    let frames = ch.pick(&[1usize, 2]);
    // around the size from which copies use threads
    let len = ch.pick(&[1600usize, 999, 1000, 1001, 1002, 250, 251, 500, 501]);
    let src = M::unique(len, 1, cs, bt, frames);
    let im = src.image();
    let kk = key(&[3, cs_id(cs), bt as u64, frames as u64, len as u64]);
    let p = sched::calibrate(kk, || {
        let _ = im.clone();
    });
    if frames == 2 && p.threads() > 6 && !ch.thorough() {
        ch.discard();
        return Ok(());
    }
    let order = sched::choose_order(ch, &p);
    let what = format!("copying {} with the threads in order {order:?}", src.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let mut copy = sched::scheduled(&p, order, None, || im.clone());
    if p.threads() < 2 {
        ch.trivial();
    }
    obs_image(ch, &copy);
    same(&copy, &src, &what)?;
    // the copy is independent
    for c in copy.channels_mut(false) {
        let z = Channel::new_with_length_and_type(len * size_of(bt), c.type_id());
        *c = z;
    }
    same(&im, &src, &format!("{what}: the original after changing the copy"))?;
    let f: &[Frame] = im.frames_ref();
    ch.obs(f.len() as u64);
    Ok(())
}
