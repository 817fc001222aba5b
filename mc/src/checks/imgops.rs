//! C28 building and flattening, C29 colour-space conversion, C30 bit-depth conversion
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use bytemuck::Pod;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;
use zune_image::utils::swizzle_channels;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C28",
            level: "model_checking",
            rule: "every construction route (interleaved slices, planes, frames, function, fill) for every colour space, depth and dimension in the bound with every sample distinct, each followed by every flattening and reading route, compared with a plain plane model; every inconsistent size; every clone-then-write history; a state is (route, colour space, depth, width, height)",
            assumptions: &["a documented panic on a length mismatch counts as rejection"],
            scenarios: |_| vec![
                Scenario { name: "routes", f: routes },
                Scenario { name: "facts", f: facts },
                Scenario { name: "widths", f: widths },
                Scenario { name: "large", f: large },
                Scenario { name: "separate", f: separate },
                Scenario { name: "function", f: function },
                Scenario { name: "modify", f: modify },
                Scenario { name: "reject", f: reject },
                Scenario { name: "clones", f: clones }
            ]
        },
        Check {
            id: "C29",
            level: "model_checking",
            rule: "every ordered pair of colour spaces at every depth over a colour cube, widths around every vector length and one or two frames, compared with the documented formulas in double precision; every unsupported pair; every sequence of exactly invertible conversions up to the bound; a state is (from, to, depth)",
            assumptions: &[
                "the ink values of CMYK are stored inverted, as the 8-bit code and its JPEG test require; the inks of pure black are not constrained",
                "conversions between two of CMYK, HSL and HSV go through RGB, as documented"
            ],
            scenarios: |_| vec![
                Scenario { name: "cube", f: cube },
                Scenario { name: "tails", f: tails },
                Scenario { name: "large", f: large_conversions },
                Scenario { name: "unsupported", f: unsupported },
                Scenario { name: "reorder", f: reorder }
            ]
        },
        Check {
            id: "C30",
            level: "model_checking",
            rule: "every 8-bit and 16-bit value and float values around every rounding boundary through every conversion, and every sequence of depth conversions up to the depth bound, compared with proportional scaling; a state is (recorded depth, depth that last limited precision)",
            assumptions: &["float samples are ordinary numbers (no NaN)"],
            scenarios: |_| vec![
                Scenario { name: "values", f: values },
                Scenario { name: "sequences", f: depth_seq }
            ]
        },
    ]
}

fn spaces() -> Vec<ColorSpace> {
    let mut v = ALL_COLORSPACES.to_vec();
    v.extend([multi(1), multi(2), multi(3), multi(4), multi(5), multi(7)]);
    v
}

fn u8s(v: &[u32]) -> Vec<u8> {
    v.iter().map(|x| *x as u8).collect()
}
fn u16s(v: &[u32]) -> Vec<u16> {
    v.iter().map(|x| *x as u16).collect()
}
fn f32s(v: &[u32]) -> Vec<f32> {
    v.iter().map(|x| f32::from_bits(*x)).collect()
}

/// all the ways of building the image of a one-frame model
const ROUTES: usize = 5;
fn build(m: &M, route: usize) -> Option<Image> {
    let i = m.inter(0);
    let d = depth_of(m.bt);
    Some(match route {
        0 => match m.bt {
            BitType::U8 => Image::from_u8(&u8s(&i), m.w, m.h, m.cs),
            BitType::U16 => Image::from_u16(&u16s(&i), m.w, m.h, m.cs),
            _ => Image::from_f32(&f32s(&i), m.w, m.h, m.cs)
        },
        1 => {
            let f = match m.bt {
                BitType::U8 => Frame::from_u8(&u8s(&i), m.cs, 3, 7),
                BitType::U16 => Frame::from_u16(&u16s(&i), m.cs, 3, 7),
                _ => Frame::from_f32(&f32s(&i), m.cs, 3, 7)
            };
            if f.numerator() != 3 || f.denominator() != 7 {
                return None;
            }
            Image::new_frames(vec![f], d, m.w, m.h, m.cs)
        }
        2 => Image::new(m.f[0].iter().map(|p| channel_of(m.bt, p)).collect(), d, m.w, m.h, m.cs),
        3 => {
            // push and insert channels one after another, starting with the last ones
            let mut f = Frame::new(vec![]);
            for (k, p) in m.f[0].iter().enumerate().rev() {
                if k + 1 == m.f[0].len() {
                    f.push(channel_of(m.bt, p));
                } else {
                    f.insert(0, channel_of(m.bt, p));
                }
            }
            Image::new_frames(vec![f], d, m.w, m.h, m.cs)
        }
        _ => {
            let mut f = Frame::new(vec![]);
            f.set_channels(m.f[0].iter().map(|p| channel_of(m.bt, p)).collect());
            let mut im = Image::new_frames(vec![f], d, 1, 1, m.cs);
            im.set_dimensions(m.w, m.h);
            im
        }
    })
}

fn flat_bits<T: Pod + Default>(v: &[T], bt: BitType) -> Vec<u32> {
    let b: &[u8] = bytemuck::cast_slice(v);
    match bt {
        BitType::U8 => b.iter().map(|x| *x as u32).collect(),
        BitType::U16 => b.chunks_exact(2).map(|x| u16::from_ne_bytes([x[0], x[1]]) as u32).collect(),
        _ => b.chunks_exact(4).map(|x| u32::from_ne_bytes([x[0], x[1], x[2], x[3]])).collect()
    }
}

fn read_back<T: Pod + Default + std::fmt::Debug + PartialEq>(im: &Image, m: &M, what: &str) -> Res {
    let n = m.cs.num_components();
    let px = m.w * m.h;
    let all = im.flatten_frames::<T>();
    if im.frames_len() != m.f.len() || im.frames_ref().len() != m.f.len() || im.is_animated() != (m.f.len() > 1) {
        return bad("frames", format!("{what}: {} frames reported, animated {}", im.frames_len(), im.is_animated()));
    }
    if all.len() != m.f.len() {
        return bad("flatten_frames", format!("{what}: {} frames flattened", all.len()));
    }
    for (k, fr) in im.frames_ref().iter().enumerate() {
        let want = m.inter(k);
        if flat_bits(&all[k], m.bt) != want {
            return bad("flatten_frames", format!("{what}: flatten_frames of frame {k} differs from the samples put in"));
        }
        if flat_bits(&fr.flatten::<T>(), m.bt) != want {
            return bad("flatten", format!("{what}: Frame::flatten of frame {k} differs from the samples put in"));
        }
        let mut out = vec![T::default(); px * n];
        match fr.flatten_into::<T>(&mut out) {
            Ok(c) if c == px * n => {}
            Ok(c) => return bad("flatten_into-count", format!("{what}: flatten_into wrote {c} of {} samples", px * n)),
            Err(e) => return bad("flatten_into", format!("{what}: flatten_into failed: {e:?}"))
        }
        if flat_bits(&out, m.bt) != want {
            return bad("flatten_into", format!("{what}: flatten_into of frame {k} differs from the samples put in"));
        }
        let mut out = vec![T::default(); px * n];
        match swizzle_channels(fr.channels_vec_ref(), &mut out) {
            Ok(c) if c == px * n => {}
            o => return bad("swizzle-count", format!("{what}: swizzle_channels returned {o:?} for {} samples", px * n))
        }
        if flat_bits(&out, m.bt) != want {
            return bad("swizzle", format!("{what}: swizzle_channels of frame {k} differs from the samples put in"));
        }
        // another element type is refused
        let mut wrong8 = vec![0u8; px * n];
        let mut wrong16 = vec![0u16; px * n];
        let refused = match m.bt {
            BitType::U8 => fr.flatten_into::<u16>(&mut wrong16).is_err(),
            _ => fr.flatten_into::<u8>(&mut wrong8).is_err()
        };
        if !refused {
            return bad("type", format!("{what}: flatten_into accepted another element type"));
        }
        if m.bt == BitType::U16 {
            if fr.u16_to_native_endian() != m.bytes(k, false) {
                return bad("native-endian", format!("{what}: u16_to_native_endian differs from the samples put in"));
            }
            if fr.u16_to_big_endian(m.cs) != m.bytes(k, true) {
                return bad("big-endian", format!("{what}: u16_to_big_endian differs from the samples put in"));
            }
        }
    }
    // reading by channel
    let got: Vec<Vec<u32>> = im.channels_ref(false).iter().map(|c| plane_of(c)).collect();
    let want: Vec<Vec<u32>> = m.f.iter().flat_map(|f| f.clone()).collect();
    if got != want {
        return bad("channels_ref", format!("{what}: channels_ref(false) does not list the planes in order"));
    }
    if m.bt == BitType::U8 {
        let b = im.flatten_to_u8();
        for k in 0..m.f.len() {
            if b.get(k).map(|v| flat_bits(v, BitType::U8)) != Some(m.inter(k)) {
                return bad("flatten_to_u8", format!("{what}: flatten_to_u8 of frame {k} differs from the samples put in"));
            }
        }
    } else {
        // flattening to bytes has to equal converting the depth first
        let mut c = im.clone();
        if c.convert_depth(BitDepth::Eight).is_err() || c.flatten_frames::<u8>() != im.flatten_to_u8() {
            return bad("flatten_to_u8", format!("{what}: flatten_to_u8 differs from converting to 8 bits and flattening"));
        }
    }
    // none of the above changes the image
    same(im, m, what)
}

fn check_image(ch: &mut Ch, im: &Image, m: &M, what: &str) -> Res {
    same(im, m, what)?;
    obs_image(ch, im);
    match m.bt {
        BitType::U8 => read_back::<u8>(im, m, what),
        BitType::U16 => read_back::<u16>(im, m, what),
        _ => read_back::<f32>(im, m, what)
    }
}

fn built(m: &M, route: usize) -> Result<Image, Bad> {
    match guard(|| build(m, route)) {
        Ok(Some(i)) => Ok(i),
        Ok(None) => bad("duration", format!("frame built with duration 3/7 reports another one ({})", m.short())),
        Err(p) => bad("panic", format!("building {} by route {route} panicked: {p}", m.short()))
    }
}

fn routes(ch: &mut Ch) -> Res {
    let sp = spaces();
    let cs = ch.pick(&sp);
    let bt = ch.pick(&DEPTHS);
    let lim = if ch.thorough() { 7 } else { 4 };
    let w = 1 + ch.choose(lim);
    let h = 1 + ch.choose(lim);
    let r = ch.choose(ROUTES + 1);
    let (m, im);
    if r == ROUTES {
        m = M::unique(w, h, cs, bt, 3);
        im = m.image();
    } else {
        m = M::unique(w, h, cs, bt, 1);
        im = built(&m, r)?;
    }
    ch.state(hash_bytes(format!("{r} {cs:?} {bt:?} {w} {h}").as_bytes()));
    ch.note(|| format!("route {r}: {}", m.short()));
    check_image(ch, &im, &m, &format!("route {r} {}", m.short()))
}

/// what is said of every colour space and depth, which all layouts follow
fn facts(ch: &mut Ch) -> Res {
    use ColorSpace::*;
    let sp = spaces();
    let cs = ch.pick(&sp);
    let bt = ch.pick(&DEPTHS);
    let d = depth_of(bt);
    let (n, alpha) = match cs {
        Luma => (1, None),
        LumaA => (2, Some(1)),
        RGB | BGR | YCbCr | HSL | HSV => (3, None),
        RGBA | BGRA => (4, Some(3)),
        ARGB => (4, Some(0)),
        CMYK | YCCK => (4, None),
        MultiBand(n) => (n.get() as usize, None),
        _ => (0, None)
    };
    let (size, max) = match bt {
        BitType::U8 => (1, 255),
        BitType::U16 => (2, 65535),
        _ => (4, 1)
    };
    ch.state(hash_bytes(format!("facts {cs:?} {bt:?}").as_bytes()));
    if (cs.num_components(), cs.alpha_position(), cs.has_alpha(), cs.is_grayscale()) != (n, alpha, alpha.is_some(), matches!(cs, Luma | LumaA)) {
        return bad("colour-space", format!("{cs:?} reports {} components, alpha {:?} {}, grey {}", cs.num_components(), cs.alpha_position(), cs.has_alpha(), cs.is_grayscale()));
    }
    if (d.size_of(), d.bit_size(), d.max_value(), d.bit_type(), bt.to_depth()) != (size, size * 8, max, bt, d) {
        return bad("depth", format!("{d:?} reports {} bytes, {} bits, largest {}, type {:?}", d.size_of(), d.bit_size(), d.max_value(), d.bit_type()));
    }
    // frames keep their duration, whatever happens to the image
    let m = M::unique(2, 3, cs, bt, 1);
    let f = Frame::new_with_duration(m.f[0].iter().map(|p| channel_of(bt, p)).collect(), 5, 9);
    let durations = |im: &Image| im.frames_ref().iter().map(|f| (f.numerator(), f.denominator())).collect::<Vec<_>>();
    let mut im = Image::new_frames(vec![f.clone(), Frame::new(f.channels_vec_ref().to_vec()), f], d, 2, 3, cs);
    let before = durations(&im);
    if before[0] != (5, 9) || before[2] != (5, 9) || before.len() != im.frames_len() {
        return bad("duration", format!("{cs:?} {bt:?}: durations {before:?}"));
    }
    if durations(&im.clone()) != before {
        return bad("duration", format!("{cs:?} {bt:?}: a clone has durations {:?} instead of {before:?}", durations(&im.clone())));
    }
    let _ = im.convert_depth(ch.pick(&[BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32]));
    let _ = im.convert_color(ch.pick(&sp));
    if durations(&im) != before {
        return bad("duration", format!("{cs:?} {bt:?}: durations {:?} instead of {before:?} after a conversion", durations(&im)));
    }
    Ok(())
}

/// one row of every width around the vector lengths
fn widths(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, multi(5), multi(6), multi(9)]);
    let bt = ch.pick(&DEPTHS);
    let w = 1 + ch.choose(if ch.thorough() { 300 } else { 140 });
    let h = 1 + ch.choose(2);
    let m = M::unique(w, h, cs, bt, 1);
    let im = built(&m, 0)?;
    ch.state(hash_bytes(format!("w {cs:?} {bt:?} {w} {h}").as_bytes()));
    ch.note(|| m.short());
    check_image(ch, &im, &m, &m.short())
}

fn large(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&LONG);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGBA]);
    let m = M::hashed(w, h, cs, bt, 2);
    let im = m.image();
    ch.state(hash_bytes(format!("l {cs:?} {bt:?} {w} {h}").as_bytes()));
    ch.note(|| m.short());
    check_image(ch, &im, &m, &m.short())
}

fn separate(ch: &mut Ch) -> Res {
    let sp = spaces();
    let cs = ch.pick(&sp);
    let bt = ch.pick(&DEPTHS);
    let frames = 1 + ch.choose(3);
    let m = M::unique(3, 2, cs, bt, frames);
    let mut im = m.image();
    let n = cs.num_components();
    let ap = match cs {
        ColorSpace::RGBA | ColorSpace::BGRA => Some(3),
        ColorSpace::LumaA => Some(1),
        ColorSpace::ARGB => Some(0),
        _ => None
    };
    ch.state(hash_bytes(format!("sep {cs:?} {bt:?}").as_bytes()));
    ch.note(|| m.short());
    let colours: Vec<usize> = (0..n).filter(|i| Some(*i) != ap).collect();
    for k in 0..frames {
        let want: Vec<Vec<u32>> = colours.iter().map(|i| m.f[k][*i].clone()).collect();
        let got = im.frames_ref()[k]
            .separate_color_and_alpha_ref(cs)
            .map(|(c, a)| (c.iter().map(plane_of).collect::<Vec<_>>(), plane_of(a)));
        let exp = ap.map(|a| (want.clone(), m.f[k][a].clone()));
        if got != exp {
            return bad("ref", format!("{}: separate_color_and_alpha_ref of frame {k} does not give the colour planes and the alpha plane", m.short()));
        }
        let got = im.frames_mut()[k]
            .separate_color_and_alpha_mut(cs)
            .map(|(c, a)| (c.iter().map(plane_of).collect::<Vec<_>>(), plane_of(a)));
        if got != exp {
            return bad("mut", format!("{}: separate_color_and_alpha_mut of frame {k} does not give the colour planes and the alpha plane", m.short()));
        }
        let got: Vec<_> = im.frames_ref()[k].channels_ref(cs, true).iter().map(plane_of).collect();
        if got != want {
            return bad("channels_ref", format!("{}: channels_ref without alpha of frame {k} does not give the colour planes", m.short()));
        }
        let got: Vec<_> = im.frames_mut()[k].channels_mut(cs, true).iter().map(|c| plane_of(c)).collect();
        if got != want {
            return bad("channels_mut", format!("{}: channels_mut without alpha of frame {k} does not give the colour planes", m.short()));
        }
        if im.frames_mut()[k].channels_mut(cs, false).len() != n || im.frames_ref()[k].channels_ref(cs, false).len() != n {
            return bad("count", format!("{}: not every channel listed", m.short()));
        }
    }
    // colour spaces the frame doesn't have
    for other in sp.iter().filter(|o| o.num_components() != n) {
        let f = &mut im.frames_mut()[0];
        if f.separate_color_and_alpha_ref(*other).is_some() || f.separate_color_and_alpha_mut(*other).is_some() {
            return bad("other", format!("{}: separated as {other:?}", m.short()));
        }
    }
    let want: Vec<Vec<u32>> = (0..frames).flat_map(|k| colours.iter().map(move |i| (k, *i))).map(|(k, i)| m.f[k][i].clone()).collect();
    let got: Vec<Vec<u32>> = im.channels_ref(true).iter().map(|c| plane_of(c)).collect();
    if got != want {
        return bad("image-channels", format!("{}: Image::channels_ref without alpha does not give the colour planes", m.short()));
    }
    let got: Vec<Vec<u32>> = im.channels_mut(true).iter().map(|c| plane_of(c)).collect();
    if got != want {
        return bad("image-channels", format!("{}: Image::channels_mut without alpha does not give the colour planes", m.short()));
    }
    same(&im, &m, "after reading")
}

fn function(ch: &mut Ch) -> Res {
    let sp: Vec<_> = spaces().into_iter().filter(|c| c.num_components() <= 4).collect();
    let cs = ch.pick(&sp);
    let bt = ch.pick(&DEPTHS);
    let lim = if ch.thorough() { 9 } else { 5 };
    let (w, h) = (1 + ch.choose(lim), 1 + ch.choose(lim));
    let fill = ch.flag();
    ch.state(hash_bytes(format!("fn {cs:?} {bt:?} {w} {h} {fill}").as_bytes()));
    let m = if fill { M::new(w, h, cs, bt, 1, |_, _, _| distinct(bt, 5)) } else { M::unique(w, h, cs, bt, 1) };
    let at = |y: usize, x: usize, c: usize| -> u32 {
        if y < h && x < w { m.f[0].get(c).map_or(0, |p| p[y * w + x]) } else { 0 }
    };
    let im = match (fill, bt) {
        (true, BitType::U8) => Image::fill::<u8>(m.f[0][0][0] as u8, cs, w, h),
        (true, BitType::U16) => Image::fill::<u16>(m.f[0][0][0] as u16, cs, w, h),
        (true, _) => Image::fill::<f32>(f32::from_bits(m.f[0][0][0]), cs, w, h),
        (_, BitType::U8) => Image::from_fn::<u8, _>(w, h, cs, |y, x, p| (0..4).for_each(|c| p[c] = at(y, x, c) as u8)),
        (_, BitType::U16) => Image::from_fn::<u16, _>(w, h, cs, |y, x, p| (0..4).for_each(|c| p[c] = at(y, x, c) as u16)),
        (_, _) => Image::from_fn::<f32, _>(w, h, cs, |y, x, p| (0..4).for_each(|c| p[c] = f32::from_bits(at(y, x, c))))
    };
    ch.note(|| m.short());
    check_image(ch, &im, &m, &format!("{} {}", if fill { "fill" } else { "from_fn" }, m.short()))
}

fn modify(ch: &mut Ch) -> Res {
    let sp: Vec<_> = spaces().into_iter().filter(|c| c.num_components() <= 4).collect();
    let cs = ch.pick(&sp);
    let bt = ch.pick(&DEPTHS);
    let as_t = ch.pick(&DEPTHS);
    let frames = 1 + ch.choose(3);
    let lim = if ch.thorough() { 4 } else { 3 };
    let (w, h) = (1 + ch.choose(lim), 1 + ch.choose(lim));
    let n = cs.num_components();
    let m = M::unique(w, h, cs, bt, frames);
    let mut im = m.image();
    ch.state(hash_bytes(format!("modify {cs:?} {bt:?} {as_t:?} {w} {h}").as_bytes()));
    let seen = std::sync::Mutex::new(vec![]);
    // every sample becomes a function of its place and of its old value
    macro_rules! run {
        ($t:ty, $f:expr) => {
            im.modify_pixels_mut::<$t, _>(|y, x, px| {
                seen.lock().unwrap().push((y, x));
                for (c, p) in px.into_iter().enumerate() {
                    let f: fn($t, usize, usize, usize) -> $t = $f;
                    *p = f(*p, y, x, c);
                }
            })
            .is_ok()
        };
    }
    let ok = match as_t {
        BitType::U8 => run!(u8, |v, y, x, c| v.wrapping_add((y * 50 + x * 10 + c + 1) as u8)),
        BitType::U16 => run!(u16, |v, y, x, c| v.wrapping_add((y * 50 + x * 10 + c + 1) as u16)),
        _ => run!(f32, |v, y, x, c| v + (y * 50 + x * 10 + c + 1) as f32)
    };
    ch.obs(ok as u64);
    if ok != (bt == as_t) {
        return bad("type", format!("{}: modify_pixels_mut as {as_t:?} returned success={ok}", m.short()));
    }
    if !ok {
        return same(&im, &m, "after a refused modify_pixels_mut");
    }
    let mut s = seen.into_inner().unwrap();
    s.sort();
    let mut e: Vec<_> = (0..frames).flat_map(|_| (0..h).flat_map(|y| (0..w).map(move |x| (y, x)))).collect();
    e.sort();
    if s != e {
        return bad("visits", format!("{}: modify_pixels_mut does not visit every pixel once per frame", m.short()));
    }
    let want = M::new(w, h, cs, bt, frames, |k, c, i| {
        let v = m.f[k][c][i];
        let a = (i / w) * 50 + (i % w) * 10 + c + 1;
        match bt {
            BitType::U8 => (v as u8).wrapping_add(a as u8) as u32,
            BitType::U16 => (v as u16).wrapping_add(a as u16) as u32,
            _ => (f32::from_bits(v) + a as f32).to_bits()
        }
    });
    let _ = n;
    same(&im, &want, &format!("modify_pixels_mut on {}", m.short()))
}

fn reject(ch: &mut Ch) -> Res {
    let sp = spaces();
    let cs = ch.pick(&sp);
    let bt = ch.pick(&DEPTHS);
    let n = cs.num_components();
    let (w, h) = (3, 2);
    let m = M::unique(w, h, cs, bt, 2);
    ch.state(hash_bytes(format!("reject {cs:?} {bt:?}").as_bytes()));
    if ch.flag() {
        // interleaved data of another length
        let full = w * h * n;
        let mut lens: Vec<usize> = vec![0, 1, full - 1, full + 1, full - n, full + n, 2 * full, full / 2];
        lens.retain(|l| *l != full);
        let len = ch.pick(&lens);
        ch.note(|| format!("{} interleaved samples for {}", len, m.short()));
        let r = guard(|| match bt {
            BitType::U8 => Image::from_u8(&vec![1u8; len], w, h, cs),
            BitType::U16 => Image::from_u16(&vec![1u16; len], w, h, cs),
            _ => Image::from_f32(&vec![1f32; len], w, h, cs)
        });
        ch.obs(r.is_err() as u64);
        if r.is_ok() {
            return bad("accepted", format!("{len} interleaved samples accepted for {}", m.short()));
        }
        return Ok(());
    }
    // planes that do not fit: a plane missing or extra, or of another length
    let frame = ch.choose(2);
    let what = ch.choose(5);
    let c = ch.choose(n);
    let mut frames: Vec<Vec<Channel>> = m.f.iter().map(|p| p.iter().map(|x| channel_of(bt, x)).collect()).collect();
    let plane = &m.f[frame][c];
    match what {
        0 => {
            frames[frame].remove(c);
        }
        1 => frames[frame].insert(c, channel_of(bt, plane)),
        2 => frames[frame][c] = channel_of(bt, &plane[..plane.len() - 1]),
        3 => {
            let mut p = plane.clone();
            p.push(p[0]);
            frames[frame][c] = channel_of(bt, &p);
        }
        _ => frames[frame][c] = channel_of(bt, &[])
    }
    let im = Image::new_frames(frames.into_iter().map(Frame::new).collect(), depth_of(bt), w, h, cs);
    let use_ = ch.choose(2);
    ch.note(|| format!("change {what} of plane {c} in frame {frame} of {}; use {use_}", m.short()));
    let mut im2 = im.clone();
    let r = guard(|| match use_ {
        0 => im2.convert_depth(if bt == BitType::U8 { BitDepth::Sixteen } else { BitDepth::Eight }).is_err(),
        _ => im2.convert_color(if cs == ColorSpace::RGB { ColorSpace::RGBA } else { ColorSpace::RGB }).is_err()
    });
    ch.obs(matches!(r, Ok(true)) as u64);
    match r {
        Ok(true) => Ok(()),
        Ok(false) => bad("inconsistent", format!("an operation accepted a {} whose plane {c} of frame {frame} was changed ({what})", m.short())),
        Err(p) => bad("panic", format!("an operation panicked on a {} whose plane {c} of frame {frame} was changed ({what}): {p}", m.short()))
    }
}

/// cloning, then writing to either copy
fn clones(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, multi(5)]);
    let bt = ch.pick(&DEPTHS);
    // below and above the size from which channels are cloned by threads
    let (w, h) = ch.pick(&[(1, 1), (5, 3), (31, 8), (32, 8), (40, 26), (250, 4), (251, 4), (1001, 1)]);
    let frames = 1 + ch.choose(3);
    let which = ch.choose(2);
    let route = ch.choose(3);
    let m = M::unique(w, h, cs, bt, frames);
    ch.state(hash_bytes(format!("clone {cs:?} {bt:?} {w} {h}").as_bytes()));
    ch.note(|| format!("{} write to copy {which} by route {route}", m.short()));
    let mut a = m.image();
    let mut b = a.clone();
    same(&b, &m, "clone")?;
    if a != b {
        return bad("equal", format!("{}: a clone does not compare equal", m.short()));
    }
    let t = if which == 0 { &mut a } else { &mut b };
    match route {
        0 => {
            for c in t.channels_mut(false) {
                for x in unsafe { c.alias_mut() } {
                    *x ^= 0x55;
                }
            }
        }
        1 => {
            let _ = t.convert_depth(if bt == BitType::U8 { BitDepth::Sixteen } else { BitDepth::Eight });
            t.set_dimensions(7, 7);
        }
        _ => {
            let f = &mut t.frames_mut()[0];
            f.channels_vec().pop();
            f.set_channels(vec![]);
        }
    }
    let o = if which == 0 { &b } else { &a };
    obs_image(ch, o);
    same(o, &m, "the other copy after one was written to")
}

// ------------------------------------------------------------------------------------- C29

const CONV: [ColorSpace; 10] = [
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::CMYK,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::HSL,
    ColorSpace::HSV
];

/// red, green, blue and alpha of a pixel, all in 0..1; None when the space has no simple mapping
fn to_rgb(cs: ColorSpace, p: &[f64]) -> ([f64; 3], Option<f64>) {
    match cs {
        ColorSpace::RGB => ([p[0], p[1], p[2]], None),
        ColorSpace::RGBA => ([p[0], p[1], p[2]], Some(p[3])),
        ColorSpace::BGR => ([p[2], p[1], p[0]], None),
        ColorSpace::BGRA => ([p[2], p[1], p[0]], Some(p[3])),
        ColorSpace::ARGB => ([p[1], p[2], p[3]], Some(p[0])),
        ColorSpace::Luma => ([p[0]; 3], None),
        ColorSpace::LumaA => ([p[0]; 3], Some(p[1])),
        ColorSpace::CMYK => ([p[0] * p[3], p[1] * p[3], p[2] * p[3]], None),
        ColorSpace::HSL => (hsl_rgb(p[0], p[1], p[2]), None),
        ColorSpace::HSV => (hsv_rgb(p[0], p[1], p[2]), None),
        _ => unreachable!()
    }
}
fn hsl_rgb(h: f64, s: f64, l: f64) -> [f64; 3] {
    let c = (1.0 - (2.0 * l - 1.0).abs()) * s;
    hue(h, c, l - c / 2.0)
}
fn hsv_rgb(h: f64, s: f64, v: f64) -> [f64; 3] {
    let c = v * s;
    hue(h, c, v - c)
}
fn hue(h: f64, c: f64, m: f64) -> [f64; 3] {
    let h6 = (h - h.floor()) * 6.0;
    let x = c * (1.0 - (h6 % 2.0 - 1.0).abs());
    let (r, g, b) = match h6 as u32 {
        0 => (c, x, 0.0),
        1 => (x, c, 0.0),
        2 => (0.0, c, x),
        3 => (0.0, x, c),
        4 => (x, 0.0, c),
        _ => (c, 0.0, x)
    };
    [r + m, g + m, b + m]
}
fn rgb_hue(r: f64, g: f64, b: f64) -> f64 {
    let mx = r.max(g).max(b);
    let d = mx - r.min(g).min(b);
    if d == 0.0 {
        return 0.0;
    }
    let h = if mx == r {
        (g - b) / d
    } else if mx == g {
        2.0 + (b - r) / d
    } else {
        4.0 + (r - g) / d
    };
    (h / 6.0).rem_euclid(1.0)
}
/// expected components (0..1) and a tolerance factor per component for float amplification; None: unconstrained
fn from_rgb(cs: ColorSpace, [r, g, b]: [f64; 3], a: Option<f64>) -> Vec<Option<(f64, f64)>> {
    let alpha = a.unwrap_or(1.0);
    let v = |x: f64| Some((x, 0.0));
    let mx = r.max(g).max(b);
    let mn = r.min(g).min(b);
    let d = mx - mn;
    let amp = if d > 0.0 { 6e-7 / d } else { 0.0 };
    match cs {
        ColorSpace::RGB => vec![v(r), v(g), v(b)],
        ColorSpace::RGBA => vec![v(r), v(g), v(b), v(alpha)],
        ColorSpace::BGR => vec![v(b), v(g), v(r)],
        ColorSpace::BGRA => vec![v(b), v(g), v(r), v(alpha)],
        ColorSpace::ARGB => vec![v(alpha), v(r), v(g), v(b)],
        ColorSpace::Luma => vec![v(0.2989 * r + 0.587 * g + 0.114 * b)],
        ColorSpace::LumaA => vec![v(0.2989 * r + 0.587 * g + 0.114 * b), v(alpha)],
        ColorSpace::CMYK => {
            if mx == 0.0 {
                vec![None, None, None, v(0.0)]
            } else {
                let am = 6e-7 / mx;
                vec![Some((r / mx, am)), Some((g / mx, am)), Some((b / mx, am)), v(mx)]
            }
        }
        ColorSpace::HSL => {
            let l = (mx + mn) / 2.0;
            let s = if d == 0.0 { 0.0 } else { d / (1.0 - (2.0 * l - 1.0).abs()) };
            vec![Some((rgb_hue(r, g, b), amp)), Some((s, amp)), v(l)]
        }
        ColorSpace::HSV => {
            let s = if mx == 0.0 { 0.0 } else { d / mx };
            vec![Some((rgb_hue(r, g, b), amp)), Some((s, amp)), v(mx)]
        }
        _ => unreachable!()
    }
}
fn is_mix(c: ColorSpace) -> bool {
    matches!(c, ColorSpace::CMYK | ColorSpace::HSL | ColorSpace::HSV)
}
fn is_gray(c: ColorSpace) -> bool {
    matches!(c, ColorSpace::Luma | ColorSpace::LumaA)
}

/// convert a copy and compare with the formulas
fn convert_and_check(ch: &mut Ch, m: &M, to: ColorSpace) -> Res {
    let from = m.cs;
    let what = format!("{} to {to:?}", m.short());
    let mut im = m.image();
    match guard(|| im.convert_color(to)) {
        Err(p) => return bad("panic", format!("{what} panicked: {p}")),
        Ok(Err(e)) => return bad("failed", format!("{what} failed: {e:?}")),
        Ok(Ok(())) => {}
    }
    obs_image(ch, &im);
    if from == to {
        return same(&im, m, &what);
    }
    if im.colorspace() != to {
        return bad("colorspace", format!("{what}: the image is recorded as {:?}", im.colorspace()));
    }
    if im.dimensions() != (m.w, m.h) || im.depth().bit_type() != m.bt || im.frames_ref().len() != m.f.len() {
        return bad("shape", format!("{what}: dimensions, depth or frame count changed"));
    }
    if let Err(e) = valid(&im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    let got = model_of(&im);
    if is_mix(from) && is_mix(to) {
        // through RGB, as documented
        let mut two = m.image();
        let r = guard(|| two.convert_color(ColorSpace::RGB).is_ok() && two.convert_color(to).is_ok());
        if r != Ok(true) {
            return bad("failed", format!("{what} through RGB failed"));
        }
        return same(&two, &got, &format!("{what} in one step and through RGB"));
    }
    let max = max_of(m.bt);
    let exact = !is_mix(from) && !is_mix(to) && (is_gray(from) || !is_gray(to));
    let n = to.num_components();
    for k in 0..m.f.len() {
        for i in 0..m.w * m.h {
            let p: Vec<f64> = m.f[k].iter().map(|c| to_f(m.bt, c[i]) / max).collect();
            let (rgb, a) = to_rgb(from, &p);
            // gray to gray never mixes
            let exp = if is_gray(from) && is_gray(to) {
                let mut v = vec![Some((p[0], 0.0))];
                if n == 2 {
                    v.push(Some((a.unwrap_or(1.0), 0.0)));
                }
                v
            } else {
                from_rgb(to, rgb, a)
            };
            for c in 0..n {
                let g = got.f[k][c][i];
                let gv = to_f(m.bt, g) / max;
                let Some((e, amp)) = exp[c] else {
                    if !(-1e-6..=1.000001).contains(&gv) {
                        return bad("range", format!("{what}: component {c} of pixel {p:?} is {gv}"));
                    }
                    continue;
                };
                let is_hue = c == 0 && matches!(to, ColorSpace::HSL | ColorSpace::HSV);
                let mut d = (gv - e).abs();
                if is_hue {
                    d = d.min((1.0 - d).abs());
                }
                // adding an opaque alpha and moving channels around is exact; from gray through the
                // luma weights and the other formulas are within one unit of rounding
                let two_step = is_mix(from) && is_gray(to);
                let unit = match m.bt {
                    BitType::F32 => 1e-5,
                    _ if exact => 1e-9,
                    _ if two_step => 2.0 / max,
                    _ => 1.1 / max
                };
                if !(d <= unit + 1e-9 + amp) {
                    return bad(
                        format!("{:?}-{:?}", from, to),
                        format!("{what}: component {c} of pixel {p:?} (in 0..1) is {gv}, the formula gives {e}")
                    );
                }
                if exact && m.bt == BitType::F32 && (d > 0.0) && !(is_gray(from) || is_gray(to)) {
                    return bad("inexact", format!("{what}: a moved sample changed from {e} to {gv}"));
                }
            }
        }
    }
    Ok(())
}

fn cube_vals(bt: BitType, thorough: bool) -> Vec<u32> {
    match bt {
        BitType::U8 if thorough => vec![0, 1, 2, 3, 31, 63, 64, 85, 100, 127, 128, 129, 191, 200, 253, 254, 255],
        BitType::U8 => vec![0, 1, 2, 64, 100, 127, 128, 200, 254, 255],
        BitType::U16 if thorough => vec![0, 1, 2, 255, 256, 257, 4000, 16384, 21845, 32767, 32768, 40000, 49152, 65533, 65534, 65535],
        BitType::U16 => vec![0, 1, 256, 4000, 16384, 32767, 32768, 49152, 65534, 65535],
        _ if thorough => [0.0f32, 0.001, 0.1, 0.2, 0.25, 0.333, 0.4, 0.5, 0.6, 0.6667, 0.75, 0.8, 0.999, 1.0].iter().map(|x| x.to_bits()).collect(),
        _ => [0.0f32, 0.001, 0.2, 0.25, 0.4, 0.5, 0.6667, 0.75, 0.999, 1.0].iter().map(|x| x.to_bits()).collect()
    }
}
fn alpha_val(bt: BitType, i: usize) -> u32 {
    match bt {
        BitType::U8 => [0, 255, 1, 128, 254, 77][i % 6],
        BitType::U16 => [0, 65535, 1, 32768, 65534, 777][i % 6],
        _ => [0.0f32, 1.0, 0.25, 0.5, 0.75, 0.3][i % 6].to_bits()
    }
}

fn cube(ch: &mut Ch) -> Res {
    let from = ch.pick(&CONV);
    let to = ch.pick(&CONV);
    let bt = ch.pick(&DEPTHS);
    let vals = cube_vals(bt, ch.thorough());
    let n = from.num_components();
    let v = vals.len();
    // the cube is cut along its last axis: one image per value of it
    let slice = if from == ColorSpace::Luma { 0 } else { ch.choose(v) };
    let frames = 1 + ch.choose(3);
    let al = match from {
        ColorSpace::RGBA | ColorSpace::BGRA => Some(3),
        ColorSpace::LumaA => Some(1),
        ColorSpace::ARGB => Some(0),
        _ => None
    };
    let axes: Vec<usize> = (0..n).filter(|c| Some(*c) != al).collect();
    let (w, h) = match axes.len() {
        1 => (v, 1),
        3 => (v, v),
        _ => (v * v, v)
    };
    let m = M::new(w, h, from, bt, frames, |k, c, i| {
        if Some(c) == al {
            return if axes.len() == 1 { vals[slice] } else { alpha_val(bt, i + k) };
        }
        let a = axes.iter().position(|x| *x == c).unwrap();
        let a = (a + k) % axes.len(); // the second frame holds other colours
        if axes.len() == 1 {
            return vals[(i + k) % v];
        }
        if a == axes.len() - 1 {
            vals[slice]
        } else {
            vals[(i / v.pow(a as u32)) % v]
        }
    });
    ch.state(hash_bytes(format!("{from:?} {to:?} {bt:?}").as_bytes()));
    ch.note(|| format!("{} slice {slice} to {to:?}", m.short()));
    convert_and_check(ch, &m, to)
}

/// every width around the vector lengths
fn tails(ch: &mut Ch) -> Res {
    let from = ch.pick(&CONV);
    let to = ch.pick(&CONV);
    let bt = ch.pick(&DEPTHS);
    let w = 1 + ch.choose(if ch.thorough() { 100 } else { 40 });
    let h = 1 + ch.choose(2);
    // colours with a wide spread, different in every component
    let m = M::new(w, h, from, bt, 1, |_, c, i| {
        let x = ((i * 37 + c * 101 + i * i * 3) % 251) as f64 / 250.0;
        from_f(bt, (x * max_of(bt) * 64.0).round() / 64.0)
    });
    ch.state(hash_bytes(format!("t {from:?} {to:?} {bt:?}").as_bytes()));
    ch.note(|| format!("{} to {to:?}", m.short()));
    convert_and_check(ch, &m, to)
}

fn large_conversions(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&LONG);
    let bt = ch.pick(&DEPTHS);
    let from = ch.pick(&CONV);
    let to = ch.pick(&CONV);
    let m = M::hashed(w, h, from, bt, 1);
    ch.state(hash_bytes(format!("l {from:?} {to:?} {bt:?}").as_bytes()));
    ch.note(|| format!("{} to {to:?}", m.short()));
    convert_and_check(ch, &m, to)
}

fn unsupported(ch: &mut Ch) -> Res {
    let mut all = spaces();
    all.push(ColorSpace::Unknown);
    let from = ch.pick(&spaces());
    let to = ch.pick(&all);
    let bt = ch.pick(&DEPTHS);
    let frames = 1 + ch.choose(3);
    if CONV.contains(&from) && CONV.contains(&to) {
        ch.discard();
        return Ok(());
    }
    let m = M::unique(3, 2, from, bt, frames);
    ch.state(hash_bytes(format!("u {from:?} {to:?} {bt:?}").as_bytes()));
    ch.note(|| format!("{} to {to:?}", m.short()));
    let mut im = m.image();
    match guard(|| im.convert_color(to)) {
        Err(p) => bad("panic", format!("{} to {to:?} panicked: {p}", m.short())),
        Ok(r) => {
            ch.obs(r.is_ok() as u64);
            if from == to {
                if let Err(e) = r {
                    return bad("identity", format!("converting {} to its own colour space failed: {e:?}", m.short()));
                }
                return same(&im, &m, "after converting to the same colour space");
            }
            if r.is_ok() {
                // nothing is documented about the colours; the result still has to be an image of that space
                if im.colorspace() != to {
                    return bad("colorspace", format!("{} to {to:?} left {:?}", m.short(), im.colorspace()));
                }
                return valid(&im).or_else(|e| bad("invalid", format!("{} to {to:?}: {e}", m.short())));
            }
            same(&im, &m, &format!("after the failed conversion of {} to {to:?}", m.short()))
        }
    }
}

/// sequences of conversions that only move samples and add or drop alpha
fn reorder(ch: &mut Ch) -> Res {
    const SET: [ColorSpace; 5] = [ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::ARGB];
    let start = ch.pick(&[0usize, 1, 2, 3, 4, 5, 6]);
    let bt = ch.pick(&DEPTHS);
    let frames = 1 + ch.choose(3);
    let from = if start < 5 { SET[start] } else if start == 5 { ColorSpace::Luma } else { ColorSpace::LumaA };
    let m = M::unique(3, 2, from, bt, frames);
    let mut im = m.image();
    let depth = if ch.thorough() { 4 } else { 3 };
    let mut cur = m.clone();
    let opaque = match bt {
        BitType::U8 => 255,
        BitType::U16 => 65535,
        _ => 1f32.to_bits()
    };
    let mut hist = vec![];
    for _ in 0..depth {
        let c = ch.choose(SET.len() + 1);
        if c == SET.len() {
            break;
        }
        let to = SET[c];
        hist.push(to);
        match guard(|| im.convert_color(to)) {
            Ok(Ok(())) => {}
            o => return bad("failed", format!("{} through {hist:?}: {o:?}", m.short()))
        }
        let next = M::new(m.w, m.h, to, bt, frames, |k, comp, i| {
            let p = &cur.f[k];
            let (r, g, b, a) = match cur.cs {
                ColorSpace::RGB => (p[0][i], p[1][i], p[2][i], opaque),
                ColorSpace::RGBA => (p[0][i], p[1][i], p[2][i], p[3][i]),
                ColorSpace::BGR => (p[2][i], p[1][i], p[0][i], opaque),
                ColorSpace::BGRA => (p[2][i], p[1][i], p[0][i], p[3][i]),
                ColorSpace::ARGB => (p[1][i], p[2][i], p[3][i], p[0][i]),
                ColorSpace::Luma => (p[0][i], p[0][i], p[0][i], opaque),
                _ => (p[0][i], p[0][i], p[0][i], p[1][i])
            };
            match to {
                ColorSpace::RGB | ColorSpace::RGBA => [r, g, b, a][comp],
                ColorSpace::BGR | ColorSpace::BGRA => [b, g, r, a][comp],
                _ => [a, r, g, b][comp]
            }
        });
        cur = next;
        ch.state(hash_bytes(format!("r {from:?} {to:?} {bt:?}").as_bytes()));
        same(&im, &cur, &format!("{} through {hist:?}", m.short()))?;
    }
    ch.note(|| format!("{} through {hist:?}", m.short()));
    obs_image(ch, &im);
    Ok(())
}

// ------------------------------------------------------------------------------------- C30

fn rank(b: BitType) -> usize {
    match b {
        BitType::U8 => 0,
        BitType::U16 => 1,
        _ => 2
    }
}
fn all_values(b: BitType) -> Vec<u32> {
    match b {
        BitType::U8 => (0..256).collect(),
        BitType::U16 => (0..65536).collect(),
        _ => {
            let mut v: Vec<f32> = vec![-1e9, -1.0, -0.001, -0.0, 0.0, 1e-30, 1.0, 1.0000001, 1.5, 1e9];
            let mut around = |x: f32| {
                let i = x.to_bits();
                for d in [-2i64, -1, 0, 1, 2] {
                    let y = f32::from_bits((i as i64 + d).max(0) as u32);
                    if y.is_finite() && y >= 0.0 {
                        v.push(y);
                    }
                }
            };
            for k in 0..256 {
                around(k as f32 / 255.0);
                around((k as f32 + 0.5) / 255.0);
            }
            for k in 0..65536 {
                around(k as f32 / 65535.0);
                around((k as f32 + 0.5) / 65535.0);
            }
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.iter().map(|x| x.to_bits()).collect()
        }
    }
}

/// one conversion compared with proportional scaling; sorted says that the samples ascend
fn scaled(im: &Image, m: &M, to: BitType, sorted: bool, what: &str) -> Res {
    if im.depth() != depth_of(to) {
        return bad("depth", format!("{what}: recorded depth {:?}", im.depth()));
    }
    if im.dimensions() != (m.w, m.h) || im.colorspace() != m.cs || im.frames_ref().len() != m.f.len() {
        return bad("shape", format!("{what}: the image changed its shape"));
    }
    if let Err(e) = valid(im) {
        return bad("invalid", format!("{what}: {e}"));
    }
    let (mf, mt) = (max_of(m.bt), max_of(to));
    let got = model_of(im);
    for (gf, f) in got.f.iter().zip(&m.f) {
        for (gp, p) in gf.iter().zip(f) {
            let mut prev = f64::MIN;
            for (g, v) in gp.iter().zip(p) {
                let x = (to_f(m.bt, *v) / mf).clamp(0.0, 1.0);
                let y = to_f(to, *g) / mt;
                let tol = if to == BitType::F32 { 1e-6 } else { 1.0 / mt + 1e-7 };
                if !((x - y).abs() <= tol) {
                    return bad("value", format!("{what}: sample {} became {}", to_f(m.bt, *v), to_f(to, *g)));
                }
                if (x == 0.0 && y != 0.0) || (x == 1.0 && y != 1.0) {
                    return bad("ends", format!("{what}: end of the range {} became {}", to_f(m.bt, *v), to_f(to, *g)));
                }
                if sorted && y < prev {
                    return bad("order", format!("{what}: order lost at sample {}", to_f(m.bt, *v)));
                }
                prev = y;
            }
        }
    }
    Ok(())
}

fn values(ch: &mut Ch) -> Res {
    let from = ch.pick(&DEPTHS);
    let to = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGBA, multi(5)]);
    let frames = 1 + ch.choose(3);
    if from == to {
        ch.discard();
        return Ok(());
    }
    let v = all_values(from);
    ch.state(rank(from) as u64 * 4 + rank(to) as u64);
    let m = M::new(v.len(), 1, cs, from, frames, |_, _, i| v[i]);
    let mut im = m.image();
    ch.note(|| format!("{} to {to:?}", m.short()));
    if let Err(e) = im.convert_depth(depth_of(to)) {
        return bad("failed", format!("{} to {to:?}: {e:?}", m.short()));
    }
    scaled(&im, &m, to, true, &format!("{} to {to:?}", m.short()))?;
    if rank(to) > rank(from) {
        if let Err(e) = im.convert_depth(depth_of(from)) {
            return bad("failed", format!("{} back from {to:?}: {e:?}", m.short()));
        }
        same(&im, &m, &format!("{from:?} widened to {to:?} and narrowed again"))?;
    }
    obs_image(ch, &im);
    Ok(())
}

fn depth_seq(ch: &mut Ch) -> Res {
    let from = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGBA, ColorSpace::LumaA, ColorSpace::ARGB, multi(5)]);
    let frames = 1 + ch.choose(3);
    let v: Vec<u32> = match from {
        BitType::U8 => (0..256).collect(),
        BitType::U16 => (0..65536).step_by(83).chain([65535]).collect(),
        _ => (0..=1000).map(|i| (i as f32 / 1000.0).to_bits()).collect()
    };
    let len = v.len();
    let m = M::new(len, 1, cs, from, frames, |k, c, i| v[(i + k + c * 5) % len]);
    let mut im = m.image();
    // what the samples were when they last lost precision
    let mut origin = m.clone();
    let mut hist = vec![from];
    let depth = if ch.thorough() { 7 } else { 5 };
    for _ in 0..depth {
        let c = ch.choose(4);
        if c == 3 {
            break;
        }
        let to = DEPTHS[c];
        hist.push(to);
        if let Err(e) = im.convert_depth(depth_of(to)) {
            return bad("failed", format!("{hist:?}: {e:?}"));
        }
        ch.state(100 + rank(to) as u64 * 4 + rank(origin.bt) as u64);
        if to == origin.bt {
            same(&im, &origin, &format!("{hist:?}"))?;
        } else {
            scaled(&im, &origin, to, false, &format!("{hist:?}"))?;
        }
        if rank(to) < rank(origin.bt) {
            origin = model_of(&im);
        }
    }
    ch.note(|| format!("{hist:?} {cs:?}"));
    obs_image(ch, &im);
    Ok(())
}

