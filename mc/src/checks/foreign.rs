//! C46 WebP and JPEG XL files read as images
use crate::engine::*;
use crate::imgs::*;
use crate::util::*;
use crate::Check;
use image_webp::{ColorType, WebPEncoder};
use std::io::{BufReader, Cursor};
use std::sync::OnceLock;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::jpeg_xl::JxlEncoder;
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zune_image::traits::{EncoderTrait, OperationsTrait};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C46",
        level: "model_checking",
        rule: "every image of the bound (dimensions, colour types, sample patterns, every tiny image over extreme values) written as a lossless WebP or JPEG XL file, with and without metadata chunks, read back as an image from memory and from a reader; every pair of file dimensions and limits around each other; every truncation of a set of files, and every byte of them replaced by each of a set of values; a state is (image, file form, options)",
        assumptions: &["image-webp writes lossless files correctly, and jxl-oxide and image-webp decode correctly"],
        scenarios: |_| {
            vec![
                Scenario { name: "webp", f: webp },
                Scenario { name: "webp-values", f: webp_values },
                Scenario { name: "jxl", f: jxl },
                Scenario { name: "limits", f: limits },
                Scenario { name: "huge", f: huge },
                Scenario { name: "cut", f: cut },
                Scenario { name: "damage", f: damage }
            ]
        }
    }]
}

fn read(f: &[u8], src: usize, o: DecoderOptions) -> Result<Image, String> {
    match src {
        0 => Image::read(ZCursor::new(f), o),
        1 => Image::read(BufReader::with_capacity(16, Cursor::new(f)), o),
        _ => Image::read(Cursor::new(f), o)
    }
    .map_err(|e| format!("{e:?}"))
}
fn meta(im: &Image, f: ImageFormat, what: &str) -> Res {
    let m = im.metadata();
    if m.image_format() != Some(f) {
        return bad("format", format!("{what}: the format is reported as {:?}", m.image_format()));
    }
    if !f.has_decoder() {
        return bad("has_decoder", format!("{what}: was read, but {f:?} is said to have no decoder"));
    }
    Ok(())
}
fn sample(kind: usize, x: usize, y: usize, c: usize) -> u8 {
    match kind {
        0 => {
            let mut h = (x * 0x9E37 + y * 0x85EB_CA6B + c * 0xC2B2_AE35 + 77) as u32;
            h ^= h >> 15;
            h = h.wrapping_mul(0x2C1B_3C6D);
            (h >> 11) as u8
        }
        1 => (x * 3 + y * 5 + c * 40) as u8,
        2 => if (x + y + c) % 2 == 0 { 255 } else { 0 },
        _ => if (x * 7 + y * 13 + c) % 11 == 0 { 129 } else { 250 - 3 * c as u8 }
    }
}
// ------------------------------------------------------------------------------------- WebP
const CT: [(ColorType, usize); 4] = [(ColorType::L8, 1), (ColorType::La8, 2), (ColorType::Rgb8, 3), (ColorType::Rgba8, 4)];
fn webp_file(px: &[u8], w: usize, h: usize, ct: ColorType, extra: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut e = WebPEncoder::new(&mut v);
    if extra & 1 != 0 {
        e.set_icc_profile(b"a profile of odd length".to_vec());
    }
    if extra & 2 != 0 {
        e.set_exif_metadata(b"MM\0*\0\0\0\x08\0\0".to_vec());
    }
    if extra & 4 != 0 {
        e.set_xmp_metadata(b"<x/>".to_vec());
    }
    e.encode(px, w as u32, h as u32, ct).unwrap();
    v
}
/// what reading the file has to give
fn webp_model(px: &[u8], w: usize, h: usize, n: usize) -> M {
    let cs = if n % 2 == 0 { ColorSpace::RGBA } else { ColorSpace::RGB };
    M::new(w, h, cs, BitType::U8, 1, |_, p, i| {
        let b = &px[i * n..i * n + n];
        (if p == 3 { b[n - 1] } else if n < 3 { b[0] } else { b[p] }) as u32
    })
}
fn webp_is(ch: &mut Ch, px: &[u8], w: usize, h: usize, k: usize, extra: usize, src: usize, what: &str) -> Res {
    let (ct, n) = CT[k];
    let f = webp_file(px, w, h, ct, extra);
    let im = match read(&f, src, DecoderOptions::default()) {
        Ok(im) => im,
        Err(e) => return bad("webp:rejected", format!("{what}: {e}"))
    };
    obs_image(ch, &im);
    if im.dimensions() != (w, h) {
        return bad("webp:dims", format!("{what}: read as {:?}", im.dimensions()));
    }
    // the encoder may leave out a channel of opaque samples: compare what is shown
    let mut m = webp_model(px, w, h, n);
    if n % 2 == 0 && im.colorspace() == ColorSpace::RGB && m.f[0][3].iter().all(|x| *x == 255) {
        m.cs = ColorSpace::RGB;
        m.f[0].pop();
    }
    meta(&im, ImageFormat::WEBP, what)?;
    same(&im, &m, what)
}
fn webp(ch: &mut Ch) -> Res {
    let k = ch.choose(4);
    let kind = ch.choose(4);
    let dims: Vec<(usize, usize)> = if ch.thorough() {
        (1..=20).flat_map(|w| (1..=9).map(move |h| (w, h))).chain([(1, 300), (300, 1), (129, 65), (64, 64)]).collect()
    } else {
        vec![(1, 1), (2, 1), (1, 3), (4, 4), (5, 3), (16, 2), (17, 9), (1, 70), (70, 1), (33, 31)]
    };
    let (w, h) = *ch.pick_ref(&dims);
    let extra = ch.choose(8);
    let src = ch.choose(3);
    let n = CT[k].1;
    let what = format!("webp of {w}x{h} {n} channels pattern {kind} metadata {extra} source {src}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let px: Vec<u8> = (0..w * h * n).map(|i| sample(kind, i / n % w, i / n / w, i % n)).collect();
    webp_is(ch, &px, w, h, k, extra, src, &what)
}
fn webp_values(ch: &mut Ch) -> Res {
    let k = ch.choose(4);
    let n = CT[k].1;
    let (w, h) = ch.pick(&[(2usize, 2usize), (3, 1)]);
    let vals: &[u8] = match (n, ch.thorough()) {
        (1, _) => &[0, 1, 127, 128, 254, 255],
        (2, false) => &[0, 255],
        (2, true) => &[0, 128, 255],
        (_, _) => &[0, 255]
    };
    let free = (w * h * n).min(if ch.thorough() { 14 } else { 10 });
    let px: Vec<u8> = (0..w * h * n).map(|i| if i < free { *ch.pick_ref(vals) } else { (i * 57) as u8 }).collect();
    let what = format!("webp of {w}x{h} {n} channels {px:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    webp_is(ch, &px, w, h, k, 0, 0, &what)
}
// ------------------------------------------------------------------------------------- JPEG XL
const JCS: [ColorSpace; 4] = [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA];
fn jxl_file(m: &M, effort: u8) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    JxlEncoder::new_with_options(EncoderOptions::default().set_effort(effort).set_num_threads(0)).encode(&m.image(), &mut v).map_err(|e| format!("{e:?}"))?;
    Ok(v)
}
fn jxl(ch: &mut Ch) -> Res {
    let cs = ch.pick(&JCS);
    let bt = ch.pick(&[BitType::U8, BitType::U16]);
    let kind = ch.choose(4);
    let dims: Vec<(usize, usize)> = if ch.thorough() {
        (2..=20).flat_map(|w| (2..=6).map(move |h| (w, h))).chain([(2, 300), (300, 2), (129, 65), (257, 258)]).collect()
    } else {
        vec![(2, 2), (3, 2), (2, 3), (16, 2), (17, 9), (2, 70), (257, 3)]
    };
    let (w, h) = *ch.pick_ref(&dims);
    let effort = ch.pick(&[4u8, 127]);
    let src = ch.choose(3);
    let what = format!("jxl of {w}x{h} {cs:?} {bt:?} pattern {kind} effort {effort} source {src}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let top = max_of(bt) as u32;
    let m = M::new(w, h, cs, bt, 1, |_, p, i| {
        let v = sample(kind, i % w, i / w, p) as u32;
        if top == 255 { v } else { v * 257 ^ (kind as u32 & 1) * (i as u32 & 63) }
    });
    let f = match jxl_file(&m, effort) {
        Ok(f) => f,
        Err(e) => return bad("jxl:encode", format!("{what}: {e}"))
    };
    let im = match read(&f, src, DecoderOptions::default()) {
        Ok(im) => im,
        Err(e) => return bad("jxl:rejected", format!("{what}: {e}"))
    };
    obs_image(ch, &im);
    if im.dimensions() != (w, h) || im.colorspace() != cs || im.frames_ref().len() != 1 {
        return bad("jxl:shape", format!("{what}: read as {:?} {:?} {} frames", im.dimensions(), im.colorspace(), im.frames_ref().len()));
    }
    if im.depth() != BitDepth::Float32 {
        return bad("jxl:depth", format!("{what}: read with depth {:?}", im.depth()));
    }
    meta(&im, ImageFormat::JPEG_XL, &what)?;
    near(&im, &what, 1.0 / 65535.0 / 4.0, |_, p, i| Some(m.f[0][p][i] as f64 / top as f64))?;
    // and the original samples at their own depth
    let mut im = im;
    if let Err(e) = zune_image::core_filters::depth::Depth::new(depth_of(bt)).execute(&mut im) {
        return bad("jxl:back", format!("{what}: {e:?}"));
    }
    near(&im, &format!("{what}, at its own depth"), 1.0, |_, p, i| Some(m.f[0][p][i] as f64))
}
// ------------------------------------------------------------------------------------- limits, damage
struct File {
    name: String,
    bytes: Vec<u8>,
    w: usize,
    h: usize,
    shown: Option<Image>
}
fn files() -> &'static Vec<File> {
    static S: OnceLock<Vec<File>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for (i, (w, h)) in [(7usize, 5usize), (12, 3), (3, 17)].into_iter().enumerate() {
            for (ct, n) in [CT[0], CT[2], CT[3]] {
                let px: Vec<u8> = (0..w * h * n).map(|k| sample(i, k / n % w, k / n / w, k % n)).collect();
                for extra in [0, 7] {
                    v.push(File { name: format!("webp {w}x{h} of {n} channels metadata {extra}"), bytes: webp_file(&px, w, h, ct, extra), w, h, shown: None });
                }
            }
            for cs in [ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA] {
                for bt in [BitType::U8, BitType::U16] {
                    let m = M::new(w, h, cs, bt, 1, |_, p, k| sample(i, k % w, k / w, p) as u32);
                    v.push(File { name: format!("jxl {w}x{h} {cs:?} {bt:?}"), bytes: jxl_file(&m, 4).unwrap(), w, h, shown: None });
                }
            }
        }
        for f in v.iter_mut() {
            f.shown = read(&f.bytes, 0, DecoderOptions::default()).ok();
        }
        v
    })
}
fn pick_file(ch: &mut Ch) -> &'static File {
    let v = files();
    &v[ch.choose(v.len())]
}
fn limits(ch: &mut Ch) -> Res {
    let f = pick_file(ch);
    let lw = ch.pick(&[0, 1, f.w - 1, f.w, f.w + 1, 16384]);
    let lh = ch.pick(&[0, 1, f.h - 1, f.h, f.h + 1, 16384]);
    let src = ch.choose(3);
    let what = format!("{} with limits {lw}x{lh} source {src}", f.name);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let got = guard(|| read(&f.bytes, src, DecoderOptions::default().set_max_width(lw).set_max_height(lh)));
    let fmt = &f.name[..4];
    let over = f.w > lw || f.h > lh;
    match got {
        Err(p) => bad(format!("limits:panic:{fmt}"), format!("{what}: {p}")),
        Ok(Ok(_)) if over => bad(format!("limits:accept:{fmt}"), format!("{what}: decoded although larger than the limits")),
        Ok(Err(e)) if !over => bad(format!("limits:reject:{fmt}"), format!("{what}: {e}")),
        Ok(Ok(im)) => {
            obs_image(ch, &im);
            match &f.shown {
                Some(s) => same(&im, &model_of(s), &what),
                None => bad("corpus", what)
            }
        }
        Ok(Err(_)) => Ok(())
    }
}
/// An announced canvas larger than what the limits allow is refused before memory is taken for it
fn huge(ch: &mut Ch) -> Res {
    let dims = [3usize, 16383, 16384, 16385, 65536, 1 << 20, 1 << 24];
    let w = ch.pick(&dims);
    let h = ch.pick(&dims);
    let alpha = ch.flag();
    let src = ch.choose(3);
    let what = format!("webp with an announced canvas of {w}x{h} alpha {alpha} source {src}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    if w <= 16384 && h <= 16384 {
        ch.trivial();
        return Ok(());
    }
    let small = webp_file(&[1, 2, 3, 4, 5, 6, 7, 8, 9], 3, 1, ColorType::Rgb8, 0);
    let mut f = b"RIFF\0\0\0\0WEBPVP8X\x0a\0\0\0".to_vec();
    f.extend([if alpha { 16 } else { 0 }, 0, 0, 0]);
    f.extend(&((w - 1) as u32).to_le_bytes()[..3]);
    f.extend(&((h - 1) as u32).to_le_bytes()[..3]);
    f.extend(&small[12..]);
    let n = (f.len() - 8) as u32;
    f[4..8].copy_from_slice(&n.to_le_bytes());
    crate::alloc::reset_peak();
    let r = guard(|| read(&f, src, DecoderOptions::default()));
    let peak = crate::alloc::peak();
    ch.obs(r.is_ok() as u64);
    match r {
        Err(p) => bad("huge:panic", format!("{what}: {p}")),
        Ok(Ok(_)) => bad("huge:accept", format!("{what}: decoded")),
        Ok(Err(_)) if peak > 1 << 26 => bad("huge:memory", format!("{what}: {peak} bytes were allocated before it was refused")),
        Ok(Err(_)) => Ok(())
    }
}
fn cut(ch: &mut Ch) -> Res {
    let f = pick_file(ch);
    let at = ch.choose(f.bytes.len());
    let src = ch.choose(3);
    let what = format!("{} cut at {at} of {} source {src}", f.name, f.bytes.len());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let fmt = &f.name[..4];
    match guard(|| read(&f.bytes[..at], src, DecoderOptions::default())) {
        Err(p) => bad(format!("cut:panic:{fmt}"), format!("{what}: {p}")),
        Ok(Err(_)) => Ok(()),
        // what is left may hold the whole image
        Ok(Ok(im)) => {
            obs_image(ch, &im);
            same(&im, &model_of(f.shown.as_ref().unwrap()), &what)
        }
    }
}
fn damage(ch: &mut Ch) -> Res {
    let f = pick_file(ch);
    let at = ch.choose(f.bytes.len());
    let v = ch.pick(&[0u8, 255, 1, 128]);
    let x = if ch.thorough() { ch.flag() } else { false };
    let mut b = f.bytes.clone();
    b[at] = if x { b[at].wrapping_add(v | 1) } else { v };
    if b[at] == f.bytes[at] {
        ch.discard();
        return Ok(());
    }
    let what = format!("{} byte {at} set to {}", f.name, b[at]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let fmt = &f.name[..4];
    match guard(|| read(&b, 0, DecoderOptions::default().set_max_width(96).set_max_height(96))) {
        Err(p) => bad(format!("damage:panic:{fmt}"), format!("{what}: {p}")),
        Ok(Err(_)) => {
            ch.obs(1);
            Ok(())
        }
        Ok(Ok(im)) => {
            obs_image(ch, &im);
            let (w, h) = im.dimensions();
            if w > 96 || h > 96 {
                return bad(format!("damage:limits:{fmt}"), format!("{what}: {w}x{h}"));
            }
            match valid(&im) {
                Ok(()) => Ok(()),
                Err(e) => bad(format!("damage:valid:{fmt}"), format!("{what}: {e}"))
            }
        }
    }
}
