//! C48 the WebAssembly interface
use crate::dec::*;
use crate::engine::*;
use crate::imgs::*;
use crate::util::*;
use crate::Check;
use std::sync::OnceLock;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::median::Median;
use zune_imageprocs::premul_alpha::PremultiplyAlpha;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};
use zune_wasm::WasmImage;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C48",
        level: "model_checking",
        rule: "every sequence of calls of the interface up to the bound on an image decoded from a file of every format, after each compared with the same operations of the Rust interface; every file of the corpus, every truncation and byte damage of a set of them, decoded and recognised as the Rust interface does; a state is (file, calls made)",
        assumptions: &["the interface is run natively: calls which report an error to JavaScript can't be, and are left out"],
        scenarios: |_| {
            vec![
                Scenario { name: "files", f: files },
                Scenario { name: "calls", f: calls },
                Scenario { name: "saving", f: saving },
                Scenario { name: "damage", f: damage }
            ]
        }
    }]
}

struct Doc {
    name: String,
    bytes: Vec<u8>
}
/// the corpus, and a JPEG XL and a WebP file
fn docs() -> &'static Vec<Doc> {
    static S: OnceLock<Vec<Doc>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Doc> = vec![];
        for (w, h) in [(5, 4), (9, 7)] {
            v.extend(corpus(w, h).into_iter().map(|i| Doc { name: format!("{} {w}x{h}", i.name), bytes: i.bytes }));
            for cs in [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA] {
                for bt in [BitType::U8, BitType::U16] {
                    let m = M::unique(w, h, cs, bt, 1);
                    v.push(Doc { name: format!("jxl {cs:?} {bt:?} {w}x{h}"), bytes: m.image().write_to_vec(ImageFormat::JPEG_XL).unwrap() });
                }
            }
        }
        // 1x1, lossless, opaque
        v.push(Doc { name: "webp".into(), bytes: vec![0x52, 0x49, 0x46, 0x46, 0x1a, 0, 0, 0, 0x57, 0x45, 0x42, 0x50, 0x56, 0x50, 0x38, 0x4c, 0x0d, 0, 0, 0, 0x2f, 0, 0, 0, 0x10, 7, 0x10, 0x11, 0x11, 0x88, 0x88, 0xfe, 7, 0] });
        v
    })
}
/// what decoding means: the image at 8 bits, or nothing
fn expected(b: &[u8]) -> Option<Image> {
    let mut im = Image::read(ZCursor::new(b), DecoderOptions::default()).ok()?;
    Depth::new(BitDepth::Eight).execute(&mut im).ok()?;
    Some(im)
}
fn equal(got: &WasmImage, want: &Image, what: &str) -> Res {
    same(got, &model_of(want), what)?;
    if got.metadata().alpha() != want.metadata().alpha() {
        return bad("alpha", format!("{what}: alpha is {:?}, expected {:?}", got.metadata().alpha(), want.metadata().alpha()));
    }
    if (got.width(), got.height()) != want.dimensions() || got.has_alpha() != want.colorspace().has_alpha() {
        return bad("queries", format!("{what}: {}x{} alpha {}, expected {:?} {:?}", got.width(), got.height(), got.has_alpha(), want.dimensions(), want.colorspace()));
    }
    Ok(())
}
fn decode_as(b: &[u8], what: &str) -> Result<Option<(WasmImage, Image)>, Bad> {
    let g = match guard(|| zune_wasm::decode(b)) {
        Ok(g) => g,
        Err(p) => return bad("decode:panic", format!("{what}: {p}"))
    };
    match (g, expected(b)) {
        (None, None) => Ok(None),
        (Some(_), None) => bad("decode:extra", format!("{what}: gives an image, the Rust interface none")),
        (None, Some(_)) => bad("decode:none", format!("{what}: gives no image")),
        (Some(g), Some(w)) => {
            equal(&g, &w, what)?;
            Ok(Some((g, w)))
        }
    }
}
fn guess_as(b: &[u8], what: &str) -> Res {
    let want = ImageFormat::guess_format(ZCursor::new(b)).map(|x| x.0);
    match guard(|| zune_wasm::guess_format(b).map(|f| f.to_format())) {
        Err(p) => bad("guess:panic", format!("{what}: {p}")),
        Ok(got) if got != want => bad("guess", format!("{what}: recognised as {got:?}, expected {want:?}")),
        Ok(_) => Ok(())
    }
}
fn files(ch: &mut Ch) -> Res {
    let d = &docs()[ch.choose(docs().len())];
    ch.note(|| d.name.clone());
    ch.state(hash_bytes(&d.bytes));
    guess_as(&d.bytes, &d.name)?;
    match decode_as(&d.bytes, &d.name)? {
        None => bad("corpus", format!("{}: not decoded", d.name)),
        Some((mut g, w)) => {
            obs_image(ch, &g);
            let cs = g.colorspace().to_colorspace();
            if cs != w.colorspace() {
                return bad("colorspace", format!("{}: {cs:?}, expected {:?}", d.name, w.colorspace()));
            }
            Ok(())
        }
    }
}

/// an image to start from: what it is, as the interface and as the Rust interface see it
fn starts() -> &'static Vec<(String, WasmImage, Image)> {
    static S: OnceLock<Vec<(String, WasmImage, Image)>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for (f, cs, bt) in [
            (ImageFormat::PNG, ColorSpace::RGB, BitType::U8),
            (ImageFormat::PNG, ColorSpace::RGBA, BitType::U8),
            (ImageFormat::PNG, ColorSpace::Luma, BitType::U16),
            (ImageFormat::QOI, ColorSpace::RGBA, BitType::U8),
            (ImageFormat::PPM, ColorSpace::LumaA, BitType::U8)
        ] {
            let mut m = M::unique(7, 5, cs, bt, 1);
            for p in m.f[0].iter_mut() {
                for (i, x) in p.iter_mut().enumerate() {
                    *x = (*x).wrapping_mul(37).wrapping_add((i * i) as u32) & if bt == BitType::U8 { 255 } else { 65535 };
                }
            }
            let b = m.image().write_to_vec(f).unwrap();
            if let (Some(g), Some(w)) = (zune_wasm::decode(&b), expected(&b)) {
                v.push((format!("{f:?} {cs:?} {bt:?}"), g, w));
            }
        }
        v
    })
}
fn calls(ch: &mut Ch) -> Res {
    let s = starts();
    if s.len() != 5 {
        return bad("corpus", "an image which should be decoded isn't");
    }
    let (name, g, w) = &s[ch.choose(s.len())];
    let (mut g, mut w) = (g.clone(), w.clone());
    let mut what = name.clone();
    let n = 1 + ch.choose(if ch.thorough() { 3 } else { 2 });
    for _ in 0..n {
        let k = ch.choose(34);
        // the Rust operation first: calls that fail can't be made natively
        let other = g.clone();
        let ow = w.clone();
        let run = |op: &dyn OperationsTrait, w: &mut Image| op.execute(w).is_ok();
        let (rw, rh) = w.dimensions();
        let matrix: Vec<f32> = (0..20).map(|i| ((i * 7) % 11) as f32 / 22.0).collect();
        macro_rules! step {
            ($name:expr, $op:expr, $call:expr) => {{
                what = format!("{what}, {}", $name);
                let ok = match guard(|| {
                    let op = $op;
                    run(&op, &mut w)
                }) {
                    Ok(o) => o,
                    Err(_) => false
                };
                if !ok {
                    ch.discard();
                    return Ok(());
                }
                match guard(|| $call.is_ok()) {
                    Ok(true) => {}
                    Ok(false) => return bad("call", format!("{what}: fails")),
                    Err(p) => return bad("call:panic", format!("{what}: {p}"))
                }
            }};
        }
        match k {
            0 => step!("stretch_contrast(10, 200)", StretchContrast::new(10.0, 200.0), g.stretch_contrast(10.0, 200.0)),
            1 => step!("stretch_contrast(60.5, 61)", StretchContrast::new(60.5, 61.0), g.stretch_contrast(60.5, 61.0)),
            2 => step!("brighten(0.25)", Brighten::new(0.25), g.brighten(0.25)),
            3 => step!("brighten(-0.5)", Brighten::new(-0.5), g.brighten(-0.5)),
            4 => step!("contrast(40)", Contrast::new(40.0), g.contrast(40.0)),
            5 => step!("contrast(-90)", Contrast::new(-90.0), g.contrast(-90.0)),
            6 => step!("crop(3,2,1,1)", Crop::new(3, 2, 1, 1), g.crop(3, 2, 1, 1)),
            7 => step!("crop(w-1,h,1,0)", Crop::new(rw - 1, rh, 1, 0), g.crop(rw - 1, rh, 1, 0)),
            8 => step!("crop(w,h-1,0,1)", Crop::new(rw, rh - 1, 0, 1), g.crop(rw, rh - 1, 0, 1)),
            9 => step!("gamma(2.2)", Gamma::new(2.2), g.gamma(2.2)),
            10 => step!("invert", Invert::new(), g.invert()),
            11 => step!("threshold(100)", Threshold::new(100.0, ThresholdMethod::Binary), g.threshold(100.0)),
            12 => step!("grayscale", ColorspaceConv::new(ColorSpace::Luma), g.grayscale()),
            13 => step!("mean_filter(1)", SpatialOps::new(1, SpatialOperations::Mean), g.mean_filter(1)),
            14 => step!("mean_filter(2)", SpatialOps::new(2, SpatialOperations::Mean), g.mean_filter(2)),
            15 => step!("auto_orient", AutoOrient, g.auto_orient()),
            16 => step!("bilateral_filter(3, 30, 2)", BilateralFilter::new(3, 30.0, 2.0), g.bilateral_filter(3, 30.0, 2.0)),
            17 => step!("bilateral_filter(-1, 60, 1)", BilateralFilter::new(-1, 60.0, 1.0), g.bilateral_filter(-1, 60.0, 1.0)),
            18 | 19 => {
                // with an image which differs: itself turned around
                let mut o = other;
                let mut r = ow;
                let flip = Flip::new(FlipDirection::Horizontal);
                if flip.execute(&mut r).is_err() || flip.execute(&mut o).is_err() {
                    ch.discard();
                    return Ok(());
                }
                let a = if k == 18 { 0.3 } else { 0.9 };
                step!(format!("blend with its mirror image, {a}"), Blend::new(&r, a), g.blend(&o, a))
            }
            20 => step!("box_blur(2)", BoxBlur::new(2), g.box_blur(2)),
            21 => step!("exposure(1.5, 0.1)", Exposure::new(1.5, 0.1), g.exposure(1.5, 0.1)),
            22 => step!("flip_horizontal", Flip::new(FlipDirection::Horizontal), g.flip_horizontal()),
            23 => step!("flip_vertical", Flip::new(FlipDirection::Vertical), g.flip_vertical()),
            24 => step!("gaussian_blur(1)", GaussianBlur::new(1.0), g.gaussian_blur(1.0)),
            25 => step!("hsv_adjust(40, 1.2, 0.9)", HsvAdjust::new(40.0, 1.2, 0.9), g.hsv_adjust(40.0, 1.2, 0.9)),
            26 => step!("median(1)", Median::new(1), g.median(1)),
            27 => step!("premultiply", PremultiplyAlpha::new(AlphaState::PreMultiplied), g.premultiply()),
            28 => step!("unpremultiply", PremultiplyAlpha::new(AlphaState::NonPreMultiplied), g.unpremultiply()),
            29 => step!("color_matrix", ColorMatrix::try_from_slice(&matrix).unwrap(), g.color_matrix(&matrix)),
            // colour spaces as the interface has them are those of other images
            _ => {
                let to = starts()[k - 30].2.colorspace();
                let c = starts()[k - 30].1.clone().colorspace();
                step!(format!("convert_color({to:?})"), ColorspaceConv::new(to), g.convert_color(c))
            }
        }
        equal(&g, &w, &what)?;
        let cs = g.colorspace().to_colorspace();
        if cs != w.colorspace() {
            return bad("colorspace", format!("{what}: {cs:?}, expected {:?}", w.colorspace()));
        }
    }
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &g);
    Ok(())
}
fn saving(ch: &mut Ch) -> Res {
    let s = starts();
    let (name, g, w) = &s[ch.choose(s.len())];
    // formats as the interface has them are those of recognised files
    let d = &docs()[ch.choose(docs().len())];
    let what = format!("{name} saved in the format of {}", d.name);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let Some(f) = zune_wasm::guess_format(&d.bytes) else { return bad("corpus", format!("{} is not recognised", d.name)) };
    let want = match w.write_to_vec(f.to_format()) {
        Ok(v) => v,
        Err(_) => {
            ch.discard();
            return Ok(());
        }
    };
    match guard(|| g.save_to(f).ok()) {
        Err(p) => bad("save:panic", format!("{what}: {p}")),
        Ok(None) => bad("save", format!("{what}: fails")),
        Ok(Some(v)) => {
            ch.obs_bytes(&v);
            if v != want {
                return bad("save:bytes", format!("{what}: {}", first_diff(&v, &want)));
            }
            Ok(())
        }
    }
}
fn damage(ch: &mut Ch) -> Res {
    let v = docs();
    let step = if ch.thorough() { 1 } else { 5 };
    let d = &v[ch.choose(v.len() / step) * step];
    let at = ch.choose(d.bytes.len() + 1);
    let mut b = d.bytes.clone();
    let how = if at == b.len() { 0 } else { ch.choose(if ch.thorough() { 4 } else { 2 }) };
    match how {
        0 => b.truncate(at),
        1 => b[at] = !b[at],
        2 => b[at] = 0,
        _ => b[at] ^= 1
    }
    let what = format!("{} damaged at {at} in way {how}", d.name);
    ch.note(|| what.clone());
    // large announced dimensions only take time
    if let Ok(Some((w, h))) = guard(|| dims_of(&b)) {
        if w * h > 100 * 100 {
            ch.discard();
            return Ok(());
        }
    }
    ch.state(hash_bytes(&b));
    guess_as(&b, &what)?;
    if let Some((g, _)) = decode_as(&b, &what)? {
        obs_image(ch, &g);
    }
    Ok(())
}
fn dims_of(b: &[u8]) -> Option<(usize, usize)> {
    let (f, c) = ImageFormat::guess_format(ZCursor::new(b))?;
    let mut d = f.decoder(c).ok()?;
    d.read_headers().ok()?;
    d.dimensions()
}
