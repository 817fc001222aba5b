//! C24 lossless round trips, C25 sinks and repeatability of encoders, C32 format detection
use crate::dec;
use crate::engine::*;
use crate::imgs::*;
use crate::util::pattern;
use crate::Check;
use std::io::{BufReader, Cursor, Seek, Write};
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::traits::{EncoderTrait, OperationsTrait};

pub fn checks() -> Vec<Check> {
    let c = |id, rule, assumptions, scenarios| Check { id, level: "model_checking", rule, assumptions, scenarios };
    vec![
        c(
            "C24",
            "every lossless format x colour space x depth x dimensions (small ones and those around the block sizes of the formats) x sample pattern x encoding route, decoded again through the library; a state is an image with a format and a route",
            &["the documented conversions are those of the library's own conversion operations, which have properties of their own"],
            |_| vec![
                Scenario { name: "exact", f: exact },
                Scenario { name: "sizes", f: sizes },
                Scenario { name: "values", f: values },
                Scenario { name: "options", f: options },
                Scenario { name: "converted", f: converted },
                Scenario { name: "hdr", f: hdr },
                Scenario { name: "reuse", f: reuse },
                Scenario { name: "exif", f: exif }
            ]
        ),
        c(
            "C25",
            "every format x image x every byte and every call at which the sink can refuse, in every way it can refuse, sinks that take few bytes at a time or are interrupted, fixed buffers of every size around the needed one, and files that cannot be written; a state is an image, a format and a fault",
            &["a sink reports a refused write with an error or by taking no bytes, as std::io::Write allows"],
            |_| vec![
                Scenario { name: "refuse", f: refuse },
                Scenario { name: "trickle", f: trickle },
                Scenario { name: "fixed", f: fixed },
                Scenario { name: "promised", f: promised },
                Scenario { name: "repeat", f: repeat },
                Scenario { name: "files", f: files }
            ]
        ),
        c(
            "C32",
            "every signature x every length of prefix x every following byte fill x every single-byte alteration, every two-byte beginning, sources of every kind and starting position, compared with a signature table; a state is a prefix",
            &[],
            |_| vec![
                Scenario { name: "prefixes", f: prefixes },
                Scenario { name: "altered", f: altered },
                Scenario { name: "two-bytes", f: two_bytes },
                Scenario { name: "corpus", f: corpus_guess },
                Scenario { name: "position", f: position }
            ]
        ),
    ]
}

type FmtId = ImageFormat;
const LOSSLESS: [FmtId; 4] = [ImageFormat::PNG, ImageFormat::QOI, ImageFormat::PPM, ImageFormat::Farbfeld];

fn can(f: FmtId, cs: ColorSpace, b: BitType) -> bool {
    use ColorSpace::*;
    match f {
        ImageFormat::PNG | ImageFormat::PPM => [Luma, LumaA, RGB, RGBA].contains(&cs) && b != BitType::F32,
        ImageFormat::QOI => [RGB, RGBA].contains(&cs) && b == BitType::U8,
        ImageFormat::Farbfeld => cs == RGBA && b == BitType::U16,
        ImageFormat::HDR => cs == RGB && b == BitType::F32,
        _ => false
    }
}
fn modes(f: FmtId) -> Vec<(ColorSpace, BitType)> {
    let mut v = vec![];
    for cs in ALL_COLORSPACES {
        for b in DEPTHS {
            if can(f, cs, b) {
                v.push((cs, b));
            }
        }
    }
    v
}
/// i-th of the sample patterns
fn patterned(w: usize, h: usize, cs: ColorSpace, b: BitType, k: usize) -> M {
    let r = pattern(w * h * cs.num_components() * 2 + 2, (w * 7 + h) as u32);
    let n = cs.num_components();
    let hi = if b == BitType::U8 { 0xff } else { 0xffff };
    M::new(w, h, cs, b, 1, |_, c, i| match k {
        0 => distinct(b, c * w * h + i),
        // noise
        1 => (r[(i * n + c) * 2] as u32 * 256 + r[(i * n + c) * 2 + 1] as u32) & hi,
        // long runs
        2 => (i as u32 / 70) * 37 & hi,
        // extremes
        3 => {
            if (i + c) % 2 == 0 {
                hi
            } else {
                0
            }
        }
        // gentle slopes: small differences between neighbours
        _ => (i as u32 / 3 + (c as u32) * (i as u32 % 5)) & hi
    })
}
const ROUTES: usize = 5;
fn encode_by(route: usize, f: FmtId, im: &Image) -> Result<Vec<u8>, ImageErrors> {
    let mut v = vec![];
    let o = EncoderOptions::default();
    match route {
        0 => return im.write_to_vec(f),
        1 => {
            im.encode(f, &mut v)?;
        }
        2 => {
            f.encode(im, o, Cursor::new(&mut v))?;
        }
        3 => match f {
            ImageFormat::PNG => zune_image::codecs::png::PngEncoder::new().encode(im, &mut v).map(|_| ())?,
            ImageFormat::QOI => zune_image::codecs::qoi::QoiEncoder::new().encode(im, &mut v).map(|_| ())?,
            ImageFormat::PPM => zune_image::codecs::ppm::PPMEncoder::new().encode(im, &mut v).map(|_| ())?,
            ImageFormat::HDR => zune_image::codecs::hdr::HdrEncoder::new().encode(im, &mut v).map(|_| ())?,
            ImageFormat::JPEG => zune_image::codecs::jpeg::JpegEncoder::new().encode(im, &mut v).map(|_| ())?,
            _ => zune_image::codecs::farbfeld::FarbFeldEncoder::new().encode(im, &mut v).map(|_| ())?
        },
        _ => {
            let r = match f {
                ImageFormat::PNG => zune_image::codecs::png::PngEncoder::new_with_options(o).encode_to_result(im)?,
                ImageFormat::QOI => zune_image::codecs::qoi::QoiEncoder::new_with_options(o).encode_to_result(im)?,
                ImageFormat::PPM => zune_image::codecs::ppm::PPMEncoder::new_with_options(o).encode_to_result(im)?,
                ImageFormat::HDR => zune_image::codecs::hdr::HdrEncoder::new_with_options(o).encode_to_result(im)?,
                ImageFormat::JPEG => zune_image::codecs::jpeg::JpegEncoder::new_with_options(o).encode_to_result(im)?,
                _ => zune_image::codecs::farbfeld::FarbFeldEncoder::new_with_options(o).encode_to_result(im)?
            };
            if r.format() != f {
                return Err(ImageErrors::GenericString(format!("the result is marked {:?}", r.format())));
            }
            return Ok(r.data().to_vec());
        }
    }
    Ok(v)
}
fn round(f: FmtId, m: &M, exp: &M, route: usize, what: &str) -> Res {
    let im = m.image();
    let v = match encode_by(route, f, &im) {
        Ok(v) => v,
        Err(e) => return bad(format!("{f:?}-encode-rejected"), format!("{what}: encoding fails: {e:?}"))
    };
    let back = match Image::read(ZCursor::new(&v[..]), DecoderOptions::default()) {
        Ok(i) => i,
        Err(e) => return bad(format!("{f:?}-undecodable"), format!("{what}: the {} encoded bytes do not decode: {e:?}", v.len()))
    };
    match same(&back, exp, what) {
        Ok(()) => Ok(()),
        Err(b) => bad(format!("{f:?}-{}", b.key), b.msg)
    }
}
fn exact(ch: &mut Ch) -> Res {
    let f = ch.pick(&LOSSLESS);
    let ms = modes(f);
    let (cs, b) = *ch.pick_ref(&ms);
    let n = if ch.thorough() { 20 } else { 9 };
    let (w, h) = (1 + ch.choose(n), 1 + ch.choose(n));
    let k = ch.choose(5);
    let route = ch.choose(ROUTES);
    let m = patterned(w, h, cs, b, k);
    let what = format!("{f:?} {} pattern {k} route {route}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    round(f, &m, &m, route, &what)
}
fn sizes(ch: &mut Ch) -> Res {
    let f = ch.pick(&LOSSLESS);
    let ms = modes(f);
    let (cs, b) = *ch.pick_ref(&ms);
    let bpp = cs.num_components() * size_of(b);
    // a row, or the whole image, around the block sizes 8192, 32768, 65535 and QOI runs of 62
    let (w, h) = match ch.choose(4) {
        0 => {
            let t = ch.pick(&[8192usize, 32768, 65535, 65536]) / bpp;
            let w = (t + ch.choose(4)).saturating_sub(2).clamp(1, 16384);
            (w, 1)
        }
        1 => {
            // rows of 1 + bpp * w bytes: many rows
            let rb = 1 + bpp * (3 + ch.choose(3));
            let t = ch.pick(&[8192usize, 65535, 131070]);
            ((rb - 1) / bpp, ((t / rb + ch.choose(4)).max(2) - 1).min(16384))
        }
        2 => (ch.pick(&[61usize, 62, 63, 64, 123, 124, 125, 126, 186, 248]), 1 + ch.choose(2)),
        _ => ch.pick(&[(16384, 1), (1, 16384), (16383, 2), (255, 257), (256, 256), (300, 200)])
    };
    let k = ch.choose(5);
    let m = patterned(w, h, cs, b, k);
    let what = format!("{f:?} {} pattern {k}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    round(f, &m, &m, 0, &what)
}
/// every sample value in every channel, next to every neighbour of a set
fn values(ch: &mut Ch) -> Res {
    let f = ch.pick(&LOSSLESS);
    let ms = modes(f);
    let (cs, b) = *ch.pick_ref(&ms);
    let n = cs.num_components();
    let c = ch.choose(n);
    let other = ch.choose(4);
    let step = ch.pick(&[1u32, 3, 7, 64, 128, 255]);
    let hi = if b == BitType::U8 { 255u32 } else { 65535 };
    let (w, h) = if b == BitType::U8 { (256, 4) } else { (1024, 64) };
    let m = M::new(w, h, cs, b, 1, |_, p, i| {
        let v = (i as u32).wrapping_mul(step) & hi;
        if p == c {
            v
        } else {
            match other {
                0 => 0,
                1 => hi,
                2 => v,
                _ => hi - v
            }
        }
    });
    let what = format!("{f:?} {} channel {c} through all values in steps of {step}, the others mode {other}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    round(f, &m, &m, 0, &what)
}
/// encoder options other than the geometry change nothing in what is decoded
fn options(ch: &mut Ch) -> Res {
    let f = ch.pick(&LOSSLESS);
    let ms = modes(f);
    let (cs, b) = *ch.pick_ref(&ms);
    let (w, h) = ch.pick(&[(1, 1), (5, 4), (64, 9)]);
    let m = patterned(w, h, cs, b, 1);
    let mut o = match ch.choose(3) {
        0 => EncoderOptions::default(),
        // geometry of another image
        1 => EncoderOptions::new(3, 2, ColorSpace::LumaA, BitDepth::Sixteen),
        _ => EncoderOptions::new(70, 1, ColorSpace::RGBA, BitDepth::Eight)
    };
    o = o.set_quality(ch.pick(&[0u8, 50, 100]));
    o = o.set_effort(ch.pick(&[0u8, 4, 127]));
    o = o.set_num_threads(ch.pick(&[0u8, 1, 8]));
    o = o.set_jpeg_encode_progressive(ch.flag());
    o = o.set_strip_metadata(ch.flag());
    let what = format!("{f:?} {} with {o:?}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let im = m.image();
    let mut v = vec![];
    if let Err(e) = f.encode(&im, o, &mut v) {
        return bad(format!("{f:?}-encode-rejected"), format!("{what}: {e:?}"));
    }
    match Image::read(ZCursor::new(&v[..]), DecoderOptions::default()) {
        Ok(i) => same(&i, &m, &what),
        Err(e) => bad(format!("{f:?}-undecodable"), format!("{what}: {e:?}"))
    }
}
/// images the format cannot hold as they are
fn converted(ch: &mut Ch) -> Res {
    let f = ch.pick(&[ImageFormat::PNG, ImageFormat::QOI, ImageFormat::PPM, ImageFormat::Farbfeld]);
    let mut css = ALL_COLORSPACES.to_vec();
    css.extend([ColorSpace::Unknown, multi(1), multi(5)]);
    let cs = ch.pick(&css);
    if cs == ColorSpace::Unknown {
        ch.discard();
        return Ok(());
    }
    let b = ch.pick(&DEPTHS);
    let (w, h) = ch.pick(&[(1, 1), (3, 2), (17, 5)]);
    let k = ch.choose(3);
    let frames = 1 + ch.choose(3);
    let route = ch.choose(ROUTES);
    let m = match b {
        BitType::F32 => M::new(w, h, cs, b, frames, |f, c, i| [0.0f32, 1.0, 0.5, 0.25, 0.999, 0.1, 1.0 / 3.0][(i * 3 + c * 5 + k + f) % 7].to_bits()),
        _ => {
            let mut m = patterned(w, h, cs, b, k);
            for _ in 1..frames {
                let p = m.f[0].iter().map(|p| p.iter().rev().copied().collect()).collect();
                m.f.push(p);
            }
            m
        }
    };
    let what = format!("{f:?} {} pattern {k} route {route}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    // what is documented: RGB (or with alpha where the format is always, or the image already is, with alpha),
    // and 8 bits for QOI, 16 for farbfeld and for float samples elsewhere
    let holds = |c: ColorSpace| match f {
        ImageFormat::QOI => matches!(c, ColorSpace::RGB | ColorSpace::RGBA),
        ImageFormat::Farbfeld => c == ColorSpace::RGBA,
        _ => matches!(c, ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::Luma | ColorSpace::LumaA)
    };
    let tcs = match f {
        _ if holds(cs) => cs,
        ImageFormat::Farbfeld => ColorSpace::RGBA,
        ImageFormat::QOI if cs.has_alpha() => ColorSpace::RGBA,
        _ => ColorSpace::RGB
    };
    let tb = match f {
        ImageFormat::QOI => BitDepth::Eight,
        ImageFormat::Farbfeld => BitDepth::Sixteen,
        _ if b == BitType::F32 => BitDepth::Sixteen,
        _ => depth_of(b)
    };
    let im = m.image();
    let mut e = im.clone();
    e = match guard(|| ColorspaceConv::new(tcs).execute(&mut e).and_then(|_| Depth::new(tb).execute(&mut e)).map(|_| e)) {
        Ok(Ok(e)) => e,
        Ok(Err(_)) => {
            // no such conversion: encoding has to report that
            ch.obs(1);
            return match encode_by(route, f, &im) {
                Err(_) => Ok(()),
                Ok(_) => bad(format!("{f:?}-unconvertible"), format!("{what}: encoded although {cs:?} cannot be converted to {tcs:?}"))
            };
        }
        // a crashing conversion is the subject of the conversion properties
        Err(_) => {
            ch.discard();
            return Ok(());
        }
    };
    let mut exp = model_of(&e);
    exp.f.truncate(1);
    ch.obs(2);
    round(f, &m, &exp, route, &what)?;
    same(&im, &m, &format!("{what}: the image after encoding"))
}
/// values RGBE can represent are kept exactly
fn hdr(ch: &mut Ch) -> Res {
    let w = ch.pick(&[1usize, 3, 7, 8, 9, 31, 127, 128, 129, 130, 257, 300]);
    let h = 1 + ch.choose(3);
    let k = ch.choose(6);
    let e0 = ch.pick(&[-100i32, -20, -8, 0, 1, 30, 100, 126]);
    let route = ch.choose(ROUTES);
    let m = M::new(w, h, ColorSpace::RGB, BitType::F32, 1, |_, c, i| {
        // the maximum of the three mantissas is at least 128
        let man = match (k, c) {
            (0, _) => 128 + (i * 5 + c * 3) % 128,
            (1, 0) => 128 + i % 128,
            (1, _) => (i * 7 + c) % 256,
            (2, 1) => 255,
            (2, _) => (i / 5) % 256,
            (3, 2) => 200,
            (3, _) => i / 130,
            (4, 0) => 128 + (i / 2) % 2,
            (4, _) => 1,
            _ => {
                if i % 4 == 0 {
                    0
                } else {
                    128
                }
            }
        };
        let e = e0 + (i / 9 % 3) as i32 - 1;
        (man as f32 * ((e - 8) as f32).exp2()).to_bits()
    });
    let what = format!("HDR {} pattern {k} exponent {e0} route {route}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    round(ImageFormat::HDR, &m, &m, route, &what)
}
/// one encoder object used for several images
fn reuse(ch: &mut Ch) -> Res {
    let f = ch.pick(&LOSSLESS);
    let ms = modes(f);
    let mut png = zune_image::codecs::png::PngEncoder::new();
    let mut qoi = zune_image::codecs::qoi::QoiEncoder::new();
    let mut ppm = zune_image::codecs::ppm::PPMEncoder::new();
    let mut ff = zune_image::codecs::farbfeld::FarbFeldEncoder::new();
    let n = 3;
    for i in 0..n {
        let (cs, b) = *ch.pick_ref(&ms);
        let (w, h) = ch.pick(&[(1, 1), (4, 3), (70, 2)]);
        let m = patterned(w, h, cs, b, 4);
        let im = m.image();
        let mut v = vec![];
        let what = format!("{f:?} image {i} of one encoder: {}", m.short());
        ch.note(|| what.clone());
        let r = match f {
            ImageFormat::PNG => png.encode(&im, &mut v),
            ImageFormat::QOI => qoi.encode(&im, &mut v),
            ImageFormat::PPM => ppm.encode(&im, &mut v),
            _ => ff.encode(&im, &mut v)
        };
        if let Err(e) = r {
            return bad(format!("{f:?}-encode-rejected"), format!("{what}: {e:?}"));
        }
        match Image::read(ZCursor::new(&v[..]), DecoderOptions::default()) {
            Ok(i) => same(&i, &m, &what)?,
            Err(e) => return bad(format!("{f:?}-undecodable"), format!("{what}: {e:?}"))
        }
    }
    Ok(())
}

/// PNG files with an attached EXIF block
fn exif(ch: &mut Ch) -> Res {
    let ms = modes(ImageFormat::PNG);
    let (cs, b) = *ch.pick_ref(&ms);
    let n = ch.pick(&[8usize, 9, 255, 256, 8191, 8192, 70000]);
    let (w, h) = ch.pick(&[(1, 1), (33, 20)]);
    let m = patterned(w, h, cs, b, 1);
    let mut block = pattern(n, 5);
    block[..4].copy_from_slice(ch.pick(&[b"MM\0*", b"II*\0"]));
    let what = format!("PNG {} with {n} bytes of EXIF", m.short());
    ch.state(hash_bytes(what.as_bytes()));
    let raw = m.bytes(0, true);
    let mut e = zune_png::PngEncoder::new(&raw, EncoderOptions::new(w, h, cs, depth_of(b)));
    e.add_exif_segment(&block);
    let mut v = vec![];
    match e.encode(&mut v) {
        Ok(k) if k == v.len() => {}
        r => return bad("PNG-exif", format!("{what}: {r:?}"))
    }
    let mut d = zune_png::PngDecoder::new(ZCursor::new(&v[..]));
    match d.decode() {
        Ok(r) => {
            let want = m.bytes(0, false);
            if dec::flat(r) != want {
                return bad("PNG-exif", format!("{what}: other pixels"));
            }
        }
        Err(e) => return bad("PNG-exif", format!("{what}: {e:?}"))
    }
    if d.info().and_then(|i| i.exif.clone()) != Some(block) {
        return bad("PNG-exif", format!("{what}: the EXIF block is not the one attached"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C25
const WRITERS: [FmtId; 6] = [ImageFormat::PNG, ImageFormat::QOI, ImageFormat::PPM, ImageFormat::Farbfeld, ImageFormat::HDR, ImageFormat::JPEG];

#[derive(Copy, Clone, PartialEq, Debug)]
enum Refusal {
    Error,
    Nothing,
    Forever
}
/// accepts `room` bytes (or `calls` calls), then refuses
struct Limited {
    got: Vec<u8>,
    room: usize,
    calls: usize,
    how: Refusal,
    refused: bool,
    step: usize,
    interrupt: usize,
    n: usize
}
impl Limited {
    fn new(room: usize, calls: usize, how: Refusal) -> Limited {
        Limited { got: vec![], room, calls, how, refused: false, step: usize::MAX, interrupt: usize::MAX, n: 0 }
    }
    fn refuse(&mut self) -> std::io::Result<usize> {
        let first = !self.refused;
        self.refused = true;
        match self.how {
            Refusal::Nothing => Ok(0),
            Refusal::Forever => Err(std::io::Error::new(std::io::ErrorKind::Other, "no")),
            Refusal::Error => {
                if first {
                    Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "once"))
                } else {
                    Ok(usize::MAX)
                }
            }
        }
    }
}
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.n += 1;
        if self.n % self.interrupt == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let k = b.len().min(self.room - self.got.len().min(self.room)).min(self.step);
        if self.refused && self.how == Refusal::Error {
            // refused once; takes everything that comes later
            self.got.extend(b);
            return Ok(b.len());
        }
        if k == 0 || self.calls == 0 {
            return match self.refuse() {
                Ok(usize::MAX) => Ok(b.len()),
                r => r
            };
        }
        self.calls -= 1;
        self.got.extend(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn subject(ch: &mut Ch, f: FmtId) -> M {
    let (w, h) = ch.pick(&[(1, 1), (3, 2), (9, 7), (40, 3)]);
    let k = ch.choose(5);
    match f {
        ImageFormat::HDR => M::new(w, h, ColorSpace::RGB, BitType::F32, 1, |_, c, i| {
            match k {
                0 => 0.5f32,
                1 => ((i * 7 + c * 3) % 251 + 1) as f32 / 64.0,
                2 => (i / 6) as f32,
                3 => 0.0,
                _ => i as f32
            }
            .to_bits()
        }),
        ImageFormat::JPEG => {
            let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGB, ColorSpace::CMYK, ColorSpace::YCbCr]);
            patterned(w, h, cs, BitType::U8, k)
        }
        _ => {
            let ms = modes(f);
            let (cs, b) = *ch.pick_ref(&ms);
            patterned(w, h, cs, b, k)
        }
    }
}
fn options_for(ch: &mut Ch, f: FmtId) -> EncoderOptions {
    let o = EncoderOptions::default();
    if f == ImageFormat::JPEG {
        o.set_jpeg_encode_progressive(ch.flag()).set_quality(ch.pick(&[90u8, 30]))
    } else {
        o
    }
}
fn whole(f: FmtId, im: &Image, o: EncoderOptions, what: &str) -> Result<Vec<u8>, Bad> {
    let mut v = vec![];
    match f.encode(im, o, &mut v) {
        Ok(n) if n == v.len() => Ok(v),
        Ok(n) => bad(format!("{f:?}-count"), format!("{what}: {n} bytes reported, {} written", v.len())),
        Err(e) => bad(format!("{f:?}-rejected"), format!("{what}: {e:?}"))
    }
}
fn refuse(ch: &mut Ch) -> Res {
    let f = ch.pick(&WRITERS);
    let m = subject(ch, f);
    let o = options_for(ch, f);
    let what = format!("{f:?} {}", m.short());
    let im = m.image();
    let full = whole(f, &im, o, &what)?;
    let how = ch.pick(&[Refusal::Error, Refusal::Nothing, Refusal::Forever]);
    let by_call = ch.flag();
    let (room, calls) = if by_call {
        let mut l = Limited::new(usize::MAX, usize::MAX, how);
        let _ = f.encode(&im, o, &mut l);
        (usize::MAX, ch.choose(l.n.max(1)))
    } else {
        // every byte near the ends, every `step`-th between
        let step = if ch.thorough() || full.len() < 400 { 1 } else { 1 + full.len() / 200 };
        let n = (full.len() + step - 1) / step;
        (ch.choose(n) * step, usize::MAX)
    };
    ch.note(|| format!("{what} ({} bytes): sink refuses ({how:?}) after {room} bytes / {calls} calls", full.len()));
    ch.state(hash_bytes(format!("{f:?}{:?}{}{room} {calls} {how:?}", m.cs, m.short()).as_bytes()) ^ hash_bytes(&full));
    let mut l = Limited::new(room, calls, how);
    let r = f.encode(&im, o, &mut l);
    if !l.refused {
        panic!("ENGINE: the sink was never asked to refuse");
    }
    ch.obs(l.got.len() as u64);
    if r.is_ok() {
        return bad(
            format!("{f:?}-refusal-lost"),
            format!("{what}: the sink refused ({how:?}) after {room} bytes / {calls} calls of {} bytes, and encoding reports success", full.len())
        );
    }
    same(&im, &m, &format!("{what}: the image after a failed encode"))
}
fn trickle(ch: &mut Ch) -> Res {
    let f = ch.pick(&WRITERS);
    let m = subject(ch, f);
    let o = options_for(ch, f);
    let what = format!("{f:?} {}", m.short());
    let im = m.image();
    let full = whole(f, &im, o, &what)?;
    let mut l = Limited::new(usize::MAX, usize::MAX, Refusal::Forever);
    l.step = ch.pick(&[1usize, 2, 3, 7, 64, usize::MAX]);
    l.interrupt = ch.pick(&[usize::MAX, 2, 3, 5]);
    let s = format!("{what}: {} bytes per call, every {}. call interrupted", l.step, l.interrupt);
    ch.note(|| s.clone());
    ch.state(hash_bytes(s.as_bytes()) ^ hash_bytes(&full));
    match f.encode(&im, o, &mut l) {
        Ok(n) if n == full.len() && l.got == full => Ok(()),
        Ok(n) => bad(format!("{f:?}-trickle"), format!("{s}: {n} reported, {} of {} bytes stored, equal: {}", l.got.len(), full.len(), l.got == full)),
        Err(e) => bad(format!("{f:?}-trickle"), format!("{s}: {e:?}"))
    }
}
fn fixed(ch: &mut Ch) -> Res {
    let f = ch.pick(&WRITERS);
    let m = subject(ch, f);
    let o = options_for(ch, f);
    let what = format!("{f:?} {}", m.short());
    let im = m.image();
    let full = whole(f, &im, o, &what)?;
    let near = 24;
    let c = ch.choose(near + 12);
    let room = if c < near { (full.len() + 4).saturating_sub(c) } else { full.len() * (c - near) / 12 };
    let s = format!("{what}: a buffer of {room} bytes for {}", full.len());
    ch.note(|| s.clone());
    ch.state(hash_bytes(s.as_bytes()) ^ hash_bytes(&full));
    let mut buf = vec![0xA5u8; room];
    let r = f.encode(&im, o, &mut buf[..]);
    match r {
        Ok(n) if room >= full.len() && n == full.len() && buf[..n] == full[..] && buf[n..].iter().all(|x| *x == 0xA5) => Ok(()),
        Err(_) if room < full.len() => Ok(()),
        Ok(n) if room < full.len() => bad(format!("{f:?}-short-buffer"), format!("{s}: success ({n} bytes) reported")),
        Ok(n) => bad(format!("{f:?}-fixed"), format!("{s}: {n} bytes reported, content differs")),
        Err(e) => bad(format!("{f:?}-fixed"), format!("{s}: {e:?}"))
    }
}
/// sample number `i` of a row: samples that alternate, repeat in runs of `k`, or have runs of `k` between single ones
fn shaped(k: usize, i: usize) -> u8 {
    let noise = |i: usize| (hash_bytes(&(i as u64).to_le_bytes()) >> 13) as u8;
    match k {
        0 => noise(i),
        1 => 77,
        2 => (i % 2) as u8 * 100 + 1,
        3..=9 => noise(i / (k - 1)),
        _ => {
            let p = k - 9; // one single sample, then a run of p
            if i % (p + 1) == 0 { noise(i) } else { noise(i / (p + 1) + 1_000_000) }
        }
    }
}
/// a buffer of the size an encoder promises is enough
fn promised(ch: &mut Ch) -> Res {
    use zune_core::bit_depth::BitDepth;
    let f = ch.pick(&[ImageFormat::HDR, ImageFormat::QOI, ImageFormat::PPM]);
    let ws: &[usize] = if ch.thorough() { &[1, 2, 7, 8, 9, 127, 128, 129, 130, 255, 256, 257, 258, 640, 4000, 20000, 32767, 32768] } else { &[1, 7, 8, 9, 127, 128, 129, 257, 4000, 32767, 32768] };
    let w = ch.pick(ws);
    let h = ch.pick(&[1usize, 2, 17, 300]);
    if w * h > 700_000 {
        ch.discard();
        return Ok(());
    }
    let k = ch.choose(18);
    let fail = |what: String, need: usize, e: String| bad(format!("{f:?}-promise"), format!("{what}: a buffer of the promised {need} bytes is refused: {e}"));
    let (size, got, what) = match f {
        ImageFormat::HDR => {
            let data: Vec<f32> = (0..w * h * 3).map(|i| (shaped(k, i / 3) as f32 + 1.0) / [256.0, 200.0, 300.0][i % 3]).collect();
            let o = EncoderOptions::new(w, h, ColorSpace::RGB, BitDepth::Float32);
            let n = ch.choose(3);
            let heads: std::collections::HashMap<String, String> = (0..n * 30).map(|i| (format!("KEY{i}"), "v".repeat(n * 20))).collect();
            let mut e = zune_hdr::HdrEncoder::new(&data, o);
            if n > 0 {
                e.add_headers(&heads);
            }
            let what = format!("HDR {w}x{h} pattern {k} with {} headers", heads.len());
            let Some(size) = e.expected_buffer_size() else { return bad("HDR-promise", format!("{what}: no size promised")) };
            let mut full = vec![];
            if let Err(x) = e.encode(&mut full) {
                return bad("HDR-promise", format!("{what}: cannot be encoded: {x:?}"));
            }
            let mut buf = vec![0u8; size];
            (size, e.encode(&mut buf[..]).map_err(|e| format!("{e:?}; the file has {} bytes", full.len())), what)
        }
        ImageFormat::QOI => {
            let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::RGBA]);
            let n = cs.num_components();
            let data: Vec<u8> = (0..w * h * n).map(|i| shaped(k, i / n).wrapping_mul(1 + 3 * (i % n) as u8)).collect();
            let e = zune_qoi::QoiEncoder::new(&data, EncoderOptions::new(w, h, cs, BitDepth::Eight));
            let size = e.max_size();
            let mut buf = vec![0u8; size];
            let mut e = e;
            (size, e.encode(&mut buf[..]).map_err(|e| format!("{e:?}")), format!("QOI {cs:?} {w}x{h} pattern {k}"))
        }
        _ => {
            let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA]);
            let d = ch.pick(&[BitDepth::Eight, BitDepth::Sixteen]);
            let o = EncoderOptions::new(w, h, cs, d);
            let data: Vec<u8> = (0..w * h * cs.num_components() * d.size_of()).map(|i| shaped(k, i)).collect();
            let size = zune_ppm::max_out_size(&o);
            let mut buf = vec![0u8; size];
            (size, zune_ppm::PPMEncoder::new(&data, o).encode(&mut buf[..]).map_err(|e| format!("{e:?}")), format!("PPM {cs:?} {d:?} {w}x{h} pattern {k}"))
        }
    };
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    match got {
        Ok(n) if n <= size => {
            ch.obs(n as u64);
            Ok(())
        }
        Ok(n) => bad(format!("{f:?}-promise"), format!("{what}: {n} bytes reported in a buffer of {size}")),
        Err(e) => fail(what, size, e)
    }
}
/// the same bytes by every route and on every repetition, with other images encoded in between
fn repeat(ch: &mut Ch) -> Res {
    let f = ch.pick(&WRITERS);
    let m = subject(ch, f);
    let o = EncoderOptions::default();
    let what = format!("{f:?} {}", m.short());
    ch.state(hash_bytes(what.as_bytes()));
    let im = m.image();
    let full = whole(f, &im, o, &what)?;
    let other = patterned(5, 4, ColorSpace::RGB, BitType::U8, 1).image();
    for i in 0..if ch.thorough() { 3 } else { 2 } {
        let between = ch.pick(&WRITERS);
        let _ = between.encode(&other, o, &mut vec![]);
        let route = ch.choose(ROUTES);
        match encode_by(route, f, &im) {
            Ok(v) if v == full => {}
            Ok(v) => return bad(format!("{f:?}-unstable"), format!("{what}: encoding {i} (route {route}) gives {} other bytes than the first ({})", v.len(), full.len())),
            Err(e) => return bad(format!("{f:?}-unstable"), format!("{what}: encoding {i} (route {route}) fails: {e:?}"))
        }
        same(&im, &m, &format!("{what}: the image after encoding"))?;
    }
    Ok(())
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("mc-encode-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap_or_else(|e| panic!("ENGINE: {e}"));
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn files(ch: &mut Ch) -> Res {
    let (f, exts): (FmtId, &[&str]) = ch.pick(&[
        (ImageFormat::PNG, &["png"][..]),
        (ImageFormat::QOI, &["qoi"][..]),
        (ImageFormat::PPM, &["ppm", "pam", "pgm"][..]),
        (ImageFormat::Farbfeld, &["ff"][..]),
        (ImageFormat::HDR, &["hdr"][..]),
        (ImageFormat::JPEG, &["jpg", "jpeg"][..])
    ]);
    let big = ch.flag();
    let kind = ch.choose(5);
    let ext = *ch.pick_ref(exts);
    let m = match (f, big) {
        (ImageFormat::HDR, false) => M::new(2, 2, ColorSpace::RGB, BitType::F32, 1, |_, _, i| (i as f32).to_bits()),
        (ImageFormat::HDR, true) => M::new(70, 70, ColorSpace::RGB, BitType::F32, 1, |_, c, i| ((i * 7 + c) as f32).to_bits()),
        (ImageFormat::Farbfeld, _) => patterned(if big { 60 } else { 2 }, if big { 50 } else { 2 }, ColorSpace::RGBA, BitType::U16, 1),
        _ => patterned(if big { 120 } else { 2 }, if big { 100 } else { 2 }, ColorSpace::RGB, BitType::U8, 1)
    };
    let what = format!("{f:?} {} as .{ext}", m.short());
    ch.note(|| format!("{what}, kind {kind}"));
    ch.state(hash_bytes(format!("{what}{kind}").as_bytes()));
    let im = m.image();
    let full = whole(f, &im, EncoderOptions::default(), &what)?;
    match kind {
        0 | 1 => {
            // a fresh file, and one that already holds something longer
            let s = Scratch::new();
            let p = s.0.join(format!("x.{ext}"));
            if kind == 1 {
                std::fs::write(&p, vec![9u8; full.len() + 500]).unwrap_or_else(|e| panic!("ENGINE: {e}"));
            }
            if let Err(e) = im.save(&p) {
                return bad(format!("{f:?}-save"), format!("{what}: saving fails: {e:?}"));
            }
            match std::fs::read(&p) {
                Ok(v) if v == full => Ok(()),
                Ok(v) => bad(format!("{f:?}-save"), format!("{what}: the file holds {} bytes, not the {} of the encoding", v.len(), full.len())),
                Err(e) => bad(format!("{f:?}-save"), format!("{what}: {e}"))
            }
        }
        2 => {
            // a device without space
            match im.save_to("/dev/full", f) {
                Err(_) => Ok(()),
                Ok(()) => bad(format!("{f:?}-full-device"), format!("{what}: saving {} bytes to a device without space reports success", full.len()))
            }
        }
        3 => {
            let s = Scratch::new();
            match im.save(s.0.join("missing").join(format!("x.{ext}"))) {
                Err(_) => Ok(()),
                Ok(()) => bad(format!("{f:?}-no-directory"), format!("{what}: saving into a missing directory reports success"))
            }
        }
        _ => {
            // unknown or missing extensions are refused and create nothing
            let s = Scratch::new();
            for n in ["x", "x.bmp", "x.psd", "x.", "x.unknown"] {
                if im.save(s.0.join(n)).is_ok() {
                    return bad("extension", format!("{what}: saving as {n:?} reports success"));
                }
            }
            match std::fs::read_dir(&s.0).map(|d| d.count()) {
                Ok(0) => Ok(()),
                r => bad("extension", format!("{what}: files were created: {r:?}"))
            }
        }
    }
}

// ---------------------------------------------------------------- C32
fn table() -> Vec<(&'static [u8], FmtId)> {
    vec![
        (&[137, 80, 78, 71, 13, 10, 26, 10], ImageFormat::PNG),
        (&[0xff, 0xd8], ImageFormat::JPEG),
        (b"P5", ImageFormat::PPM),
        (b"P6", ImageFormat::PPM),
        (b"P7", ImageFormat::PPM),
        (b"Pf", ImageFormat::PPM),
        (b"PF", ImageFormat::PPM),
        (b"8BPS", ImageFormat::PSD),
        (b"farbfeld", ImageFormat::Farbfeld),
        (b"qoif", ImageFormat::QOI),
        (b"#?RADIANCE\n", ImageFormat::HDR),
        (b"#?RGBE\n", ImageFormat::HDR),
        (&[0, 0, 0, 0x0C, 0x4A, 0x58, 0x4C, 0x20, 0x0D, 0x0A, 0x87, 0x0A], ImageFormat::JPEG_XL),
        (&[0xFF, 0x0A], ImageFormat::JPEG_XL),
    ]
}
const DIB: [u8; 8] = [12, 16, 40, 52, 56, 64, 108, 124];
/// what the leading bytes say, None: not settled by the statement (a BMP header that is cut short)
fn reference(b: &[u8]) -> Option<Option<FmtId>> {
    for (s, f) in table() {
        if b.starts_with(s) {
            return Some(Some(f));
        }
    }
    if b.starts_with(b"BM") {
        if b.len() < 16 {
            return None;
        }
        return Some(if DIB.contains(&b[14]) { Some(ImageFormat::BMP) } else { None });
    }
    if b.len() >= 12 && &b[..4] == b"RIFF" && &b[8..12] == b"WEBP" {
        return Some(Some(ImageFormat::WEBP));
    }
    Some(None)
}
fn judge(b: &[u8], key: &str) -> Res {
    let Some(exp) = reference(b) else { return Ok(()) };
    for kind in 0..3 {
        let (got, rest) = match kind {
            0 => match ImageFormat::guess_format(ZCursor::new(b)) {
                Some((f, mut r)) => {
                    let mut v = vec![];
                    let _ = zune_core::bytestream::ZByteReaderTrait::read_remaining(&mut r, &mut v);
                    (Some(f), v)
                }
                None => (None, b.to_vec())
            },
            1 => match zune_image::codecs::guess_format(Cursor::new(b)) {
                Some((f, mut r)) => {
                    let mut v = vec![];
                    let _ = std::io::Read::read_to_end(&mut r, &mut v);
                    (Some(f), v)
                }
                None => (None, b.to_vec())
            },
            _ => match zune_image::codecs::guess_format(BufReader::with_capacity(5, Cursor::new(b))) {
                Some((f, mut r)) => {
                    let mut v = vec![];
                    let _ = std::io::Read::read_to_end(&mut r, &mut v);
                    (Some(f), v)
                }
                None => (None, b.to_vec())
            }
        };
        let show = &b[..b.len().min(24)];
        if got != exp {
            return bad(
                format!("{key}-{}", exp.map_or("unknown".into(), |f| format!("{f:?}"))),
                format!("{} bytes {show:x?} (source kind {kind}) are recognised as {got:?}, their signature says {exp:?}", b.len())
            );
        }
        if rest != b {
            return bad("consumed", format!("{} bytes {show:x?} (source kind {kind}): after detection {} bytes are left", b.len(), rest.len()));
        }
    }
    Ok(())
}
fn signatures() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = table().into_iter().map(|(s, _)| s.to_vec()).collect();
    for d in DIB {
        let mut b = b"BM".to_vec();
        b.extend([0x3a, 0, 0, 0, 0, 0, 0, 0, 0x36, 0, 0, 0, d, 0]);
        v.push(b);
    }
    v.push(b"RIFF\x10\0\0\0WEBP".to_vec());
    for s in ["P1", "P2", "P3", "P4", "GIF89a", "II*\0", "MM\0*", "#?RADIANCE", "#?RGBE", "BM", "RIFF", "v/1\x01", "\0\0\0\x0cJXL "] {
        v.push(s.as_bytes().to_vec());
    }
    v
}
fn prefixes(ch: &mut Ch) -> Res {
    let s = signatures();
    let sig = ch.pick_ref(&s).clone();
    let n = ch.choose(sig.len() + 25);
    let fill = ch.pick(&[0u8, 0xff, b'P', b'\n', 12, 40, b'B']);
    let mut b = sig.clone();
    b.resize(40, fill);
    b.truncate(n);
    ch.state(hash_bytes(&b));
    ch.note(|| format!("{b:x?}"));
    judge(&b, "prefix")
}
fn altered(ch: &mut Ch) -> Res {
    let s = signatures();
    let mut b = ch.pick_ref(&s).clone();
    let p = ch.choose(b.len());
    b[p] = ch.choose(256) as u8;
    let pad = ch.pick(&[0usize, 4, 30]);
    let n = b.len() + pad;
    b.resize(n, ch.pick(&[0u8, 0x0a]));
    ch.state(hash_bytes(&b));
    judge(&b, "altered")
}
fn two_bytes(ch: &mut Ch) -> Res {
    let a = ch.choose(256) as u8;
    let b = ch.choose(256) as u8;
    let mut v = vec![a, b];
    v.resize(ch.pick(&[2usize, 3, 16, 20]), ch.pick(&[0u8, 40]));
    ch.state(hash_bytes(&v));
    judge(&v, "two-bytes")
}
fn corpus_guess(ch: &mut Ch) -> Res {
    thread_local! {
        static C: Vec<dec::Item> = dec::corpus(7, 5).into_iter().chain(dec::corpus(1, 1)).collect();
    }
    C.with(|c| {
        let it = ch.pick_ref(c);
        let exp = match it.fmt {
            dec::Fmt::Png => ImageFormat::PNG,
            dec::Fmt::Jpeg => ImageFormat::JPEG,
            dec::Fmt::Bmp => ImageFormat::BMP,
            dec::Fmt::Qoi => ImageFormat::QOI,
            dec::Fmt::Ppm => ImageFormat::PPM,
            dec::Fmt::Farbfeld => ImageFormat::Farbfeld,
            dec::Fmt::Hdr => ImageFormat::HDR,
            dec::Fmt::Psd => ImageFormat::PSD
        };
        let n = if ch.flag() { it.bytes.len() } else { it.bytes.len().min(16 + ch.choose(4)) };
        let b = &it.bytes[..n];
        ch.note(|| format!("{} first {n} bytes", it.name));
        ch.state(hash_bytes(b));
        judge(b, "corpus")?;
        match reference(b) {
            Some(Some(f)) if f == exp => {}
            r => panic!("ENGINE: corpus file {} is {r:?} by its signature", it.name)
        }
        if n < it.bytes.len() {
            return Ok(());
        }
        // detection changes nothing in what is decoded
        let direct = exp.decoder_with_options(ZCursor::new(b), DecoderOptions::default()).and_then(|mut d| d.decode());
        let detected = Image::read(ZCursor::new(b), DecoderOptions::default());
        match (direct, detected) {
            (Ok(a), Ok(d)) => {
                if d.metadata().image_format() != Some(exp) {
                    return bad("recorded", format!("{}: recorded as {:?}", it.name, d.metadata().image_format()));
                }
                same(&d, &model_of(&a), &it.name)
            }
            (Err(_), Err(_)) => Ok(()),
            (a, d) => bad("decoding", format!("{}: decodes directly: {}, after detection: {}", it.name, a.is_ok(), d.is_ok()))
        }
    })
}
/// the source may already stand somewhere
fn position(ch: &mut Ch) -> Res {
    let s = signatures();
    let sig = ch.pick_ref(&s).clone();
    let before = ch.pick(&[0usize, 1, 2, 7, 20]);
    let known = ch.flag();
    let mut b = vec![0x55; before];
    if known {
        b.extend(&sig);
    } else {
        b.extend(sig.iter().map(|x| x ^ 0x15));
    }
    b.resize(b.len() + 20, 0);
    let mut c = Cursor::new(&b[..]);
    c.set_position(before as u64);
    ch.state(hash_bytes(&b));
    let exp = reference(&b[before..]);
    match (ImageFormat::guess_format(&mut c).map(|x| x.0), exp) {
        (_, None) => {}
        (g, Some(e)) if g == e => {}
        (g, e) => return bad("position", format!("{:x?} from position {before}: {g:?}, expected {e:?}", &b[..]))
    }
    match c.stream_position() {
        Ok(p) if p == before as u64 => Ok(()),
        p => bad("moved", format!("{:x?}: detection moved the source from {before} to {p:?}", &b[..]))
    }
}
