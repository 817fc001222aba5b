//! C49 opening and saving files
use crate::dec::{self, corpus, Fmt};
use crate::engine::*;
use crate::imgs::*;
use crate::util::*;
use crate::Check;
use std::collections::BTreeMap;
use std::io::{BufReader, Cursor};
use std::path::{Path, PathBuf};
use zune_core::bit_depth::BitType;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::traits::{DecoderTrait, EncoderTrait};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C49",
        level: "model_checking",
        rule: "every format with every way of opening and saving images: every file of the corpus under names with every kind of extension, opened from a path, a reader, memory and a decoder; every dimension limit around the file's; every image of a set saved by extension, by format, with an encoder and to memory; every extension in every spelling; every sequence of saves and opens up to the bound over a directory of several names, whose files must be exactly those of a model after every call; a state is (contents of the directory, call)",
        assumptions: &["the file system stores what is written"],
        scenarios: |_| {
            vec![
                Scenario { name: "formats", f: formats },
                Scenario { name: "extensions", f: extensions },
                Scenario { name: "open", f: open },
                Scenario { name: "decoded", f: decoded },
                Scenario { name: "save", f: save },
                Scenario { name: "unreadable", f: unreadable },
                Scenario { name: "history", f: history }
            ]
        }
    }]
}
const ALL: [ImageFormat; 11] = [
    ImageFormat::JPEG,
    ImageFormat::PNG,
    ImageFormat::PPM,
    ImageFormat::PSD,
    ImageFormat::Farbfeld,
    ImageFormat::QOI,
    ImageFormat::JPEG_XL,
    ImageFormat::HDR,
    ImageFormat::BMP,
    ImageFormat::WEBP,
    ImageFormat::Unknown
];
const WRITABLE: [ImageFormat; 7] = [
    ImageFormat::JPEG,
    ImageFormat::PNG,
    ImageFormat::PPM,
    ImageFormat::Farbfeld,
    ImageFormat::QOI,
    ImageFormat::JPEG_XL,
    ImageFormat::HDR
];
fn format_of(f: Fmt) -> ImageFormat {
    match f {
        Fmt::Png => ImageFormat::PNG,
        Fmt::Jpeg => ImageFormat::JPEG,
        Fmt::Bmp => ImageFormat::BMP,
        Fmt::Psd => ImageFormat::PSD,
        Fmt::Ppm => ImageFormat::PPM,
        Fmt::Hdr => ImageFormat::HDR,
        Fmt::Qoi => ImageFormat::QOI,
        Fmt::Farbfeld => ImageFormat::Farbfeld
    }
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("mc-files-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap_or_else(|e| panic!("ENGINE: {e}"));
        Scratch(p)
    }
    fn put(&self, n: &str, b: &[u8]) -> PathBuf {
        let p = self.0.join(n);
        std::fs::write(&p, b).unwrap_or_else(|e| panic!("ENGINE: {e}"));
        p
    }
    fn contents(&self) -> BTreeMap<String, Vec<u8>> {
        std::fs::read_dir(&self.0)
            .unwrap_or_else(|e| panic!("ENGINE: {e}"))
            .map(|e| {
                let e = e.unwrap_or_else(|e| panic!("ENGINE: {e}"));
                (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default())
            })
            .collect()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn pattern_image(w: usize, h: usize, cs: ColorSpace, bt: BitType) -> M {
    M::new(w, h, cs, bt, 1, |_, c, i| distinct(bt, i * 5 + c * 31))
}
/// a file of the format, None when nothing here can make one
fn sample_file(f: ImageFormat) -> Option<Vec<u8>> {
    if f == ImageFormat::JPEG_XL {
        let m = pattern_image(5, 3, ColorSpace::RGB, BitType::U8);
        let mut v = vec![];
        zune_image::codecs::jpeg_xl::JxlEncoder::new().encode(&m.image(), &mut v).ok()?;
        return Some(v);
    }
    corpus(5, 3).into_iter().find(|i| format_of(i.fmt) == f).map(|i| i.bytes)
}
fn err_of<T>(r: Result<T, ImageErrors>) -> Option<String> {
    r.err().map(|e| format!("{e:?}"))
}
fn img(r: Result<Image, ImageErrors>) -> Result<(M, Option<ImageFormat>), String> {
    match r {
        Ok(i) => Ok((model_of(&i), i.metadata().image_format())),
        Err(e) => Err(format!("{e:?}"))
    }
}
/// what formats say about themselves
fn formats(ch: &mut Ch) -> Res {
    let f = ch.pick(&ALL);
    let bt = ch.pick(&[BitType::U8, BitType::U16, BitType::F32]);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA]);
    let what = format!("{f:?} with {cs:?} {bt:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let writable = WRITABLE.contains(&f);
    if f.has_encoder() != writable {
        return bad("has-encoder", format!("{f:?}: has_encoder() is {}", f.has_encoder()));
    }
    let im = pattern_image(4, 3, cs, bt).image();
    let mut a = vec![];
    let r = im.encode(f, &mut a);
    ch.obs(a.len() as u64);
    if writable {
        if let Err(e) = r {
            return bad("encode", format!("{what}: encoding fails: {e:?}"));
        }
        match ImageFormat::guess_format(ZCursor::new(&a[..])) {
            Some((g, _)) if g == f => {}
            x => return bad("encode", format!("{what}: what encode() wrote is recognised as {:?}", x.map(|x| x.0)))
        }
        match img(Image::read(ZCursor::new(&a[..]), DecoderOptions::default())) {
            Ok((m, Some(g))) if g == f && (m.w, m.h) == (4, 3) => {}
            x => return bad("encode", format!("{what}: what encode() wrote reads as {:?}", x.map(|x| (x.0.short(), x.1))))
        }
    } else {
        if r.is_ok() || !a.is_empty() {
            return bad("no-encoder", format!("{what}: encode() without an encoder: {r:?}, {} bytes written", a.len()));
        }
        if im.write_to_vec(f).is_ok() {
            return bad("no-encoder", format!("{what}: write_to_vec() without an encoder succeeds"));
        }
    }
    if f == ImageFormat::WEBP {
        // the decoder is checked by C46
        return Ok(());
    }
    let readable = f != ImageFormat::Unknown;
    if f.has_decoder() != readable {
        return bad("has-decoder", format!("{f:?}: has_decoder() is {}", f.has_decoder()));
    }
    if let Some(b) = sample_file(f) {
        let whole = match img(Image::read(ZCursor::new(&b[..]), DecoderOptions::default())) {
            Ok((m, g)) => {
                if g != Some(f) {
                    return bad("decoder", format!("{f:?}: read as {g:?}"));
                }
                m
            }
            Err(e) => return bad("decoder", format!("{f:?}: {e}"))
        };
        for k in 0..2 {
            let d = if k == 0 { f.decoder(Cursor::new(&b[..])) } else { f.decoder_with_options(Cursor::new(&b[..]), DecoderOptions::default()) };
            let mut d = match d {
                Ok(d) => d,
                Err(e) => return bad("decoder", format!("{f:?}: {e:?}"))
            };
            match d.decode() {
                Ok(i) => same(&i, &whole, &format!("{f:?}: decoder {k}"))?,
                Err(e) => return bad("decoder", format!("{f:?}: {e:?}"))
            }
        }
        // the decoder of a format does not accept files of another
        for g in ALL {
            if g != f && g != ImageFormat::WEBP {
                let other = g.decoder(Cursor::new(&b[..])).and_then(|mut d| d.decode());
                if let Ok(i) = other {
                    return bad("decoder", format!("a {f:?} file is decoded as {g:?}, giving {:?}", i.dimensions()));
                }
            }
        }
    } else if readable {
        panic!("ENGINE: no file of {f:?}");
    }
    Ok(())
}
const EXT: [(&str, Option<ImageFormat>); 24] = [
    ("png", Some(ImageFormat::PNG)),
    ("jpg", Some(ImageFormat::JPEG)),
    ("jpeg", Some(ImageFormat::JPEG)),
    ("ppm", Some(ImageFormat::PPM)),
    ("pam", Some(ImageFormat::PPM)),
    ("pgm", Some(ImageFormat::PPM)),
    ("pbm", Some(ImageFormat::PPM)),
    ("pfm", Some(ImageFormat::PPM)),
    ("qoi", Some(ImageFormat::QOI)),
    ("ff", Some(ImageFormat::Farbfeld)),
    ("hdr", Some(ImageFormat::HDR)),
    ("jxl", Some(ImageFormat::JPEG_XL)),
    ("bmp", None),
    ("psd", None),
    ("webp", None),
    ("gif", None),
    ("", None),
    ("pn", None),
    ("pngg", None),
    ("png ", None),
    (".png", None),
    ("tiff", None),
    ("txt", None),
    ("unknown", None)
];
/// the format an extension stands for, and saving by it
fn extensions(ch: &mut Ch) -> Res {
    let (e, f) = *ch.pick_ref(&EXT);
    let stem = ch.pick(&["x", "a.b", "x.png", ".hidden", "sp ace"]);
    let bt = ch.pick(&[BitType::U8, BitType::U16]);
    let name = if e.is_empty() { stem.replace(".png", "").replace("a.b", "ab").replace(".h", "h") } else { format!("{stem}.{e}") };
    let what = format!("extension {e:?}, file {name:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let got = ImageFormat::encoder_for_extension(e);
    // names that merely resemble an extension may be understood or not, but never as something else
    if got != f {
        return bad("extension", format!("{what}: stands for {got:?}, expected {f:?}"));
    }
    let im = pattern_image(3, 3, ColorSpace::RGB, bt).image();
    let s = Scratch::new();
    let p = s.0.join(&name);
    let ext = Path::new(&name).extension().map(|x| x.to_string_lossy().into_owned());
    let f = EXT.iter().find(|x| Some(x.0) == ext.as_deref()).and_then(|x| x.1);
    let r = im.save(&p);
    let c = s.contents();
    match (f, r) {
        (None, Err(_)) if c.is_empty() => Ok(()),
        (Some(f), Ok(())) if c.len() == 1 => {
            let exp = im.write_to_vec(f).map_err(|e| Bad { key: "save".into(), msg: format!("{what}: {e:?}") })?;
            if c.get(&name) != Some(&exp) {
                return bad("save", format!("{what}: the file isn't the {f:?} encoding"));
            }
            Ok(())
        }
        (f, r) => bad("save", format!("{what}: format {f:?}, saving gives {r:?} and the directory holds {:?}", c.keys().collect::<Vec<_>>()))
    }
}
/// a file opened in every way gives the same image, whatever its name
fn open(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(if ch.thorough() { &[(5, 3), (1, 1), (2, 7), (33, 17), (8, 8), (100, 3)][..] } else { &[(5, 3), (33, 17)][..] });
    let items = corpus(w, h);
    let it = ch.pick_ref(&items);
    let name = ch.pick(&["x", "x.png", "x.jpg", "x.bmp", "x.unknown", ".x"]);
    let what = format!("{} {w}x{h} named {name}", it.name);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let o = DecoderOptions::default();
    let base = img(Image::read(ZCursor::new(&it.bytes[..]), o));
    let Ok((m, g)) = &base else { return bad("open", format!("{what}: {:?}", base.err())) };
    if *g != Some(format_of(it.fmt)) || (m.w, m.h) != (w, h) {
        return bad("open", format!("{what}: read as {g:?} {}", m.short()));
    }
    ch.obs_bytes(&m.bytes(0, false));
    let s = Scratch::new();
    let p = s.put(name, &it.bytes);
    let mut got: Vec<(&str, Result<(M, Option<ImageFormat>), String>)> = vec![
        ("open", img(Image::open(&p))),
        ("open_with_options", img(Image::open_with_options(&p, o))),
        ("read from a reader", img(Image::read(BufReader::with_capacity(7, Cursor::new(&it.bytes[..])), o))),
        ("read from memory", img(Image::read(Cursor::new(&it.bytes[..]), o))),
    ];
    fn fd(d: impl DecoderTrait, f: ImageFormat) -> Result<(M, Option<ImageFormat>), String> {
        // a decoder used directly doesn't have to record the format
        img(Image::from_decoder(d)).and_then(|(m, g)| if g.is_none() || g == Some(f) { Ok((m, Some(f))) } else { Err(format!("format {g:?}")) })
    }
    let src = Cursor::new(&it.bytes[..]);
    let f = format_of(it.fmt);
    got.push((
        "from_decoder",
        match it.fmt {
            Fmt::Png => fd(zune_png::PngDecoder::new_with_options(src, o), f),
            Fmt::Jpeg => fd(zune_jpeg::JpegDecoder::new_with_options(src, o), f),
            Fmt::Bmp => fd(zune_bmp::BmpDecoder::new_with_options(src, o), f),
            Fmt::Psd => fd(zune_psd::PSDDecoder::new_with_options(src, o), f),
            Fmt::Ppm => fd(zune_ppm::PPMDecoder::new_with_options(src, o), f),
            Fmt::Hdr => fd(zune_hdr::HdrDecoder::new_with_options(src, o), f),
            Fmt::Qoi => fd(zune_qoi::QoiDecoder::new_with_options(src, o), f),
            Fmt::Farbfeld => fd(zune_farbfeld::FarbFeldDecoder::new_with_options(src, o), f)
        }
    ));
    for (k, r) in got {
        match r {
            Ok((n, g2)) => {
                if g2 != *g {
                    return bad("open", format!("{what}: {k} gives the format {g2:?}"));
                }
                same(&n.image(), m, &format!("{what}: {k}"))?;
            }
            Err(e) => return bad("open", format!("{what}: {k}: {e}"))
        }
    }
    // the options are used
    for (mw, mh) in [(w, h), (w - 1, h), (w, h - 1)] {
        let o = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
        let r = Image::open_with_options(&p, o);
        if r.is_ok() != (mw >= w && mh >= h) {
            return bad("options", format!("{what}: opened with the limits {mw}x{mh}: {:?}", err_of(r)));
        }
    }
    if s.contents().len() != 1 || s.contents().get(name) != Some(&it.bytes) {
        return bad("open", format!("{what}: opening changed the file"));
    }
    Ok(())
}
/// an image holds what the decoder of its format gives under the same options
fn decoded(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(if ch.thorough() { &[(5, 3), (1, 1), (1, 9), (33, 17), (16, 16), (70, 2)][..] } else { &[(5, 3), (33, 17)][..] });
    let items = corpus(w, h);
    let it = ch.pick_ref(&items);
    let mut o = dec::options();
    let mut opts = String::new();
    match it.fmt {
        Fmt::Png => {
            let (a, b, c) = (ch.flag(), ch.flag(), ch.flag());
            o = o.png_set_add_alpha_channel(a).png_set_strip_to_8bit(b).png_set_confirm_crc(c);
            opts = format!("alpha {a} strip {b} crc {c}");
        }
        Fmt::Jpeg => {
            let c = ch.pick(&[
                None,
                Some(ColorSpace::RGB),
                Some(ColorSpace::RGBA),
                Some(ColorSpace::BGR),
                Some(ColorSpace::BGRA),
                Some(ColorSpace::Luma),
                Some(ColorSpace::YCbCr),
                Some(ColorSpace::CMYK),
                Some(ColorSpace::YCCK),
                Some(ColorSpace::LumaA)
            ]);
            if let Some(c) = c {
                o = o.jpeg_set_out_colorspace(c);
            }
            opts = format!("out {c:?}");
        }
        _ => {}
    }
    if ch.flag() {
        o = o.set_use_unsafe(false);
        opts.push_str(" portable");
    }
    let what = format!("{} {w}x{h}, {opts}", it.name);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let a = guard(|| dec::decode(it.fmt, &it.bytes, o)).unwrap_or_else(Err);
    // images hold native samples whatever byte order raw bytes were asked for
    let big = ch.flag();
    let o = o.set_byte_endian(if big { zune_core::bit_depth::ByteEndian::BE } else { zune_core::bit_depth::ByteEndian::LE });
    let b = match guard(|| img(Image::read(BufReader::with_capacity(50, Cursor::new(&it.bytes[..])), o))) {
        Ok(b) => b,
        Err(e) => return bad(format!("panic:{}", panic_class(&e)), format!("{what}: {e}"))
    };
    match (a, b) {
        (Ok(a), Ok((m, _))) => {
            let what = format!("{what}, big endian bytes {big}");
            if a.dims != Some((m.w, m.h)) || a.cs != Some(m.cs) || a.depth.map(|d| d.bit_type()) != Some(m.bt) {
                return bad("decoded", format!("{what}: the decoder gives {:?} {:?} {:?}, the image is {}", a.dims, a.cs, a.depth, m.short()));
            }
            let g = m.bytes(0, cfg!(target_endian = "big"));
            ch.obs_bytes(&g);
            if g != a.bytes {
                return bad("decoded", format!("{what}: samples: {}", first_diff(&g, &a.bytes)));
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => bad("decoded", format!("{what}: the decoder gives {:?}, reading gives {:?}", a.map(|x| x.dims), b.map(|x| x.0.short())))
    }
}
fn with_encoder(im: &Image, f: ImageFormat, o: EncoderOptions, v: &mut Vec<u8>) -> Result<usize, ImageErrors> {
    use zune_image::codecs::*;
    match f {
        ImageFormat::JPEG => im.write_with_encoder(jpeg::JpegEncoder::new_with_options(o), v),
        ImageFormat::PNG => im.write_with_encoder(png::PngEncoder::new_with_options(o), v),
        ImageFormat::PPM => im.write_with_encoder(ppm::PPMEncoder::new_with_options(o), v),
        ImageFormat::Farbfeld => im.write_with_encoder(farbfeld::FarbFeldEncoder::new_with_options(o), v),
        ImageFormat::QOI => im.write_with_encoder(qoi::QoiEncoder::new_with_options(o), v),
        ImageFormat::JPEG_XL => im.write_with_encoder(jpeg_xl::JxlEncoder::new_with_options(o), v),
        _ => im.write_with_encoder(hdr::HdrEncoder::new_with_options(o), v)
    }
}
/// every way of saving writes the same bytes
fn save(ch: &mut Ch) -> Res {
    let f = ch.pick(&WRITABLE);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA]);
    let bt = ch.pick(&[BitType::U8, BitType::U16, BitType::F32]);
    let (w, h) = ch.pick(if ch.thorough() { &[(1, 1), (2, 3), (40, 30), (150, 90), (7, 1), (1, 7)][..] } else { &[(2, 3), (40, 30)][..] });
    let m = pattern_image(w, h, cs, bt);
    let what = format!("{f:?} {}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let im = m.image();
    let base = match im.write_to_vec(f) {
        Ok(v) => v,
        Err(e) => return bad("save", format!("{what}: {e:?}"))
    };
    ch.obs_bytes(&base);
    let s = Scratch::new();
    let o = EncoderOptions::default();
    let exts: Vec<&str> = EXT.iter().filter(|e| e.1 == Some(f)).map(|e| e.0).collect();
    let mut got: Vec<(String, Result<Vec<u8>, String>)> = vec![];
    let file = |n: &str, r: Result<(), ImageErrors>| -> Result<Vec<u8>, String> {
        r.map_err(|e| format!("{e:?}"))?;
        std::fs::read(s.0.join(n)).map_err(|e| e.to_string())
    };
    for e in exts {
        let n = format!("x.{e}");
        got.push((format!("save as {n}"), file(&n, im.save(s.0.join(&n)))));
        // over something longer
        s.put(&n, &pattern(base.len() + 900, 3));
        got.push((format!("save over a longer {n}"), file(&n, im.save(s.0.join(&n)))));
    }
    for n in ["plain", "x.bmp", "y.png"] {
        got.push((format!("save_to {n}"), file(n, im.save_to(s.0.join(n), f))));
    }
    let mut v = vec![];
    let r = im.encode(f, &mut v).map_err(|e| format!("{e:?}"));
    got.push(("encode".into(), r.map(|n| if n == v.len() { v } else { vec![] })));
    let mut v = vec![];
    let r = f.encode(&im, o, &mut v).map_err(|e| format!("{e:?}"));
    got.push(("ImageFormat::encode".into(), r.map(|n| if n == v.len() { v } else { vec![] })));
    let mut v = vec![];
    let r = with_encoder(&im, f, o, &mut v).map_err(|e| format!("{e:?}"));
    got.push(("encoder".into(), r.map(|n| if n == v.len() { v } else { vec![] })));
    for (k, r) in got {
        match r {
            Ok(v) if v == base => {}
            Ok(v) => return bad("save", format!("{what}: {k} gives {} bytes, write_to_vec() gives {}, or a wrong count: {}", v.len(), base.len(), first_diff(&v, &base))),
            Err(e) => return bad("save", format!("{what}: {k}: {e}"))
        }
    }
    same(&im, &m, &format!("{what}: after saving"))
}
/// what can't be read fails the same way from a path and from memory
fn unreadable(ch: &mut Ch) -> Res {
    let s = Scratch::new();
    let o = DecoderOptions::default();
    match ch.choose(4) {
        0 => {
            for p in [s.0.join("missing"), s.0.join("missing.png"), s.0.clone(), s.0.join("missing/x.png"), PathBuf::new()] {
                ch.state(hash_bytes(p.to_string_lossy().as_bytes()));
                if Image::open(&p).is_ok() || Image::open_with_options(&p, o).is_ok() {
                    return bad("unreadable", format!("{p:?} is opened"));
                }
            }
            if !s.contents().is_empty() {
                return bad("unreadable", "opening created files");
            }
            Ok(())
        }
        1 => {
            let b: &[u8] = *ch.pick_ref(&[&b""[..], b"\0", b"text", b"BM", b"GIF89a\x01\0\x01\0", b"RIFF\0\0\0\0WAVE", b"%PDF-1.7"]);
            ch.note(|| format!("a file of {b:?}"));
            ch.state(hash_bytes(b));
            let p = s.put("x.png", b);
            if Image::open(&p).is_ok() || Image::read(ZCursor::new(b), o).is_ok() {
                return bad("unreadable", format!("{b:?} is opened"));
            }
            Ok(())
        }
        k => {
            let items = corpus(5, 3);
            let it = ch.pick_ref(&items);
            let step = if ch.thorough() { 1 } else { 11 };
            let n = ch.choose(it.bytes.len() / step) * step;
            let mut b = it.bytes[..n].to_vec();
            if k == 3 {
                b = it.bytes.clone();
                b[n] ^= 0x55;
            }
            ch.note(|| format!("{} {} at {n}", it.name, if k == 3 { "altered" } else { "cut" }));
            ch.state(hash_bytes(&b));
            let p = s.put("x", &b);
            let (a, c) = (img(Image::open(&p)), img(Image::read(ZCursor::new(&b[..]), o)));
            match (a, c) {
                (Ok((a, f)), Ok((c, g))) => {
                    if f != g {
                        return bad("unreadable", format!("formats {f:?} and {g:?}"));
                    }
                    ch.obs_bytes(&a.bytes(0, false));
                    same(&a.image(), &c, &format!("{} damaged at {n}, opened", it.name))
                }
                (Err(_), Err(_)) => Ok(()),
                (a, c) => bad("unreadable", format!("{} damaged at {n}: opened {:?}, read {:?}", it.name, a.map(|x| x.1), c.map(|x| x.1)))
            }
        }
    }
}
/// sequences of saves and opens over one directory
fn history(ch: &mut Ch) -> Res {
    let s = Scratch::new();
    let images = [
        pattern_image(2, 2, ColorSpace::RGB, BitType::U8),
        pattern_image(3, 2, ColorSpace::RGBA, BitType::U16),
        pattern_image(50, 20, ColorSpace::Luma, BitType::U8)
    ];
    let names = ["a.png", "b.qoi", "c.ff", "d", "e.bmp"];
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let depth = if ch.thorough() { 3 } else { 2 };
    let mut what = String::new();
    for _ in 0..depth {
        let n = ch.pick(&names);
        let p = s.0.join(n);
        let op = ch.choose(7);
        what.push_str(&format!("{n}:{op} "));
        if op == 0 {
            // open
            let r = img(Image::open(&p));
            match (model.get(n), r) {
                (None, Err(_)) => {}
                (Some(b), Ok((m, f))) => {
                    let (e, g) = img(Image::read(ZCursor::new(&b[..]), DecoderOptions::default())).map_err(|e| Bad { key: "history".into(), msg: e })?;
                    if f != g {
                        return bad("history", format!("{what}: opened as {f:?}, written as {g:?}"));
                    }
                    same(&m.image(), &e, &format!("{what}: opened"))?;
                }
                (m, r) => return bad("history", format!("{what}: opening {n} ({}) gives {:?}", m.is_some(), r.map(|x| x.0.short())))
            }
        } else {
            let k = ch.choose(images.len());
            let f = match op {
                1 => None,
                _ => Some([ImageFormat::PNG, ImageFormat::JPEG_XL, ImageFormat::BMP, ImageFormat::PSD, ImageFormat::Unknown][op - 2])
            };
            let im = images[k].image();
            let (r, f) = match f {
                None => (im.save(&p), n.split_once('.').and_then(|x| EXT.iter().find(|y| y.0 == x.1)).and_then(|y| y.1)),
                Some(f) => (im.save_to(&p, f), Some(f).filter(|f| WRITABLE.contains(f)))
            };
            match (f, r) {
                (Some(f), Ok(())) => {
                    let v = im.write_to_vec(f).map_err(|e| Bad { key: "history".into(), msg: format!("{e:?}") })?;
                    model.insert(n.to_string(), v);
                }
                (None, Err(_)) => {}
                (f, r) => return bad("history", format!("{what}: saving as {f:?} gives {r:?}"))
            }
        }
        ch.note(|| what.clone());
        ch.state(hash_bytes(format!("{:?}", model.iter().map(|(k, v)| (k, hash_bytes(v))).collect::<Vec<_>>()).as_bytes()));
        let c = s.contents();
        if c != model {
            let diff: Vec<_> = names
                .iter()
                .filter(|n| c.get(**n) != model.get(**n))
                .map(|n| format!("{n}: {:?} bytes, expected {:?}", c.get(*n).map(|x| x.len()), model.get(*n).map(|x| x.len())))
                .collect();
            return bad("history:files", format!("{what}: {}", diff.join(", ")));
        }
    }
    Ok(())
}
