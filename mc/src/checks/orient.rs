//! C39 automatic orientation
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::bit_depth::BitType;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::auto_orient::AutoOrient;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C39",
        level: "model_checking",
        rule: "every recorded orientation (1 to 8, and values, types and counts that are not orientations), both byte orders, with and without other fields and a thumbnail with its own orientation, on every small dimension, depth, colour space and frame count, applied repeatedly and re-recorded in every sequence up to the bound, and through PNG and JPEG files; compared with the row/column definition of the Exif standard; a state is (orientation record, dimensions, depth, colour space)",
        assumptions: &["the Exif blocks are written by this check's own TIFF writer"],
        scenarios: |_| vec![
            Scenario { name: "values", f: values },
            Scenario { name: "large", f: large },
            Scenario { name: "records", f: records },
            Scenario { name: "histories", f: histories },
            Scenario { name: "files", f: files }
        ]
    }]
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Entry {
    tag: u16,
    /// TIFF type: 1 byte, 3 short, 4 long
    ty: u16,
    count: u32,
    value: u32
}
fn orientation(v: u16) -> Entry {
    Entry { tag: 0x112, ty: 3, count: 1, value: v as u32 }
}

/// a TIFF block with the given directories
fn tiff(big: bool, ifds: &[Vec<Entry>]) -> Vec<u8> {
    let mut o = vec![];
    let w16 = |o: &mut Vec<u8>, v: u16| o.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() });
    let w32 = |o: &mut Vec<u8>, v: u32| o.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() });
    o.extend(if big { b"MM" } else { b"II" });
    w16(&mut o, 42);
    w32(&mut o, 8);
    for (i, d) in ifds.iter().enumerate() {
        w16(&mut o, d.len() as u16);
        for e in d {
            w16(&mut o, e.tag);
            w16(&mut o, e.ty);
            w32(&mut o, e.count);
            match e.ty {
                1 => o.extend([e.value as u8, 0, 0, 0]),
                3 => {
                    w16(&mut o, e.value as u16);
                    w16(&mut o, 0);
                }
                _ => w32(&mut o, e.value)
            }
        }
        let next = if i + 1 < ifds.len() { o.len() as u32 + 4 } else { 0 };
        w32(&mut o, next);
    }
    o
}

/// where the standard puts the stored samples: (visual 0th row, visual 0th column)
fn upright(m: &M, o: u32) -> M {
    let (w, h) = (m.w, m.h);
    let (ow, oh) = if (5..=8).contains(&o) { (h, w) } else { (w, h) };
    m.map_planes(ow, oh, |_, p| {
        let mut out = vec![0u32; w * h];
        for r in 0..h {
            for c in 0..w {
                let (x, y) = match o {
                    2 => (w - 1 - c, r),
                    3 => (w - 1 - c, h - 1 - r),
                    4 => (c, h - 1 - r),
                    5 => (r, c),
                    6 => (h - 1 - r, c),
                    7 => (h - 1 - r, w - 1 - c),
                    8 => (r, w - 1 - c),
                    _ => (c, r)
                };
                out[y * ow + x] = p[r * w + c];
            }
        }
        out
    })
}

/// the orientation recorded for the image itself
fn recorded(im: &Image) -> Option<Option<u32>> {
    let f = im.metadata().exif()?.iter().find(|f| f.tag == exif::Tag::Orientation && f.ifd_num == exif::In::PRIMARY)?;
    Some(match &f.value {
        exif::Value::Short(v) => v.first().map(|x| *x as u32),
        _ => None
    })
}

fn orient(im: &mut Image, what: &str) -> Res {
    match AutoOrient.execute(im) {
        Ok(()) => Ok(()),
        Err(e) => bad("refused", format!("{what}: {e:?}"))
    }
}

fn apply_and_check(ch: &mut Ch, m: &M, mut im: Image, o: u32, what: &str) -> Result<Image, Bad> {
    let e = upright(m, o);
    orient(&mut im, what)?;
    same(&im, &e, what)?;
    if (1..=8).contains(&o) && recorded(&im) != Some(Some(1)) {
        return bad("record", format!("{what}: the recorded orientation is {:?} afterwards", recorded(&im)));
    }
    for n in 0..2 {
        orient(&mut im, what)?;
        same(&im, &e, &format!("{what}, applied {} times", n + 2))?;
    }
    obs_image(ch, &im);
    Ok(im)
}

const VALUES: [u16; 13] = [6, 1, 2, 3, 4, 5, 7, 8, 0, 9, 10, 256, 65535];

fn values(ch: &mut Ch) -> Res {
    let o = ch.pick(&VALUES);
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGBA, ColorSpace::CMYK]);
    let top = if ch.thorough() { 18 } else { 7 };
    let (w, h) = (ch.choose(top) + 1, ch.choose(top) + 1);
    let frames = if w < 4 { ch.choose(3) + 1 } else { 1 };
    let m = M::unique(w, h, cs, bt, frames);
    let mut im = m.image();
    im.metadata_mut().parse_raw_exif(&tiff(false, &[vec![orientation(o)]]));
    if recorded(&im) != Some(Some(o as u32)) {
        return bad("parse", format!("orientation {o} is read as {:?}", recorded(&im)));
    }
    let what = format!("orientation {o} of {}", m.short());
    apply_and_check(ch, &m, im, o as u32, &what)?;
    ch.state(hash_bytes(format!("{o} {bt:?} {cs:?} {w} {h}").as_bytes()));
    ch.note(|| what);
    Ok(())
}

fn large(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&LONG);
    let o = ch.pick(&VALUES);
    let bt = ch.pick(&DEPTHS);
    let m = M::hashed(w, h, ColorSpace::LumaA, bt, 1);
    let mut im = m.image();
    im.metadata_mut().parse_raw_exif(&tiff(false, &[vec![orientation(o)]]));
    let what = format!("orientation {o} of {}", m.short());
    apply_and_check(ch, &m, im, o as u32, &what)?;
    ch.state(hash_bytes(format!("{o} {bt:?} {w} {h}").as_bytes()));
    ch.note(|| what);
    Ok(())
}

/// how the orientation is recorded
fn records(ch: &mut Ch) -> Res {
    let big = ch.flag();
    let before = ch.flag();
    let after = ch.flag();
    let kind = ch.pick(&["short", "none", "byte", "long", "empty", "no exif", "garbage"]);
    let o = ch.pick(&VALUES);
    let thumb = ch.pick(&[None, Some(1u16), Some(3), Some(6), Some(99)]);
    let (w, h) = ch.pick(&[(3, 2), (2, 5), (1, 1)]);
    let bt = ch.pick(&DEPTHS);
    let m = M::unique(w, h, ColorSpace::RGB, bt, 1);
    let mut d = vec![];
    if before {
        d.push(Entry { tag: 0x100, ty: 4, count: 1, value: 77 });
    }
    match kind {
        "short" => d.push(orientation(o)),
        "byte" => d.push(Entry { ty: 1, ..orientation(o) }),
        "long" => d.push(Entry { ty: 4, ..orientation(o) }),
        "empty" => d.push(Entry { count: 0, ..orientation(o) }),
        _ => {}
    }
    if after {
        d.push(Entry { tag: 0x128, ty: 3, count: 1, value: 2 });
    }
    let mut ifds = vec![d];
    if let Some(t) = thumb {
        ifds.push(vec![orientation(t)]);
    }
    let mut im = m.image();
    let block = tiff(big, &ifds);
    match kind {
        "no exif" => {}
        "garbage" => im.metadata_mut().parse_raw_exif(&block[..block.len().min(9)]),
        _ => im.metadata_mut().parse_raw_exif(&block)
    }
    let others = |im: &Image| -> Vec<String> {
        im.metadata()
            .exif()
            .map(|v| v.iter().filter(|f| f.tag != exif::Tag::Orientation).map(|f| format!("{:?} {:?}", f.tag, f.value)).collect())
            .unwrap_or_default()
    };
    let fields = others(&im);
    let what = format!("{kind} record {o}, thumbnail {thumb:?}, big endian {big}, of {}", m.short());
    let eff = if kind == "short" { o as u32 } else { 0 };
    let im = apply_and_check(ch, &m, im, eff, &what)?;
    if others(&im) != fields {
        return bad("fields", format!("{what}: the other fields are {:?} afterwards, {fields:?} before", others(&im)));
    }
    ch.state(hash_bytes(format!("{kind} {o} {thumb:?} {big} {before} {after} {bt:?} {w}").as_bytes()));
    ch.note(|| what);
    Ok(())
}

/// recording and applying orientations one after the other
fn histories(ch: &mut Ch) -> Res {
    let (w, h) = ch.pick(&[(3, 2), (1, 4), (5, 5)]);
    let bt = ch.pick(&DEPTHS);
    let mut m = M::unique(w, h, ColorSpace::RGBA, bt, 1);
    let mut im = m.image();
    let n = if ch.thorough() { 4 } else { 3 };
    let mut hist = vec![];
    for _ in 0..n {
        let o = ch.choose(9) as u32;
        hist.push(o);
        // 0: nothing is recorded anew
        if o > 0 {
            im.metadata_mut().parse_raw_exif(&tiff(false, &[vec![orientation(o as u16)]]));
        }
        let what = format!("orientations {hist:?} of {w}x{h} {bt:?}");
        orient(&mut im, &what)?;
        m = upright(&m, o);
        same(&im, &m, &what)?;
        ch.state(hash_bytes(format!("{bt:?} {:?} {o}", m.f).as_bytes()));
    }
    obs_image(ch, &im);
    ch.note(|| format!("{hist:?}"));
    Ok(())
}

fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xedb88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

fn with_exif(format: ImageFormat, file: &[u8], block: &[u8]) -> Vec<u8> {
    if format == ImageFormat::PNG {
        let mut o = file[..33].to_vec();
        let mut c = b"eXIf".to_vec();
        c.extend(block);
        o.extend((block.len() as u32).to_be_bytes());
        o.extend(&c);
        o.extend(crc(&c).to_be_bytes());
        o.extend(&file[33..]);
        o
    } else {
        let mut o = file[..2].to_vec();
        o.extend([0xff, 0xe1]);
        o.extend((block.len() as u16 + 8).to_be_bytes());
        o.extend(b"Exif\0\0");
        o.extend(block);
        o.extend(&file[2..]);
        o
    }
}

fn read(file: &[u8], what: &str) -> Result<Image, Bad> {
    match Image::read(ZCursor::new(file), DecoderOptions::default()) {
        Ok(i) => Ok(i),
        Err(e) => bad("decode", format!("{what}: {e:?}"))
    }
}

/// from a file with an orientation to an upright file that no longer asks for one
fn files(ch: &mut Ch) -> Res {
    let format = ch.pick(&[ImageFormat::PNG, ImageFormat::JPEG]);
    let o = ch.pick(&VALUES);
    let big = ch.flag();
    let (w, h) = ch.pick(&[(3, 2), (2, 5), (1, 1), (8, 16), (17, 9)]);
    let bt = ch.pick(&[BitType::U8, BitType::U16]);
    let cs = ch.pick(&[ColorSpace::RGB, ColorSpace::Luma]);
    if format == ImageFormat::JPEG && bt == BitType::U16 {
        ch.discard();
        return Ok(());
    }
    let what = format!("{format:?} {w}x{h} {cs:?} {bt:?} with orientation {o}");
    let src = M::unique(w, h, cs, bt, 1);
    let plain = match src.image().write_to_vec(format) {
        Ok(v) => v,
        Err(e) => return bad("encode", format!("{what}: {e:?}"))
    };
    let file = with_exif(format, &plain, &tiff(big, &[vec![orientation(o)]]));
    let stored = model_of(&read(&plain, &what)?);
    let mut im = read(&file, &what)?;
    same(&im, &stored, &format!("{what}: decoded"))?;
    orient(&mut im, &what)?;
    let e = upright(&stored, o as u32);
    same(&im, &e, &format!("{what}: oriented"))?;
    let out = match im.write_to_vec(format) {
        Ok(v) => v,
        Err(e) => return bad("encode", format!("{what}: {e:?}"))
    };
    let mut again = read(&out, &format!("{what}: re-encoded"))?;
    if (1..=8).contains(&o) && recorded(&again) != Some(Some(1)) {
        return bad("record", format!("{what}: the new file records {:?}", recorded(&again)));
    }
    let first = model_of(&again);
    if format == ImageFormat::PNG {
        same(&again, &e, &format!("{what}: re-encoded"))?;
    }
    if (first.w, first.h) != (e.w, e.h) {
        return bad("dims", format!("{what}: the new file is {}x{}", first.w, first.h));
    }
    orient(&mut again, &what)?;
    same(&again, &first, &format!("{what}: oriented again"))?;
    ch.state(hash_bytes(what.as_bytes()));
    obs_image(ch, &again);
    ch.note(|| what);
    Ok(())
}
