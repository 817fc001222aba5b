//! C50 JPEG files and attached metadata written from images
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::{EncoderTrait, OperationsTrait};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C50",
        level: "model_checking",
        rule: "every colour space, depth, dimension of the bound and frame count with smooth images, encoded as JPEG in every way, decoded again and compared with the image converted as documented; every quality with and without progressive coding, read from the markers of the file; dimensions around the largest the format can hold; every combination of metadata fields of a list through JPEG and PNG files, stripped or not; a state is (image, options)",
        assumptions: &["an 8-bit sample of a smooth image may change by 6 at the highest qualities", "Exif blocks have fields in their main directory, as the standard demands"],
        scenarios: |_| vec![
            Scenario { name: "shown", f: shown },
            Scenario { name: "quality", f: quality },
            Scenario { name: "dimensions", f: dimensions },
            Scenario { name: "fields", f: fields }
        ]
    }]
}

/// slow changes in both directions, in the middle of the range
fn smooth(w: usize, h: usize, cs: ColorSpace, bt: BitType, frames: usize, k: usize) -> M {
    let max = max_of(bt);
    M::new(w, h, cs, bt, frames, |f, c, i| {
        let (x, y) = ((i % w) as f64, (i / w) as f64);
        let c = c as f64;
        let v = match k {
            0 => 0.3 + 0.006 * x + 0.004 * y + 0.1 * c,
            1 => 0.8 - 0.005 * x - 0.006 * y - 0.12 * c,
            _ => 0.1 + 0.2 * c + 0.002 * (x - y)
        } + 0.05 * f as f64;
        let v = v.clamp(0.0, 1.0) * max;
        from_f(bt, if bt == BitType::F32 { v } else { v.round() })
    })
}
fn encode(im: &Image, o: EncoderOptions, route: usize) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let r = match route {
        0 => ImageFormat::JPEG.encode(im, o, &mut v).map(|_| ()),
        1 => zune_image::codecs::jpeg::JpegEncoder::new_with_options(o).encode(im, &mut v).map(|_| ()),
        _ => {
            let mut e = zune_image::codecs::jpeg::JpegEncoder::new();
            e.set_options(o);
            e.encode_to_result(im).map(|r| v = r.data().to_vec())
        }
    };
    r.map(|_| v).map_err(|e| format!("{e:?}"))
}

/// what a JPEG file says about itself
#[derive(Debug, PartialEq, Clone, Default)]
struct Head {
    sof: Vec<u8>,
    dims: (usize, usize),
    comps: usize,
    /// the tables by number
    quant: Vec<(u8, Vec<u8>)>,
    scans: usize,
    app1: Vec<Vec<u8>>
}
fn head(f: &[u8]) -> Option<Head> {
    let mut h = Head::default();
    let mut i = 2;
    if f.get(..2)? != [0xff, 0xd8] {
        return None;
    }
    loop {
        if *f.get(i)? != 0xff {
            return None;
        }
        let m = *f.get(i + 1)?;
        i += 2;
        if m == 0xd9 {
            return (i == f.len()).then_some(h);
        }
        let n = u16::from_be_bytes([*f.get(i)?, *f.get(i + 1)?]) as usize;
        let b = f.get(i + 2..i + n)?;
        i += n;
        match m {
            0xc0..=0xcf if m != 0xc4 && m != 0xc8 && m != 0xcc => {
                h.sof.push(m);
                h.dims = (u16::from_be_bytes([b[3], b[4]]) as usize, u16::from_be_bytes([b[1], b[2]]) as usize);
                h.comps = b[5] as usize;
            }
            0xdb => {
                let mut b = b;
                while let Some((t, r)) = b.split_first() {
                    if t >> 4 != 0 || r.len() < 64 {
                        return None;
                    }
                    h.quant.push((*t, r[..64].to_vec()));
                    b = &r[64..];
                }
            }
            0xe1 => h.app1.push(b.to_vec()),
            0xda => {
                h.scans += 1;
                // entropy coded data
                while !(*f.get(i)? == 0xff && !matches!(*f.get(i + 1)?, 0 | 0xd0..=0xd7)) {
                    i += 1;
                }
            }
            _ => {}
        }
    }
}

fn shown(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let cs = ch.pick(&ALL_COLORSPACES);
    let deep = ch.thorough();
    let native = matches!(cs, ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::Luma) && bt == BitType::U8;
    let (w, h) = if native || deep {
        let top = if deep { 34 } else { 18 };
        (ch.choose(top) + 1, ch.choose(top) + 1)
    } else {
        ch.pick(&[(1, 1), (9, 7), (17, 16), (3, 40)])
    };
    let frames = if w % 4 == 1 { ch.choose(2) + 1 } else { 1 };
    let k = ch.choose(3);
    let q = ch.pick(&[100u8, 95]);
    let prog = ch.flag();
    let route = if w == h || deep { ch.choose(3) } else { (w + h) % 3 };
    let m = smooth(w, h, cs, bt, frames, k);
    let im = m.image();
    let what = format!("{} pattern {k} quality {q} progressive {prog} route {route}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    // the image as the format can hold it
    let mut e = im.clone();
    let to = match cs {
        ColorSpace::Luma | ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::YCbCr | ColorSpace::CMYK | ColorSpace::YCCK => cs,
        _ => ColorSpace::RGB
    };
    let ok = ColorspaceConv::new(to).execute(&mut e).and_then(|_| Depth::new(BitDepth::Eight).execute(&mut e)).is_ok();
    let o = EncoderOptions::default().set_quality(q).set_jpeg_encode_progressive(prog);
    let v = match encode(&im, o, route) {
        Ok(v) => v,
        Err(_) if !ok => {
            ch.obs(1);
            return Ok(());
        }
        Err(e) => return bad("rejected", format!("{what}: {e}"))
    };
    if !ok {
        return bad("unconvertible", format!("{what}: encoded, although there is no conversion to {to:?}"));
    }
    same(&im, &m, &format!("{what}: the image after encoding"))?;
    let out = match to {
        ColorSpace::RGBA => ColorSpace::RGB,
        t => t
    };
    // CMYK and its kin are decoded as they are stored
    let back = match Image::read(ZCursor::new(&v[..]), DecoderOptions::default().jpeg_set_out_colorspace(out)) {
        Ok(i) => i,
        Err(e) => return bad("undecodable", format!("{what}: {e:?}"))
    };
    obs_image(ch, &back);
    if back.dimensions() != (w, h) || back.depth() != BitDepth::Eight || back.frames_ref().len() != 1 || back.colorspace() != out {
        return bad("shape", format!("{what}: read as {:?} {:?} {:?}", back.dimensions(), back.colorspace(), back.depth()));
    }
    if matches!(to, ColorSpace::CMYK | ColorSpace::YCCK) {
        return Ok(());
    }
    let (got, exp) = (model_of(&back), model_of(&e));
    for (c, (g, e)) in got.f[0].iter().zip(&exp.f[0]).enumerate() {
        for (i, (g, e)) in g.iter().zip(e).enumerate() {
            if g.abs_diff(*e) > 6 {
                return bad("value", format!("{what}: sample ({},{}) of component {c} is {g} instead of {e}", i % w, i / w));
            }
        }
    }
    Ok(())
}

/// the tables get no coarser as the quality rises; the options decide what kind of file it is
fn quality(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::CMYK, ColorSpace::YCbCr]);
    let (w, h) = ch.pick(&[(1, 1), (8, 8), (9, 5), (5, 9), (33, 20)]);
    let prog = ch.flag();
    let route = ch.choose(3);
    let other = ch.flag();
    let m = smooth(w, h, cs, BitType::U8, 1, 0);
    let im = m.image();
    let mut last: Option<Head> = None;
    let mut first = vec![];
    for q in 1..=100u8 {
        let mut o = EncoderOptions::default().set_quality(q).set_jpeg_encode_progressive(prog);
        if other {
            // geometry of another image, and options of other formats
            o = EncoderOptions::new(3, 2, ColorSpace::LumaA, BitDepth::Sixteen).set_quality(q).set_jpeg_encode_progressive(prog).set_effort(9).set_num_threads(3);
        }
        let what = format!("{} at quality {q}, progressive {prog}, route {route}", m.short());
        let v = match encode(&im, o, route) {
            Ok(v) => v,
            Err(e) => return bad("rejected", format!("{what}: {e}"))
        };
        let Some(hd) = head(&v) else { return bad("malformed", format!("{what}: the {} bytes are no sequence of segments", v.len())) };
        if hd.sof.len() != 1 || (hd.sof[0] == 0xc2) != prog || (!prog && !matches!(hd.sof[0], 0xc0 | 0xc1)) {
            return bad("process", format!("{what}: frame headers {:x?}", hd.sof));
        }
        let comps = match cs {
            ColorSpace::Luma => 1,
            ColorSpace::CMYK => 4,
            _ => 3
        };
        if hd.dims != (w, h) || hd.comps != comps || hd.scans == 0 || !hd.app1.is_empty() {
            return bad("header", format!("{what}: the file is {:?} with {} components, {} scans and {} APP1 segments", hd.dims, hd.comps, hd.scans, hd.app1.len()));
        }
        if let Some(l) = &last {
            let fine = l.quant.len() == hd.quant.len() && l.quant.iter().zip(&hd.quant).all(|(a, b)| a.0 == b.0 && a.1.iter().zip(&b.1).all(|(x, y)| x >= y));
            if !fine {
                return bad("coarser", format!("{what}: quantization is coarser than at {}", q - 1));
            }
        }
        if q == 1 {
            first = hd.quant.clone();
        }
        if q == 100 && hd.quant == first {
            return bad("quality-ignored", format!("{what}: the tables are those of quality 1"));
        }
        ch.state(hash_bytes(what.as_bytes()));
        ch.obs(hash_bytes(&v));
        last = Some(hd);
    }
    ch.note(|| format!("{} at every quality, progressive {prog}", m.short()));
    Ok(())
}

/// what can't be stored is refused
fn dimensions(ch: &mut Ch) -> Res {
    let f = ch.pick(&[ImageFormat::JPEG, ImageFormat::PNG, ImageFormat::QOI, ImageFormat::PPM, ImageFormat::Farbfeld, ImageFormat::HDR]);
    let n = ch.pick(&[65533usize, 65534, 65535, 65536, 65537, 65544, 131071, 131072, 131073]);
    let (w, h) = if ch.flag() { (n, 1) } else { (1, n) };
    let cs = ch.pick(&[ColorSpace::Luma, ColorSpace::RGB]);
    let m = smooth(w.min(50), h.min(50), cs, BitType::U8, 1, 0);
    let m = M::new(w, h, cs, BitType::U8, 1, |_, c, i| m.f[0][c][i % 50]);
    let what = format!("{f:?} {}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let v = match m.image().write_to_vec(f) {
        Ok(v) => v,
        Err(e) => {
            ch.obs(1);
            if f != ImageFormat::JPEG || n <= 65535 {
                return bad("rejected", format!("{what}: {e:?}"));
            }
            return Ok(());
        }
    };
    ch.obs(2);
    let o = DecoderOptions::default().set_max_width(1 << 20).set_max_height(1 << 20);
    match Image::read(ZCursor::new(&v[..]), o) {
        Ok(i) if i.dimensions() == (w, h) => Ok(()),
        Ok(i) => bad("dims", format!("{what}: the file holds {:?}", i.dimensions())),
        Err(e) => bad("undecodable", format!("{what}: {e:?}"))
    }
}

// ------------------------------------------------------------------------------------- metadata
/// (tag, type, data, where: 0 main, 1 Exif directory, 2 GPS directory)
type Tag = (u16, u16, Vec<u8>, usize);
fn tags() -> Vec<Tag> {
    let s = |t: &str| [t.as_bytes(), &[0]].concat();
    let r = |v: &[u32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    vec![
        (0x010f, 2, s("Mak"), 0),
        (0x0110, 2, s("A model with a longer name"), 0),
        (0x0112, 3, vec![6, 0], 0),
        (0x011a, 5, r(&[72, 1]), 0),
        (0x829a, 5, r(&[1, 250]), 1),
        (0x9204, 10, r(&[-2i32 as u32, 3]), 1),
        (0x927c, 7, (0..200).map(|i| (i * 7) as u8).collect(), 1),
        (0x0002, 5, r(&[51, 1, 30, 1, 12, 1]), 2),
        (0x0001, 2, s("N"), 2)
    ]
}
fn block(which: &[Tag]) -> Vec<u8> {
    let size = |t: u16| match t {
        3 => 2,
        4 => 4,
        5 | 10 => 8,
        _ => 1
    };
    let mut o = b"II*\0\x08\0\0\0".to_vec();
    let mut dirs: [Vec<Tag>; 3] = [0, 1, 2].map(|d| {
        let mut v: Vec<Tag> = which.iter().filter(|t| t.3 == d).cloned().collect();
        v.sort();
        v
    });
    for (d, tag) in [(1, 0x8769u16), (2, 0x8825)] {
        if !dirs[d].is_empty() {
            dirs[0].push((tag, 4, vec![0; 4], 0));
        }
    }
    dirs[0].sort();
    let mut patch = [0usize; 3];
    for d in 0..3 {
        if d > 0 {
            if dirs[d].is_empty() {
                continue;
            }
            let at = (o.len() as u32).to_le_bytes();
            o[patch[d]..patch[d] + 4].copy_from_slice(&at);
        }
        let base = o.len() + 2 + 12 * dirs[d].len() + 4;
        let mut tail: Vec<u8> = vec![];
        o.extend((dirs[d].len() as u16).to_le_bytes());
        for (tag, ty, data, _) in &dirs[d] {
            o.extend(tag.to_le_bytes());
            o.extend(ty.to_le_bytes());
            o.extend(((data.len() / size(*ty)) as u32).to_le_bytes());
            match tag {
                0x8769 => patch[1] = o.len(),
                0x8825 => patch[2] = o.len(),
                _ => {}
            }
            if data.len() <= 4 {
                o.extend(data);
                o.resize(o.len() + 4 - data.len(), 0);
            } else {
                o.extend(((base + tail.len()) as u32).to_le_bytes());
                tail.extend(data);
                if tail.len() % 2 == 1 {
                    tail.push(0);
                }
            }
        }
        o.extend([0; 4]);
        o.extend(tail);
    }
    o
}
/// the fields of an image, in the order of their numbers
fn listed(im: &Image) -> Vec<String> {
    let mut v: Vec<String> = im
        .metadata()
        .exif()
        .into_iter()
        .flatten()
        .map(|f| match &f.value {
            // without the place in the block
            exif::Value::Undefined(v, _) => format!("{:?} {:?} {v:?}", f.tag, f.ifd_num),
            v => format!("{:?} {:?} {v:?}", f.tag, f.ifd_num)
        })
        .collect();
    v.sort();
    v
}
fn fields(ch: &mut Ch) -> Res {
    let f = ch.pick(&[ImageFormat::JPEG, ImageFormat::PNG]);
    let all = tags();
    let mut which = vec![];
    for t in &all {
        if ch.flag() {
            which.push(t.clone());
        }
    }
    if !which.is_empty() && which.iter().all(|t| t.3 > 0) {
        // no main directory: not a block the standard allows
        ch.discard();
        return Ok(());
    }
    let (cs, bt) = ch.pick(&[(ColorSpace::RGB, BitType::U8), (ColorSpace::BGR, BitType::U16), (ColorSpace::Luma, BitType::F32)]);
    let deep = ch.thorough();
    let strip = ch.flag();
    let mut sets = 0;
    let mut im = smooth(9, 4, cs, bt, 1, 1).image();
    if !which.is_empty() {
        im.metadata_mut().parse_raw_exif(&block(&which));
        if im.metadata().exif().is_none() {
            return bad("parse", format!("a block with {which:x?} is not read"));
        }
    }
    let mut want = listed(&im);
    if want.len() != which.len() {
        return bad("parse", format!("{} fields are read of {which:x?}: {want:?}", want.len()));
    }
    if strip {
        want.clear();
    }
    let what = format!("{f:?} {cs:?} {bt:?}, strip {strip}, with {:x?}", which.iter().map(|t| t.0).collect::<Vec<_>>());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let o = EncoderOptions::default().set_strip_metadata(strip);
    // generations of files
    let n = if deep { 3 } else { 2 };
    let mut pixels: Option<M> = None;
    for k in 0..n {
        let mut v = vec![];
        if let Err(e) = f.encode(&im, o, &mut v) {
            return bad("rejected", format!("{what}, generation {k}: {e:?}"));
        }
        im = match Image::read(ZCursor::new(&v[..]), DecoderOptions::default()) {
            Ok(i) => i,
            Err(e) => return bad("undecodable", format!("{what}, generation {k}: {e:?}"))
        };
        if listed(&im) != want {
            return bad("fields", format!("{what}, generation {k}: {:?} instead of {want:?}", listed(&im)));
        }
        if let (Some(p), ImageFormat::PNG) = (&pixels, f) {
            same(&im, p, &format!("{what}, generation {k}"))?;
        }
        pixels = Some(model_of(&im));
        sets += want.len();
    }
    ch.obs(sets as u64);
    Ok(())
}
