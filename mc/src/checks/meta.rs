//! C43 metadata stored in files is delivered as stored and doesn't disturb the pixels
use crate::engine::*;
use crate::imgs::*;
use crate::refs::deflate::zlib_stored;
use crate::refs::jpeg::{Coding, Jpeg};
use crate::refs::png::*;
use crate::util::*;
use crate::Check;
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
use zune_image::image::Image;
use zune_jpeg::JpegDecoder;
use zune_png::PngDecoder;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C43",
        level: "model_checking",
        rule: "every sequence of metadata chunks (PNG) and application segments (JPEG) up to the bound at every position of the header, ICC profiles split into segments in every order with missing and repeated ones, and every chunk and segment cut to every length, compared with what was stored and with the pixels of the file without them; a state is a distinct set of metadata",
        assumptions: &["each kind of metadata occurs once, apart from texts and gain maps; malformed PNG chunks may be refused"],
        scenarios: |_| vec![
            Scenario { name: "png", f: png },
            Scenario { name: "png-malformed", f: png_malformed },
            Scenario { name: "png-image", f: png_image },
            Scenario { name: "jpeg", f: jpeg },
            Scenario { name: "jpeg-icc", f: jpeg_icc },
            Scenario { name: "jpeg-malformed", f: jpeg_malformed },
            Scenario { name: "jpeg-image", f: jpeg_image }
        ]
    }]
}

/// a TIFF block with one SHORT entry
fn tiff(big: bool, tag: u16, v: u16) -> Vec<u8> {
    let s = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let l = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    [if big { &b"MM"[..] } else { b"II" }, &s(42), &l(8), &s(1), &s(tag), &s(3), &l(1), &s(v), &[0, 0], &l(0)].concat()
}

// ---------------------------------------------------------------------------------------- PNG
#[derive(Clone, Default, Debug, PartialEq)]
struct Info {
    gamma: Option<u32>,
    time:  Option<(u16, u8, u8, u8, u8, u8)>,
    exif:  Option<Vec<u8>>,
    icc:   Option<Vec<u8>>,
    text:  Vec<(Vec<u8>, Vec<u8>)>,
    ztxt:  Vec<(Vec<u8>, Vec<u8>)>,
    itxt:  Vec<(Vec<u8>, Vec<u8>)>
}
fn info_of<T: zune_core::bytestream::ZByteReaderTrait>(d: &PngDecoder<T>) -> Option<Info> {
    let i = d.info()?;
    Some(Info {
        gamma: i.gamma.map(|g| (g * 100000.0).round() as u32),
        time:  i.time_info.as_ref().map(|t| (t.year, t.month, t.day, t.hour, t.minute, t.second)),
        exif:  i.exif.clone(),
        icc:   i.icc_profile.clone(),
        text:  i.text_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect(),
        ztxt:  i.ztxt_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect(),
        itxt:  i.itxt_chunk.iter().map(|t| (t.keyword.clone(), t.text.clone())).collect()
    })
}
type Chunk = (&'static str, Vec<u8>);
/// a chunk and how it changes what is known; false if that kind was there already
fn a_chunk(ch: &mut Ch, i: &mut Info) -> Option<Chunk> {
    let once = |there: bool, c: Chunk| if there { None } else { Some(c) };
    let key = |k: &[u8]| k.to_vec();
    match ch.choose(17) {
        0 => {
            let there = i.gamma.replace(45455).is_some();
            once(there, ("gAMA", 45455u32.to_be_bytes().to_vec()))
        }
        1 => {
            let there = i.gamma.replace(100_000).is_some();
            once(there, ("gAMA", 100_000u32.to_be_bytes().to_vec()))
        }
        2 => {
            let there = i.time.replace((2022, 12, 31, 23, 59, 60)).is_some();
            once(there, ("tIME", vec![7, 0xE6, 12, 31, 23, 59, 60]))
        }
        3 => {
            let there = i.time.replace((256, 1, 2, 3, 4, 5)).is_some();
            once(there, ("tIME", vec![1, 0, 1, 2, 3, 4, 5]))
        }
        4 => {
            let b = tiff(false, 0x112, 1);
            let there = i.exif.replace(b.clone()).is_some();
            once(there, ("eXIf", b))
        }
        5 => {
            let b = tiff(true, 0x100, 77);
            let there = i.exif.replace(b.clone()).is_some();
            once(there, ("eXIf", b))
        }
        6 => {
            let p = pattern(300, 3);
            let there = i.icc.replace(p.clone()).is_some();
            once(there, ("iCCP", [b"prof\0\0".to_vec(), zlib_stored(&p)].concat()))
        }
        7 => {
            // the longest name
            let name = [b'n'; 78];
            let there = i.icc.replace(vec![9]).is_some();
            once(there, ("iCCP", [&name[..], b"\0\0", &zlib_stored(&[9])].concat()))
        }
        8 => {
            i.text.push((key(b"Title"), key(b"hello")));
            Some(("tEXt", b"Title\0hello".to_vec()))
        }
        9 => {
            i.text.push((key(b"K"), vec![]));
            Some(("tEXt", b"K\0".to_vec()))
        }
        10 => {
            let k = vec![b'k'; 78];
            i.text.push((k.clone(), pattern(400, 7)));
            Some(("tEXt", [k, vec![0], pattern(400, 7)].concat()))
        }
        11 => {
            i.ztxt.push((key(b"Comment"), key(b"some text")));
            Some(("zTXt", [b"Comment\0\0".to_vec(), zlib_stored(b"some text")].concat()))
        }
        12 => {
            i.ztxt.push((key(b"Comment"), vec![]));
            Some(("zTXt", [b"Comment\0\0".to_vec(), zlib_stored(b"")].concat()))
        }
        13 => {
            i.itxt.push((key(b"Title"), key(b"text")));
            Some(("iTXt", b"Title\0\0\0\0\0text".to_vec()))
        }
        14 => {
            i.itxt.push((key(b"Title"), key("t\u{e9}xt\0x".as_bytes())));
            Some(("iTXt", [&b"Title\0\0\0en-GB\0Titel\0"[..], "t\u{e9}xt\0x".as_bytes()].concat()))
        }
        15 => {
            i.itxt.push((key(b"T"), vec![]));
            Some(("iTXt", b"T\0\0\0\0x\0".to_vec()))
        }
        _ => Some(("abCd", pattern(ch.pick(&[0, 1, 300]), 4)))
    }
}
fn a_png(ch: &mut Ch) -> Spec {
    let (color, depth) = ch.pick(&[(2u8, 8u8), (3, 4), (6, 16)]);
    let mut s = Spec::new(5, 3, color, depth, false, 2);
    s.filters = vec![4, 2, 1];
    s
}
fn png(ch: &mut Ch) -> Res {
    let mut s = a_png(ch);
    let n = ch.choose(if ch.thorough() { 5 } else { 4 });
    let want = s.expect();
    let mut i = Info::default();
    // chunks are added in file order
    let mut at = 0;
    for _ in 0..n {
        at += ch.choose(3 - at);
        let Some(c) = a_chunk(ch, &mut i) else {
            ch.discard();
            return Ok(());
        };
        match at { 0 => s.pre.push(c), 1 => s.mid.push(c), _ => s.post.push(c) }
    }
    let names = |v: &[Chunk]| v.iter().map(|c| format!("{}[{}]", c.0, c.1.len())).collect::<Vec<_>>().join(" ");
    let what = format!("colour {} depth {} with {} | {} | {}", s.color, s.depth, names(&s.pre), names(&s.mid), names(&s.post));
    ch.note(|| what.clone());
    ch.state(hash_bytes(format!("{i:?}").as_bytes()));
    let file = s.file();
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file), DecoderOptions::default().set_strict_mode(ch.flag()));
    if let Err(e) = d.decode_headers() {
        return bad("png-headers", format!("{what}: {e:?}"));
    }
    let got = info_of(&d);
    if got.as_ref() != Some(&i) {
        return bad("png-metadata", format!("{what}: reported {got:?}, stored {i:?}"));
    }
    pixels(&mut d, &want, &what)?;
    let got = info_of(&d);
    ch.obs_bytes(format!("{got:?}").as_bytes());
    if got != Some(i) {
        return bad("png-metadata-later", format!("{what}: after decoding {got:?}"));
    }
    Ok(())
}
fn pixels<T: zune_core::bytestream::ZByteReaderTrait>(d: &mut PngDecoder<T>, want: &Out, what: &str) -> Res {
    match d.decode_raw() {
        Ok(v) if v == want.bytes(true) => Ok(()),
        Ok(v) => bad("png-pixels", format!("{what}: {}", first_diff(&v, &want.bytes(true)))),
        Err(e) => bad("png-pixels", format!("{what}: {e:?}"))
    }
}
fn png_malformed(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&[(2u8, 8u8), (3, 8), (0, 8), (6, 8)]);
    let mut s = Spec::new(5, 3, color, depth, false, 2);
    s.filters = vec![4, 2, 1];
    let full: Chunk = match ch.choose(11) {
        0 => ("gAMA", 45455u32.to_be_bytes().to_vec()),
        1 => ("tIME", vec![7, 0xE6, 12, 31, 23, 59, 60]),
        2 => ("eXIf", tiff(true, 0x112, 3)),
        3 => ("iCCP", [b"prof\0\0".to_vec(), zlib_stored(&[1, 2, 3])].concat()),
        4 => ("tEXt", b"Title\0hi".to_vec()),
        5 => ("zTXt", [b"Note\0\0".to_vec(), zlib_stored(b"some")].concat()),
        6 => ("iTXt", b"Title\0\0\0en\0Ti\0text".to_vec()),
        7 => ("acTL", vec![0, 0, 0, 1, 0, 0, 0, 0]),
        8 => ("tRNS", pattern(if color == 3 { 256 } else { 6 }, 77)),
        9 => ("PLTE", pattern(9, 3)),
        _ => ("pHYs", vec![0, 0, 1, 2, 0, 0, 1, 2, 1])
    };
    if full.0 == "PLTE" && (color == 3 || color == 0) {
        // a second palette, and one in a grayscale image, are not allowed at all
        ch.discard();
        return Ok(());
    }
    if full.0 == "tRNS" && color == 6 {
        ch.discard();
        return Ok(());
    }
    let n = if full.1.len() > 60 { ch.pick(&[0, 1, 255, 256, 257, 300]) } else { ch.choose(full.1.len() + 4) };
    let mut body = full.1.clone();
    body.resize(n, 0x41);
    if full.0 == "acTL" && n == 8 {
        ch.discard();
        return Ok(());
    }
    let after: Chunk = ("tEXt", b"After\0ok".to_vec());
    let place = ch.choose(if full.0 == "tRNS" || full.0 == "PLTE" { 1 } else { 3 });
    let slot = match place { 0 => &mut s.mid, 1 => &mut s.pre, _ => &mut s.post };
    slot.push((full.0, body.clone()));
    slot.push(after);
    let strict = ch.flag();
    let what = format!("colour {color}: {} of {n} bytes, strict {strict}, place {place}", full.0);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let mut wants = vec![s.expect()];
    if full.0 == "tRNS" {
        let two = |i: usize| u16::from_be_bytes([body[i], body[i + 1]]);
        match (color, n) {
            (3, n) if n <= 256 => {
                s.trns = Some(Trns::Pal(body.clone()));
                wants = vec![s.expect()];
            }
            (2, 6) => {
                s.trns = Some(Trns::Rgb([two(0), two(2), two(4)]));
                wants = vec![s.expect()];
            }
            (0, 2) => {
                s.trns = Some(Trns::Gray(two(0)));
                wants = vec![s.expect()];
            }
            _ => {}
        }
        s.trns = None;
    }
    let file = s.file();
    let mut d = PngDecoder::new_with_options(ZCursor::new(&file), DecoderOptions::default().set_strict_mode(strict));
    match d.decode_raw() {
        Err(_) => ch.obs(0),
        Ok(v) => {
            ch.obs(1);
            if !wants.iter().any(|w| w.bytes(true) == v) {
                return bad("png-malformed-pixels", format!("{what}: {}", first_diff(&v, &wants[0].bytes(true))));
            }
            let i = info_of(&d).unwrap_or_default();
            if !i.text.iter().any(|t| t.0 == b"After" && t.1 == b"ok") {
                return bad("png-malformed-next", format!("{what}: the chunk after it is lost, texts are {:?}", i.text));
            }
        }
    }
    Ok(())
}
fn image(file: &[u8], what: &str) -> Result<Image, Bad> {
    match Image::read(ZCursor::new(file), DecoderOptions::default()) {
        Ok(i) => Ok(i),
        Err(e) => bad("image", format!("{what}: {e:?}"))
    }
}
/// what an image says of the block, against reading the block itself
fn same_exif(im: &Image, block: Option<&[u8]>, what: &str) -> Res {
    let show = |v: &[exif::Field]| v.iter().map(|f| format!("{} {} {:?}", f.tag, f.ifd_num.index(), f.value)).collect::<Vec<_>>();
    let want = block.map(|b| show(&exif::Reader::new().read_raw(b.to_vec()).unwrap().fields().cloned().collect::<Vec<_>>()));
    let got = im.metadata().exif().map(|v| show(v));
    if got.clone().unwrap_or_default() != want.clone().unwrap_or_default() {
        return bad("image-exif", format!("{what}: {got:?}, stored {want:?}"));
    }
    Ok(())
}
fn png_image(ch: &mut Ch) -> Res {
    let mut s = a_png(ch);
    let plain = model_of(&image(&s.file(), "plain")?);
    let e = if ch.flag() { Some(tiff(ch.flag(), 0x112, 1 + ch.choose(8) as u16)) } else { None };
    let icc = if ch.flag() { Some(pattern(ch.pick(&[1, 100, 5000]), 3)) } else { None };
    let mid = ch.flag();
    if let Some(p) = &icc {
        s.pre.push(("iCCP", [b"prof\0\0".to_vec(), zlib_stored(p)].concat()));
    }
    if let Some(b) = &e {
        if mid { s.mid.push(("eXIf", b.clone())) } else { s.post.push(("eXIf", b.clone())) }
    }
    let what = format!("PNG colour {} exif {e:?} icc {:?}", s.color, icc.as_ref().map(|v| v.len()));
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let im = image(&s.file(), &what)?;
    same(&im, &plain, &what)?;
    same_exif(&im, e.as_deref(), &what)?;
    if im.metadata().icc_chunk() != icc.as_ref() {
        return bad("image-icc", format!("{what}: {:?}", im.metadata().icc_chunk().map(|v| v.len())));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- JPEG
fn a_jpeg(ch: &mut Ch) -> (Vec<u8>, Vec<usize>) {
    let samp: &[(usize, usize)] = ch.pick(&[&[(1usize, 1usize)][..], &[(2, 1), (1, 1), (1, 1)]]);
    let j = Jpeg::new(17, 9, samp, 1, 5);
    let f = j.file(&Coding::baseline(samp.len()));
    let cuts = cuts(&f);
    (f, cuts)
}
/// the ends of the segments before the first scan
fn cuts(f: &[u8]) -> Vec<usize> {
    let mut v = vec![2];
    let mut p = 2;
    while f[p + 1] != 0xDA {
        p += 2 + u16::from_be_bytes([f[p + 2], f[p + 3]]) as usize;
        v.push(p);
    }
    v
}
fn seg(m: u8, b: &[u8]) -> Vec<u8> {
    let mut o = vec![0xFF, m];
    o.extend((b.len() as u16 + 2).to_be_bytes());
    o.extend(b);
    o
}
#[derive(Clone, Default, Debug, PartialEq)]
struct Segs {
    exif: Option<Vec<u8>>,
    xmp:  Option<Vec<u8>>,
    iptc: Option<Vec<u8>>,
    icc:  Option<Vec<u8>>,
    mpf:  Option<Vec<u8>>,
    gain: Vec<Vec<u8>>
}
const XMP: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";
const IPTC: &[u8] = b"Photoshop 3.0\0";
const GAIN: &[u8] = b"urn:iso:std:iso:ts:21496:-1\0";
fn a_seg(ch: &mut Ch, s: &mut Segs) -> Option<Vec<u8>> {
    let mut one = |slot: fn(&mut Segs) -> &mut Option<Vec<u8>>, m: u8, prefix: &[u8], data: Vec<u8>| {
        if slot(s).is_some() {
            return None;
        }
        *slot(s) = Some(data.clone());
        Some(seg(m, &[prefix, &data].concat()))
    };
    match ch.choose(19) {
        0 => one(|s| &mut s.exif, 0xE1, b"Exif\0\0", tiff(true, 0x112, 5)),
        1 => one(|s| &mut s.exif, 0xE1, b"Exif\0\0", pattern(1, 9)),
        2 => one(|s| &mut s.exif, 0xE1, b"Exif\0\0", pattern(65527, 9)),
        3 => one(|s| &mut s.xmp, 0xE1, XMP, b"<x/>".to_vec()),
        4 => one(|s| &mut s.xmp, 0xE1, XMP, b"<".to_vec()),
        5 => one(|s| &mut s.iptc, 0xED, IPTC, b"8BIM..".to_vec()),
        6 => one(|s| &mut s.iptc, 0xED, IPTC, b"8".to_vec()),
        7 => one(|s| &mut s.mpf, 0xE2, b"MPF\0", pattern(20, 1)),
        8 => one(|s| &mut s.icc, 0xE2, b"ICC_PROFILE\0\x01\x01", pattern(40, 1)).map(|v| v),
        9 => {
            s.gain.push(vec![]);
            Some(seg(0xE2, &[GAIN, &[0, 0, 0, 0]].concat()))
        }
        10 => {
            s.gain.push(pattern(9, 2));
            Some(seg(0xE2, &[GAIN, &pattern(9, 2)].concat()))
        }
        11 => Some(seg(0xE0, b"JFIF\0\x01\x02\x01\x00\x48\x00\x48\0\0")),
        12 => Some(seg(0xE1, b"something else")),
        13 => Some(seg(0xE2, b"FPXR\0...")),
        14 => Some(seg(0xEE, b"Other and long")),
        15 => Some(seg(0xE5, &pattern(50, 3))),
        16 => Some(seg(0xFE, b"a comment \xFF\xDA\xFF\xD9")),
        17 => Some(seg(0xED, b"Adobe_CM")),
        _ => Some(seg(0xEF, b""))
    }
}
fn check_jpeg(ch: &mut Ch, file: &[u8], plain: &[u8], want: &Segs, what: &str) -> Res {
    let mut d = JpegDecoder::new(ZCursor::new(file));
    let get = |d: &JpegDecoder<ZCursor<&[u8]>>| {
        let i = d.info();
        Segs {
            exif: d.exif().cloned(),
            xmp:  d.xmp().cloned(),
            iptc: d.iptc().cloned(),
            icc:  d.icc_profile(),
            mpf:  i.as_ref().and_then(|i| i.multi_picture_information.clone()),
            gain: i.map(|i| i.gain_map_info.iter().map(|g| g.data.clone()).collect()).unwrap_or_default()
        }
    };
    if let Err(e) = d.decode_headers() {
        return bad("jpeg-headers", format!("{what}: {e:?}"));
    }
    let got = get(&d);
    ch.obs_bytes(format!("{got:?}").as_bytes());
    if &got != want {
        return bad("jpeg-metadata", format!("{what}: reported {got:?}, stored {want:?}"));
    }
    match d.decode() {
        Ok(v) if v == plain => {}
        Ok(v) => return bad("jpeg-pixels", format!("{what}: {}", first_diff(&v, plain))),
        Err(e) => return bad("jpeg-pixels", format!("{what}: {e:?}"))
    }
    if &get(&d) != want {
        return bad("jpeg-metadata-later", format!("{what}: after decoding {:?}", get(&d)));
    }
    Ok(())
}
fn plain(f: &[u8]) -> Result<Vec<u8>, Bad> {
    match JpegDecoder::new(ZCursor::new(f)).decode() {
        Ok(v) => Ok(v),
        Err(e) => bad("jpeg-plain", format!("{e:?}"))
    }
}
fn jpeg(ch: &mut Ch) -> Res {
    let (f, at) = a_jpeg(ch);
    let want = plain(&f)?;
    let n = ch.choose(if ch.thorough() { 4 } else { 3 });
    let mut s = Segs::default();
    let mut out = vec![];
    let mut from = 0;
    let mut k = 0;
    let mut what = String::new();
    for i in 0..n {
        k += if i == 0 || ch.thorough() { ch.choose(at.len() - k) } else { ch.choose((at.len() - k).min(2)) };
        let Some(b) = a_seg(ch, &mut s) else {
            ch.discard();
            return Ok(());
        };
        out.extend(&f[from..at[k]]);
        from = at[k];
        what += &format!("{:02x}[{}] at {k} ", b[1], b.len());
        out.extend(b);
    }
    out.extend(&f[from..]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(format!("{s:?}").as_bytes()));
    check_jpeg(ch, &out, &want, &s, &what)
}
fn jpeg_icc(ch: &mut Ch) -> Res {
    let (f, at) = a_jpeg(ch);
    let want = plain(&f)?;
    let many = ch.choose(8) == 7;
    let n = if many { ch.pick(&[2usize, 100, 254, 255]) } else { 1 + ch.choose(if ch.thorough() { 5 } else { 4 }) };
    let parts: Vec<Vec<u8>> = (0..n).map(|i| pattern(1 + (i * 5) % 11, i as u32)).collect();
    // the order they are stored in
    let mut order: Vec<usize> = vec![];
    if many {
        order = if ch.flag() { (0..n).rev().collect() } else { (0..n).collect() };
    } else {
        let mut left: Vec<usize> = (0..n).collect();
        while !left.is_empty() {
            order.push(left.remove(ch.choose(left.len())));
        }
    }
    let mut s = Segs { icc: Some(parts.concat()), ..Default::default() };
    let mut segs: Vec<(u8, u8, Vec<u8>)> = order.iter().map(|i| (*i as u8 + 1, n as u8, parts[*i].clone())).collect();
    let fault = ch.choose(6);
    let which = if many { n / 2 } else { ch.choose(n) };
    match fault {
        0 => {}
        1 => {
            // one is missing
            segs.remove(which);
            s.icc = None;
        }
        2 => {
            // one is there twice
            segs.insert(0, segs[which].clone());
            s.icc = None;
        }
        3 => {
            // another count in one of them
            segs[which].1 = segs[which].1.wrapping_add(1);
            s.icc = None;
        }
        4 => {
            segs[which].0 = 0;
            s.icc = None;
        }
        _ => {
            // one has the number of another
            if n == 1 {
                segs[which].0 = 2;
            } else {
                segs[which].0 = segs[(which + 1) % n].0;
            }
            s.icc = None;
        }
    }
    let spread = ch.flag();
    let what = format!("{n} parts in order {:?}, fault {fault} at {which}, spread {spread}", &order[..n.min(5)]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let mut out = vec![];
    let mut from = 0;
    for (i, (no, count, data)) in segs.iter().enumerate() {
        let k = if spread { at[i.min(at.len() - 1)] } else { at[0] };
        out.extend(&f[from..k]);
        from = k;
        out.extend(seg(0xE2, &[b"ICC_PROFILE\0", &[*no, *count][..], data].concat()));
    }
    out.extend(&f[from..]);
    check_jpeg(ch, &out, &want, &s, &what)
}
fn jpeg_malformed(ch: &mut Ch) -> Res {
    let (f, at) = a_jpeg(ch);
    let want = plain(&f)?;
    let (m, body) = match ch.choose(9) {
        0 => (0xE0u8, b"JFIF\0\x01\x02\x01\x00\x48\x00\x48\0\0".to_vec()),
        1 => (0xE1, [&b"Exif\0\0"[..], &tiff(true, 0x112, 5)].concat()),
        2 => (0xE1, [XMP, b"<x/>"].concat()),
        3 => (0xE2, [&b"ICC_PROFILE\0\x01\x02"[..], &pattern(5, 1)].concat()),
        4 => (0xE2, [GAIN, &pattern(7, 2)].concat()),
        5 => (0xE2, [&b"MPF\0"[..], &pattern(4, 2)].concat()),
        6 => (0xED, [IPTC, b"8BIM"].concat()),
        7 => (0xEE, b"Adobf\0\x64\0\0\0\0\x01".to_vec()),
        _ => (0xE3, b"Meta\0\0".to_vec())
    };
    let n = ch.choose(body.len() + 1);
    let k = ch.pick(&at);
    let body = &body[..n];
    let what = format!("segment {m:02x} of {n} bytes at {k}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    // a comment after it shows that reading goes on in the right place
    let out = [&f[..k], &seg(m, body), &seg(0xE1, &[XMP, b"after"].concat()), &f[k..]].concat();
    let mut d = JpegDecoder::new(ZCursor::new(&out[..]));
    match d.decode() {
        Ok(v) if v == want => {}
        Ok(v) => return bad("jpeg-malformed-pixels", format!("{what}: {}", first_diff(&v, &want))),
        Err(e) => return bad("jpeg-malformed-pixels", format!("{what}: {e:?}"))
    }
    if d.xmp().map(|x| &x[..]) != Some(&b"after"[..]) {
        return bad("jpeg-malformed-next", format!("{what}: the segment after it is lost"));
    }
    // what is reported is a part of what is there
    for (name, v) in [("exif", d.exif().cloned()), ("iptc", d.iptc().cloned()), ("icc", d.icc_profile())] {
        if let Some(v) = v {
            ch.obs(v.len() as u64);
            if !body.ends_with(&v) {
                return bad("jpeg-malformed-metadata", format!("{what}: {name} {v:?}"));
            }
        }
    }
    Ok(())
}
fn jpeg_image(ch: &mut Ch) -> Res {
    let (f, at) = a_jpeg(ch);
    let base = model_of(&image(&f, "plain")?);
    let e = if ch.flag() { Some(tiff(ch.flag(), 0x112, 1 + ch.choose(8) as u16)) } else { None };
    let n = ch.choose(4);
    let icc = if n > 0 { Some(pattern(31, 3)) } else { None };
    let mut add = vec![];
    if let Some(b) = &e {
        add.push(seg(0xE1, &[&b"Exif\0\0"[..], b].concat()));
    }
    if let Some(p) = &icc {
        for (i, c) in p.chunks(31usize.div_ceil(n)).enumerate() {
            add.push(seg(0xE2, &[b"ICC_PROFILE\0", &[i as u8 + 1, n as u8][..], c].concat()));
        }
    }
    if ch.flag() {
        add.reverse();
    }
    let k = ch.pick(&at);
    let what = format!("JPEG exif {e:?} icc in {n} at {k}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let im = image(&[&f[..k], &add.concat(), &f[k..]].concat(), &what)?;
    same(&im, &base, &what)?;
    same_exif(&im, e.as_deref(), &what)?;
    if im.metadata().icc_chunk() != icc.as_ref() {
        return bad("image-icc", format!("{what}: {:?}", im.metadata().icc_chunk().map(|v| v.len())));
    }
    Ok(())
}
