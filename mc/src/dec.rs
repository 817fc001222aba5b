//! All decoders behind one interface, and a corpus of small files of every format and mode
use crate::checks::{farbfeld, hdr, ppm, psd, qoi};
use crate::refs::{bmp, jpeg, png};
use crate::util::pattern;
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::{ZByteReaderTrait, ZCursor};
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fmt {
    Png,
    Jpeg,
    Bmp,
    Qoi,
    Ppm,
    Farbfeld,
    Hdr,
    Psd
}
pub const FMTS: [Fmt; 8] = [Fmt::Png, Fmt::Jpeg, Fmt::Bmp, Fmt::Qoi, Fmt::Ppm, Fmt::Farbfeld, Fmt::Hdr, Fmt::Psd];

/// samples of every kind as native bytes
pub trait AnyDec {
    fn headers(&mut self) -> Result<(), String>;
    fn dims(&self) -> Option<(usize, usize)>;
    fn cs(&self) -> Option<ColorSpace>;
    fn depth(&self) -> Option<BitDepth>;
    /// announced output size in bytes
    fn size(&self) -> Option<usize> {
        None
    }
    fn decode(&mut self) -> Result<Vec<u8>, String>;
    /// None when there is no such call; the buffer is a multiple of the sample size
    fn decode_into(&mut self, _buf: &mut [u8]) -> Option<Result<(), String>> {
        None
    }
    /// the size of the units decode_into takes
    fn unit(&self) -> usize {
        1
    }
    fn meta(&self) -> String {
        String::new()
    }
    /// getters of which `dims` and `cs` do not depend on the headers having been read
    fn fixed_cs(&self) -> bool {
        false
    }
    fn fixed_depth(&self) -> bool {
        false
    }
}
pub fn flat(r: DecodingResult) -> Vec<u8> {
    match r {
        DecodingResult::U8(v) => v,
        DecodingResult::U16(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        DecodingResult::F32(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        _ => vec![]
    }
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}
struct P<T: ZByteReaderTrait>(zune_png::PngDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for P<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        self.0.depth()
    }
    fn size(&self) -> Option<usize> {
        self.0.output_buffer_size()
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode()).map(flat)
    }
    fn decode_into(&mut self, buf: &mut [u8]) -> Option<Result<(), String>> {
        Some(e(self.0.decode_into(buf)))
    }
    fn meta(&self) -> String {
        match self.0.info() {
            None => "none".into(),
            Some(i) => format!(
                "{} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {}",
                i.width,
                i.height,
                i.gamma,
                i.interlace_method,
                i.time_info,
                i.exif,
                i.icc_profile,
                i.itxt_chunk.iter().map(|c| (&c.keyword, &c.text)).collect::<Vec<_>>(),
                i.ztxt_chunk.iter().map(|c| (&c.keyword, &c.text)).collect::<Vec<_>>(),
                i.text_chunk.iter().map(|c| (&c.keyword, &c.text)).collect::<Vec<_>>(),
                self.0.is_animated()
            )
        }
    }
}
struct J<T: ZByteReaderTrait>(zune_jpeg::JpegDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for J<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.output_colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        Some(BitDepth::Eight)
    }
    fn fixed_depth(&self) -> bool {
        true
    }
    fn size(&self) -> Option<usize> {
        self.0.output_buffer_size()
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode())
    }
    fn decode_into(&mut self, buf: &mut [u8]) -> Option<Result<(), String>> {
        Some(e(self.0.decode_into(buf)))
    }
    fn meta(&self) -> String {
        match self.0.info() {
            None => "none".into(),
            Some(i) => format!(
                "{} {} {} {} {} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                i.width, i.height, i.components, i.pixel_density, i.x_density, i.y_density, i.gain_map_info, i.multi_picture_information, self.0.input_colorspace(), self.0.exif(), self.0.icc_profile(), self.0.xmp(), self.0.iptc()
            )
        }
    }
}
struct B<T: ZByteReaderTrait>(zune_bmp::BmpDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for B<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        Some(self.0.depth())
    }
    fn fixed_depth(&self) -> bool {
        true
    }
    fn size(&self) -> Option<usize> {
        self.0.output_buf_size()
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode())
    }
    fn decode_into(&mut self, buf: &mut [u8]) -> Option<Result<(), String>> {
        Some(e(self.0.decode_into(buf)))
    }
    fn meta(&self) -> String {
        format!("{:?} {:?}", self.0.color_primaries(), self.0.icc_profile())
    }
}
struct Q<T: ZByteReaderTrait>(zune_qoi::QoiDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for Q<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        Some(self.0.bit_depth())
    }
    fn fixed_depth(&self) -> bool {
        true
    }
    fn size(&self) -> Option<usize> {
        self.0.output_buffer_size()
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode())
    }
    fn decode_into(&mut self, buf: &mut [u8]) -> Option<Result<(), String>> {
        Some(e(self.0.decode_into(buf)))
    }
}
struct N<T: ZByteReaderTrait>(zune_ppm::PPMDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for N<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        self.0.bit_depth()
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode()).map(flat)
    }
}
struct F<T: ZByteReaderTrait>(zune_farbfeld::FarbFeldDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for F<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        Some(self.0.colorspace())
    }
    fn fixed_cs(&self) -> bool {
        true
    }
    fn depth(&self) -> Option<BitDepth> {
        Some(self.0.bit_depth())
    }
    fn fixed_depth(&self) -> bool {
        true
    }
    fn size(&self) -> Option<usize> {
        self.0.output_buffer_size()
    }
    fn unit(&self) -> usize {
        2
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode()).map(|v| v.iter().flat_map(|x| x.to_ne_bytes()).collect())
    }
    fn decode_into(&mut self, buf: &mut [u8]) -> Option<Result<(), String>> {
        let mut v: Vec<u16> = buf.chunks_exact(2).map(|x| u16::from_ne_bytes([x[0], x[1]])).collect();
        let r = e(self.0.decode_into(&mut v));
        for (b, x) in buf.chunks_exact_mut(2).zip(v) {
            b.copy_from_slice(&x.to_ne_bytes());
        }
        Some(r)
    }
}
struct H<T: ZByteReaderTrait>(zune_hdr::HdrDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for H<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.get_colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        Some(BitDepth::Float32)
    }
    fn fixed_depth(&self) -> bool {
        true
    }
    fn size(&self) -> Option<usize> {
        self.0.output_buffer_size().map(|x| x * 4)
    }
    fn unit(&self) -> usize {
        4
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode()).map(|v| v.iter().flat_map(|x| x.to_ne_bytes()).collect())
    }
    fn decode_into(&mut self, buf: &mut [u8]) -> Option<Result<(), String>> {
        let mut v: Vec<f32> = buf.chunks_exact(4).map(|x| f32::from_ne_bytes([x[0], x[1], x[2], x[3]])).collect();
        let r = e(self.0.decode_into(&mut v));
        for (b, x) in buf.chunks_exact_mut(4).zip(v) {
            b.copy_from_slice(&x.to_ne_bytes());
        }
        Some(r)
    }
    fn meta(&self) -> String {
        format!("{:?}", self.0.metadata())
    }
}
struct S<T: ZByteReaderTrait>(zune_psd::PSDDecoder<T>);
impl<T: ZByteReaderTrait> AnyDec for S<T> {
    fn headers(&mut self) -> Result<(), String> {
        e(self.0.decode_headers())
    }
    fn dims(&self) -> Option<(usize, usize)> {
        self.0.dimensions()
    }
    fn cs(&self) -> Option<ColorSpace> {
        self.0.colorspace()
    }
    fn depth(&self) -> Option<BitDepth> {
        self.0.bit_depth()
    }
    fn decode(&mut self) -> Result<Vec<u8>, String> {
        e(self.0.decode()).map(flat)
    }
}
pub fn open<'a, T: ZByteReaderTrait + 'a>(f: Fmt, src: T, o: DecoderOptions) -> Box<dyn AnyDec + 'a> {
    match f {
        Fmt::Png => Box::new(P(zune_png::PngDecoder::new_with_options(src, o))),
        Fmt::Jpeg => Box::new(J(zune_jpeg::JpegDecoder::new_with_options(src, o))),
        Fmt::Bmp => Box::new(B(zune_bmp::BmpDecoder::new_with_options(src, o))),
        Fmt::Qoi => Box::new(Q(zune_qoi::QoiDecoder::new_with_options(src, o))),
        Fmt::Ppm => Box::new(N(zune_ppm::PPMDecoder::new_with_options(src, o))),
        Fmt::Farbfeld => Box::new(F(zune_farbfeld::FarbFeldDecoder::new_with_options(src, o))),
        Fmt::Hdr => Box::new(H(zune_hdr::HdrDecoder::new_with_options(src, o))),
        Fmt::Psd => Box::new(S(zune_psd::PSDDecoder::new_with_options(src, o)))
    }
}
pub fn options() -> DecoderOptions {
    DecoderOptions::default().set_byte_endian(if cfg!(target_endian = "little") { ByteEndian::LE } else { ByteEndian::BE })
}
/// What a decoder reports after decoding
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub dims: Option<(usize, usize)>,
    pub cs: Option<ColorSpace>,
    pub depth: Option<BitDepth>,
    pub size: Option<usize>,
    pub meta: String,
    pub bytes: Vec<u8>
}
pub fn seen(d: &dyn AnyDec, bytes: Vec<u8>) -> Seen {
    Seen { dims: d.dims(), cs: d.cs(), depth: d.depth(), size: d.size(), meta: d.meta(), bytes }
}
pub fn decode_from<'a, T: ZByteReaderTrait + 'a>(f: Fmt, src: T, o: DecoderOptions) -> Result<Seen, String> {
    let mut d = open(f, src, o);
    let b = d.decode()?;
    Ok(seen(&*d, b))
}
pub fn decode(f: Fmt, b: &[u8], o: DecoderOptions) -> Result<Seen, String> {
    decode_from(f, ZCursor::new(b), o)
}
pub fn differ(a: &Seen, b: &Seen) -> Option<String> {
    if a.dims != b.dims || a.cs != b.cs || a.depth != b.depth || a.size != b.size {
        return Some(format!("{:?} {:?} {:?} {:?} vs {:?} {:?} {:?} {:?}", a.dims, a.cs, a.depth, a.size, b.dims, b.cs, b.depth, b.size));
    }
    if a.meta != b.meta {
        return Some(format!("metadata {} vs {}", a.meta, b.meta));
    }
    if a.bytes != b.bytes {
        return Some(format!("pixel bytes: {}", crate::util::first_diff(&a.bytes, &b.bytes)));
    }
    None
}

pub struct Item {
    pub fmt: Fmt,
    pub name: String,
    pub bytes: Vec<u8>,
    pub w: usize,
    pub h: usize
}
/// Files of every format and mode with the given dimensions
pub fn corpus(w: usize, h: usize) -> Vec<Item> {
    let mut o: Vec<Item> = vec![];
    let mut add = |fmt, name: String, bytes: Vec<u8>| o.push(Item { fmt, name, bytes, w, h });
    for (i, (color, depth)) in png::KINDS.iter().enumerate() {
        for adam7 in [false, true] {
            let mut s = png::Spec::new(w, h, *color, *depth, adam7, (i + w) as u64);
            s.filters = vec![0, 1, 2, 3, 4];
            s.pack = if i % 2 == 0 { png::Pack::Fixed } else { png::Pack::Stored };
            if i % 3 == 0 {
                s.splits = vec![5, 0, 9];
            }
            add(Fmt::Png, format!("png colour {color} depth {depth} interlaced {adam7}"), s.file());
        }
    }
    for (color, depth, t) in [
        (0u8, 8u8, png::Trns::Gray(7)),
        (0, 2, png::Trns::Gray(1)),
        (2, 8, png::Trns::Rgb([1, 2, 3])),
        (2, 16, png::Trns::Rgb([1, 2, 3])),
        (3, 2, png::Trns::Pal(vec![0, 128]))
    ] {
        let mut s = png::Spec::new(w, h, color, depth, false, w as u64);
        s.trns = Some(t);
        s.filters = vec![4, 3];
        s.mid = vec![("gAMA", 45455u32.to_be_bytes().to_vec()), ("tEXt", b"Title\0words".to_vec()), ("tIME", vec![7, 230, 2, 3, 4, 5, 6]), ("eXIf", b"MM\0*\0\0\0\x08\0\0".to_vec())];
        let mut icc = b"profile\0\0".to_vec();
        icc.extend(crate::refs::deflate::zlib_stored(b"profile bytes"));
        s.pre = vec![("iCCP", icc)];
        s.post = vec![("zTXt", [&b"Key\0\0"[..], &crate::refs::deflate::zlib_stored(b"compressed text")].concat()), ("iTXt", b"Key\0\0\0en\0Key\0text".to_vec())];
        add(Fmt::Png, format!("png colour {color} depth {depth} transparency and chunks"), s.file());
    }
    let four = [(1, 1), (1, 1), (1, 1)];
    for (name, samp, kind) in [
        ("grey", &[(1, 1)][..], 1),
        ("4:4:4", &four[..], 1),
        ("4:2:2", &[(2, 1), (1, 1), (1, 1)][..], 3),
        ("4:4:0", &[(1, 2), (1, 1), (1, 1)][..], 1),
        ("4:2:0", &[(2, 2), (1, 1), (1, 1)][..], 5),
        ("4 components", &[(1, 1), (1, 1), (1, 1), (1, 1)][..], 1)
    ] {
        let n = samp.len();
        let mut j = jpeg::Jpeg::new(w, h, samp, kind, (w + h) as u32);
        j.clear_padding();
        add(Fmt::Jpeg, format!("jpeg {name} baseline"), j.file(&jpeg::Coding::baseline(n)));
        let mut c = jpeg::Coding::baseline(n);
        c.dri = 1;
        add(Fmt::Jpeg, format!("jpeg {name} restarts"), j.file(&c));
        let mut c = jpeg::Coding::baseline(n);
        c.sof = 0xC2;
        c.scans = jpeg::script(n, 1, false, &[5], 1, 0);
        add(Fmt::Jpeg, format!("jpeg {name} progressive"), j.file(&c));
        if n > 1 {
            let mut c = jpeg::Coding::baseline(n);
            c.scans = (0..n).map(|c| jpeg::Scan { comps: vec![c], ss: 0, se: 63, ah: 0, al: 0 }).collect();
            add(Fmt::Jpeg, format!("jpeg {name} separate scans"), j.file(&c));
        }
    }
    let mut j = jpeg::Jpeg::new(w, h, &four, 1, 9);
    let mut icc = b"ICC_PROFILE\0\x01\x01".to_vec();
    icc.extend(b"icc profile bytes");
    j.segs = vec![
        (0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0".to_vec()),
        (0xE1, b"Exif\0\0MM\0*\0\0\0\x08\0\0\0\0\0\0".to_vec()),
        (0xE1, b"http://ns.adobe.com/xap/1.0/\0<xmp/>".to_vec()),
        (0xE2, icc),
        (0xED, b"Photoshop 3.0\08BIM\x04\x04\0\0\0\0".to_vec()),
        (0xEE, b"Adobe\0\x64\0\0\0\0\x01".to_vec()),
        (0xFE, b"comment".to_vec())
    ];
    add(Fmt::Jpeg, "jpeg with every segment".into(), j.file(&jpeg::Coding::baseline(3)));
    for bpp in [1, 2, 4, 8, 16, 24, 32] {
        for ih in [40, 124] {
            if bpp != 2 {
                let mut b = bmp::Bmp::new(ih, w, h, bpp, (w + bpp) as u32);
                if ih == 124 {
                    b.topdown = true;
                }
                add(Fmt::Bmp, format!("bmp {bpp} bits header {ih}"), b.file());
            }
        }
    }
    {
        let mut b = bmp::Bmp::new(56, w, h, 16, 5);
        b.comp = bmp::Comp::Bitfields;
        b.masks = [0xF800, 0x07E0, 0x001F, 0];
        add(Fmt::Bmp, "bmp 16 bits bitfields".into(), b.file());
        let mut b = bmp::Bmp::new(40, w, h, 8, 6);
        b.comp = bmp::Comp::Rle8;
        for y in 0..h {
            if y % 2 == 0 {
                b.rle.extend([w as u8, (y * 3 + 1) as u8]);
            } else {
                for x in 0..w {
                    b.rle.extend([1, (x + y) as u8]);
                }
            }
            b.rle.extend(if y + 1 == h { [0, 1] } else { [0, 0] });
        }
        add(Fmt::Bmp, "bmp 8 bits run lengths".into(), b.file());
        let mut b = bmp::Bmp::new(40, w, h, 4, 6);
        b.comp = bmp::Comp::Rle4;
        for y in 0..h {
            b.rle.extend([w as u8, (y * 19 + 0x21) as u8]);
            b.rle.extend(if y + 1 == h { [0, 1] } else { [0, 0] });
        }
        add(Fmt::Bmp, "bmp 4 bits run lengths".into(), b.file());
    }
    for ch in [3u8, 4] {
        let mut f = qoi::header(w, h, ch, ch - 3);
        let p = pattern(w * h * 4, ch as u32);
        // every kind of operation in turn
        let mut left = w * h;
        let mut k = 0;
        while left > 0 {
            let b = &p[4 * (left - 1)..];
            match k % 6 {
                0 => f.extend([0xFE, b[0], b[1], b[2]]),
                1 => f.push(0x40 | (b[0] & 63)),
                2 => f.extend([0x80 | (b[0] & 63), b[1]]),
                3 if left >= 3 => {
                    f.push(0xC0 | 2);
                    left -= 2;
                }
                4 if ch == 4 => f.extend([0xFF, b[0], b[1], b[2], b[3]]),
                _ => f.push(b[0] & 63)
            }
            left -= 1;
            k += 1;
        }
        f.extend(qoi::END);
        add(Fmt::Qoi, format!("qoi {ch} channels"), f);
    }
    for k in ppm::KINDS {
        for m in [255u32, 65535] {
            let float = matches!(k, ppm::K::Pf | ppm::K::PF);
            let mut v = ppm::samples(k, w, h, m, 3);
            if float {
                // ordinary numbers, so that bytes can be compared
                v = v.iter().map(|x| ((x % 1000) as f32 / 1000.0).to_bits()).collect();
            }
            add(Fmt::Ppm, format!("ppm {k:?} {}", if float { if m == 255 { "little".into() } else { "big".into() } } else { m.to_string() }), ppm::file(k, w, h, m, m == 255, &v));
        }
    }
    add(Fmt::Farbfeld, "farbfeld".into(), farbfeld::file(w, h, &farbfeld::samples(w * h * 4, 3)));
    let mut f = hdr::head(w, h);
    let mut px = pattern(w * h * 4, 77);
    for p in px.chunks_exact_mut(4) {
        p[3] = 120 + p[3] % 16;
    }
    // a first pixel that is neither a run nor a new-style row
    for y in 0..h {
        px[y * w * 4] = 200;
        for x in 0..w {
            if px[(y * w + x) * 4..][..3] == [1, 1, 1] {
                px[(y * w + x) * 4] = 9;
            }
        }
    }
    f.extend(&px);
    add(Fmt::Hdr, "hdr flat".into(), f);
    if w >= 8 {
        let mut f = hdr::head(w, h);
        for y in 0..h {
            f.extend([2, 2, (w >> 8) as u8, w as u8]);
            for c in 0..4 {
                if (y + c) % 2 == 0 {
                    f.extend([128 + w as u8, px[y * w * 4 + c]]);
                } else {
                    f.push(w as u8);
                    f.extend((0..w).map(|x| px[(y * w + x) * 4 + c]));
                }
            }
        }
        add(Fmt::Hdr, "hdr run lengths".into(), f);
    }
    for (mode, chans) in [(1, 1), (1, 2), (3, 3), (3, 4), (4, 4)] {
        for depth in [8, 16] {
            for rle in [false, true] {
                if (mode == 4 && (depth == 16 || rle)) || (depth == 16 && rle) {
                    continue;
                }
                let mut p = psd::Psd::new(mode, depth, chans, w, h, rle);
                p.sections = [0, 6, 3];
                add(Fmt::Psd, format!("psd mode {mode} channels {chans} depth {depth} packed {rle}"), p.file());
            }
        }
    }
    o
}
