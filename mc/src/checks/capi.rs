//! C40 the C interface
use crate::cmem;
use crate::dec::*;
use crate::engine::*;
use crate::imgs::*;
use crate::Check;
use std::ffi::{c_char, c_void, CStr, CString};
use std::ptr::{null, null_mut};
use std::sync::OnceLock;
use zil_c as _;
use zune_core::bit_depth::{BitDepth, BitType};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::median::Median;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::transpose::Transpose;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C40",
        level: "model_checking",
        rule: "every corpus file of every format through every reading function of the C interface with output buffers of every size around the announced one; every truncation and a set of bytes at every position of the files; every sequence of image functions (create, load, read, clone, process, query, export, save, release) up to the depth bound against the same sequence on the Rust interface; every function that takes numbers with a grid of numbers inside and outside their ranges; every function with missing images and status objects; every sequence of status functions; a state is a file with its damage or a history; memory taken with malloc is fenced and accounted",
        assumptions: &["callers keep the documented contract: pointers are valid for the lengths given, nothing is used after its release, a status object is passed where the documentation says it cannot be null"],
        scenarios: |_| vec![
            Scenario { name: "files", f: |ch| fresh(files, ch) },
            Scenario { name: "buffers", f: |ch| fresh(buffers, ch) },
            Scenario { name: "from-pixels", f: |ch| fresh(from_pixels, ch) },
            Scenario { name: "missing", f: |ch| fresh(missing, ch) },
            Scenario { name: "status", f: |ch| fresh(status, ch) },
            Scenario { name: "arguments", f: |ch| fresh(arguments, ch) },
            Scenario { name: "images", f: |ch| fresh(images, ch) },
            Scenario { name: "damage", f: |ch| fresh(damage, ch) }
        ]
    }]
}

type St = *mut c_void;
type Im = *mut c_void;
#[repr(C)]
#[derive(Copy, Clone, Debug, PartialEq)]
struct Meta {
    w:  u32,
    h:  u32,
    d:  i32,
    cs: i32,
    f:  i32
}
extern "C" {
    fn zil_status_new() -> St;
    fn zil_status_ok(s: St) -> bool;
    fn zil_status_code(s: St) -> i32;
    fn zil_status_message(s: St) -> *const c_char;
    fn zil_status_free(s: St);
    fn zil_malloc(n: usize) -> *mut c_void;
    fn zil_free(p: *mut c_void);
    fn zil_free_and_null(p: *mut *mut c_void);
    fn zil_guess_format(b: *const u8, n: usize) -> i32;
    fn zil_imread(f: *const c_char, w: *mut usize, h: *mut usize, d: *mut i32, c: *mut usize, s: St) -> *mut u8;
    fn zil_imread_into(f: *const c_char, o: *mut u8, n: usize, w: *mut usize, h: *mut usize, d: *mut i32, c: *mut usize, s: St);
    fn zil_read_headers_from_file(f: *const c_char, s: St) -> Meta;
    fn zil_read_headers_from_memory(b: *const u8, n: usize, s: St) -> Meta;
    fn zil_imdecode(b: *const u8, bn: usize, w: *mut usize, h: *mut usize, d: *mut i32, c: *mut usize, s: St) -> *mut u8;
    fn zil_imdecode_into(b: *const u8, bn: usize, o: *mut u8, n: usize, w: *mut usize, h: *mut usize, d: *mut i32, c: *mut usize, s: St);
    fn zil_zimg_width(i: Im, s: St) -> usize;
    fn zil_zimg_height(i: Im, s: St) -> usize;
    fn zil_zimg_depth(i: Im, s: St) -> i32;
    fn zil_zimg_colorspace(i: Im, s: St) -> i32;
    fn zil_zimg_get_out_buffer_size(i: Im, s: St) -> usize;
    fn zil_zimg_write_to_output(i: Im, o: *mut u8, n: usize, s: St) -> usize;
    fn zil_zimg_new() -> Im;
    fn zil_zimg_free(i: Im);
    fn zil_zimg_open(f: *const c_char, i: Im, s: St);
    fn zil_zimg_read_from_memory(b: *const u8, n: usize, i: Im, s: St);
    fn zil_zimg_write_to_disk(f: *const c_char, i: Im, s: St);
    fn zil_zimg_write_to_disk_with_format(f: *const c_char, i: Im, fmt: i32, s: St);
    fn zil_zimg_clone(i: Im) -> Im;
    fn zil_zimg_from_u8(p: *const u8, n: usize, w: usize, h: usize, cs: i32) -> Im;
    fn zil_zimg_from_u16(p: *const u16, n: usize, w: usize, h: usize, cs: i32) -> Im;
    fn zil_zimg_from_f32(p: *const f32, n: usize, w: usize, h: usize, cs: i32) -> Im;
    fn zil_imgproc_adjust_contrast(i: Im, c: f32, s: St);
    fn zil_imgproc_auto_orient(i: Im, s: St);
    fn zil_imgproc_bilateral_filter(i: Im, d: i32, c: f32, sp: f32, s: St);
    fn zil_imgproc_blend(i: Im, j: Im, a: f32, s: St);
    fn zil_imgproc_exposure(i: Im, e: f32, b: f32, s: St);
    fn zil_imgproc_change_depth(i: Im, d: i32, s: St);
    fn zil_imgproc_convert_colorspace(i: Im, c: i32, s: St);
    fn zil_imgproc_crop(i: Im, w: usize, h: usize, x: usize, y: usize, s: St);
    fn zil_imgproc_flip_mirror_x_axis(i: Im, s: St);
    fn zil_imgproc_flip_horizontal(i: Im, s: St);
    fn zil_imgproc_gamma(i: Im, g: f32, s: St);
    fn zil_imgproc_invert(i: Im, s: St);
    fn zil_imgproc_brighten(i: Im, v: f32, s: St);
    fn zil_imgproc_gaussian_blur(i: Im, v: f32, s: St);
    fn zil_imgproc_stretch_contrast(i: Im, l: f32, h: f32, s: St);
    fn zil_imgproc_transpose(i: Im, s: St);
    fn zil_imgproc_sobel(i: Im, s: St);
    fn zil_imgproc_scharr(i: Im, s: St);
    fn zil_imgproc_median_blur(i: Im, r: usize, s: St);
}
/// one watched call
macro_rules! c {
    ($e:expr) => { cmem::watch(|| unsafe { $e }) };
}
const NULL_IMAGE: i32 = 7;

/// the numbers of the header file
const CSS: [ColorSpace; 13] = [
    ColorSpace::Unknown,
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::YCbCr,
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::YCCK,
    ColorSpace::CMYK,
    ColorSpace::BGR,
    ColorSpace::BGRA,
    ColorSpace::ARGB,
    ColorSpace::HSL,
    ColorSpace::HSV
];
fn cs_num(c: ColorSpace) -> i32 {
    CSS.iter().position(|x| *x == c).unwrap_or(0) as i32
}
fn depth_num(d: BitDepth) -> i32 {
    match d {
        BitDepth::Eight => 1,
        BitDepth::Sixteen => 2,
        BitDepth::Float32 => 4,
        _ => 0
    }
}
const FORMATS: [ImageFormat; 10] = [
    ImageFormat::Unknown,
    ImageFormat::JPEG,
    ImageFormat::PNG,
    ImageFormat::PPM,
    ImageFormat::PSD,
    ImageFormat::Farbfeld,
    ImageFormat::QOI,
    ImageFormat::JPEG_XL,
    ImageFormat::HDR,
    ImageFormat::BMP
];
fn format_num(f: ImageFormat) -> i32 {
    FORMATS.iter().position(|x| *x == f).unwrap_or(0) as i32
}

struct File {
    name:  String,
    bytes: Vec<u8>,
    fmt:   ImageFormat
}
fn all_files() -> &'static [File] {
    static C: OnceLock<Vec<File>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<File> = corpus(5, 4)
            .into_iter()
            .map(|i| File {
                fmt: match i.fmt {
                    Fmt::Png => ImageFormat::PNG,
                    Fmt::Jpeg => ImageFormat::JPEG,
                    Fmt::Bmp => ImageFormat::BMP,
                    Fmt::Qoi => ImageFormat::QOI,
                    Fmt::Ppm => ImageFormat::PPM,
                    Fmt::Farbfeld => ImageFormat::Farbfeld,
                    Fmt::Hdr => ImageFormat::HDR,
                    Fmt::Psd => ImageFormat::PSD
                },
                name: i.name,
                bytes: i.bytes
            })
            .collect();
        for cs in [ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA] {
            for bt in [BitType::U8, BitType::U16] {
                let m = M::unique(5, 4, cs, bt, 1);
                if let Ok(b) = m.image().write_to_vec(ImageFormat::JPEG_XL) {
                    v.push(File { fmt: ImageFormat::JPEG_XL, name: format!("jxl {cs:?} {bt:?}"), bytes: b });
                }
            }
        }
        v
    })
}
/// what the Rust interface gives for a file
#[derive(Clone, PartialEq)]
struct Pix {
    w: usize,
    h: usize,
    d: i32,
    n: usize,
    cs: i32,
    b: Vec<u8>
}
fn pix(im: &Image) -> Pix {
    let m = model_of(im);
    Pix { w: m.w, h: m.h, d: depth_num(im.depth()), n: im.colorspace().num_components(), cs: cs_num(im.colorspace()), b: m.bytes(0, cfg!(target_endian = "big")) }
}
fn rust_read(b: &[u8], o: DecoderOptions) -> Option<Pix> {
    guard(|| Image::read(ZCursor::new(b), o).ok().map(|i| pix(&i))).ok().flatten()
}

/// memory with a fence on both sides, offset from alignment by `skew`
struct Buf {
    v: Vec<u8>,
    at: usize,
    n: usize
}
impl Buf {
    fn new(n: usize, skew: usize) -> Buf {
        let v = vec![0xB1; n + 128];
        let at = 64 + (8 - (v.as_ptr() as usize + 64) % 8) % 8 + skew;
        Buf { v, at, n }
    }
    fn p(&mut self) -> *mut u8 {
        unsafe { self.v.as_mut_ptr().add(self.at) }
    }
    fn get(&self) -> &[u8] {
        &self.v[self.at..self.at + self.n]
    }
    fn fenced(&self) -> bool {
        self.v[..self.at].iter().chain(&self.v[self.at + self.n..]).all(|b| *b == 0xB1)
    }
}
fn memory(what: &str) -> Res {
    let (twice, over, live) = cmem::end();
    if twice {
        bad("free-twice", format!("{what}: memory released twice"))?;
    }
    if over {
        bad("overrun", format!("{what}: wrote behind a block of memory"))?;
    }
    if live > 0 {
        bad("leak", format!("{what}: {live} blocks not released"))?;
    }
    Ok(())
}
/// status object of one call: (ok, code)
fn read_status(s: St, what: &str) -> Result<(bool, i32), Bad> {
    let (ok, code, m) = (c!(zil_status_ok(s)), c!(zil_status_code(s)), c!(zil_status_message(s)));
    if ok != (code == 0) {
        bad("status", format!("{what}: status ok is {ok} with code {code}"))?;
    }
    if !(0..=8).contains(&code) {
        bad("status", format!("{what}: status code {code}"))?;
    }
    if m.is_null() {
        bad("status", format!("{what}: no message in the status"))?;
    }
    if unsafe { CStr::from_ptr(m) }.to_bytes().len() > 1 << 16 {
        bad("status", format!("{what}: unterminated message"))?;
    }
    Ok((ok, code))
}
/// forget what a case that ended early left behind
fn fresh(f: fn(&mut Ch) -> Res, ch: &mut Ch) -> Res {
    cmem::end();
    f(ch)
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(ext: &str) -> Scratch {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Scratch(std::env::temp_dir().join(format!("mc-capi-{}-{n}{ext}", std::process::id())))
    }
    fn c(&self) -> CString {
        CString::new(self.0.to_str().unwrap()).unwrap()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

#[derive(Default, Debug, PartialEq, Copy, Clone)]
struct Out {
    w: usize,
    h: usize,
    d: i32,
    n: usize
}
fn same_pix(what: &str, o: Out, got: &[u8], want: &Pix) -> Res {
    if (o.w, o.h, o.d, o.n) != (want.w, want.h, want.d, want.n) {
        bad("announced", format!("{what}: {o:?} instead of {}x{} depth {} with {} channels", want.w, want.h, want.d, want.n))?;
    }
    if got != want.b {
        bad("pixels", format!("{what}: {}", crate::util::first_diff(got, &want.b)))?;
    }
    Ok(())
}
/// `intact`: the file is one that must be read.  Otherwise an error is an answer too.
fn call_decode(what: &str, from_file: Option<&CStr>, b: &[u8], skip: usize, intact: bool, rust: Option<&Pix>) -> Res {
    let mut o = Out::default();
    let s = c!(zil_status_new());
    let w = if skip & 1 != 0 { null_mut() } else { &mut o.w as *mut usize };
    let h = if skip & 2 != 0 { null_mut() } else { &mut o.h as *mut usize };
    let d = if skip & 4 != 0 { null_mut() } else { &mut o.d as *mut i32 };
    let n = if skip & 8 != 0 { null_mut() } else { &mut o.n as *mut usize };
    let p = match from_file {
        Some(f) => c!(zil_imread(f.as_ptr(), w, h, d, n, s)),
        None => c!(zil_imdecode(b.as_ptr(), b.len(), w, h, d, n, s))
    };
    let (ok, code) = read_status(s, what)?;
    if ok == p.is_null() {
        bad("status", format!("{what}: status {code} but the pointer is {}", if p.is_null() { "null" } else { "not null" }))?;
    }
    if ok {
        match rust {
            None => bad("accepts", format!("{what}: succeeds where the Rust interface fails"))?,
            Some(want) => {
                let got = unsafe { std::slice::from_raw_parts(p, want.b.len()) }.to_vec();
                let full = Out { w: if skip & 1 != 0 { want.w } else { o.w }, h: if skip & 2 != 0 { want.h } else { o.h }, d: if skip & 4 != 0 { want.d } else { o.d }, n: if skip & 8 != 0 { want.n } else { o.n } };
                // the block must be as large as the pixels: reading behind it would show the fence
                same_pix(what, full, &got, want)?;
            }
        }
        let mut q = p as *mut c_void;
        c!(zil_free_and_null(&mut q));
        if !q.is_null() {
            bad("free", format!("{what}: the pointer is kept after zil_free_and_null"))?;
        }
    } else if intact {
        let m = unsafe { CStr::from_ptr(zil_status_message(s)) }.to_string_lossy().to_string();
        bad("rejects", format!("{what}: fails with {code} {m}"))?;
    }
    c!(zil_status_free(s));
    memory(what)
}
/// the headers as the Rust interface reads them
fn rust_headers(b: &[u8]) -> Option<Meta> {
    guard(|| zune_image::utils::decode_info(ZCursor::new(b))).ok().flatten().map(|m| {
        let (w, h) = m.dimensions();
        Meta { w: w as u32, h: h as u32, d: depth_num(m.depth()), cs: cs_num(m.colorspace()), f: m.image_format().map_or(0, format_num) }
    })
}
fn same_meta(what: &str, m: Meta, ok: bool, b: &[u8], fmt: ImageFormat) -> Res {
    let Some(w) = rust_headers(b) else {
        return bad("headers", format!("{what}: the Rust interface reads no headers"));
    };
    if w.f != format_num(fmt) {
        bad("format", format!("{what}: {} instead of {fmt:?}", w.f))?;
    }
    if !ok || m != w {
        bad("headers", format!("{what}: {m:?} (ok {ok}) instead of {w:?}"))?;
    }
    Ok(())
}

fn files(ch: &mut Ch) -> Res {
    let fs = all_files();
    let f = ch.pick_ref(fs);
    let api = ch.choose(8);
    let what = format!("{} ({})", f.name, ["imdecode", "imread", "headers from memory", "headers from file", "format", "read_from_memory", "open", "without parameters"][api]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let o = if api == 5 { DecoderOptions::new_fast() } else { DecoderOptions::default() };
    let Some(want) = rust_read(&f.bytes, o) else {
        ch.trivial();
        return Ok(());
    };
    ch.obs_bytes(&want.b);
    let path = Scratch::new("");
    if matches!(api, 1 | 3 | 6) {
        std::fs::write(&path.0, &f.bytes).unwrap();
    }
    match api {
        0 => call_decode(&what, None, &f.bytes, 0, true, Some(&want)),
        1 => call_decode(&what, Some(&path.c()), &f.bytes, 0, true, Some(&want)),
        2 | 3 => {
            let s = c!(zil_status_new());
            let m = if api == 2 { c!(zil_read_headers_from_memory(f.bytes.as_ptr(), f.bytes.len(), s)) } else { c!(zil_read_headers_from_file(path.c().as_ptr(), s)) };
            let (ok, _) = read_status(s, &what)?;
            same_meta(&what, m, ok, &f.bytes, f.fmt)?;
            c!(zil_status_free(s));
            memory(&what)
        }
        4 => {
            let g = c!(zil_guess_format(f.bytes.as_ptr(), f.bytes.len()));
            if g != format_num(f.fmt) {
                bad("format", format!("{what}: {g} instead of {:?}", f.fmt))?;
            }
            Ok(())
        }
        5 | 6 => {
            let s = c!(zil_status_new());
            let i = c!(zil_zimg_new());
            if api == 5 { c!(zil_zimg_read_from_memory(f.bytes.as_ptr(), f.bytes.len(), i, s)) } else { c!(zil_zimg_open(path.c().as_ptr(), i, s)) };
            let (ok, code) = read_status(s, &what)?;
            if !ok {
                bad("rejects", format!("{what}: fails with {code}"))?;
            }
            same_handle(&what, i, &want)?;
            c!(zil_zimg_free(i));
            c!(zil_status_free(s));
            memory(&what)
        }
        _ => {
            let skip = 1 + ch.choose(15);
            call_decode(&what, None, &f.bytes, skip, true, Some(&want))
        }
    }
}

/// everything that can be asked about a handle
fn same_handle(what: &str, i: Im, want: &Pix) -> Res {
    let s = c!(zil_status_new());
    let got = (c!(zil_zimg_width(i, s)), c!(zil_zimg_height(i, s)), c!(zil_zimg_depth(i, s)), c!(zil_zimg_colorspace(i, s)), c!(zil_zimg_get_out_buffer_size(i, s)));
    let w = (want.w, want.h, want.d, want.cs, want.w * want.h * want.n * want.d as usize);
    if got != w {
        bad("handle", format!("{what}: (width, height, depth, colour space, size) = {got:?} instead of {w:?}"))?;
    }
    if !c!(zil_status_ok(s)) {
        bad("status", format!("{what}: asking sets an error"))?;
    }
    if want.d != 0 && want.n > 0 {
        let mut b = Buf::new(want.b.len(), 0);
        let n = c!(zil_zimg_write_to_output(i, b.p(), want.b.len(), s));
        let (ok, _) = read_status(s, what)?;
        if !ok || n != want.b.len() || !b.fenced() {
            bad("export", format!("{what}: wrote {n} of {} bytes (ok {ok}, in bounds {})", want.b.len(), b.fenced()))?;
        }
        if b.get() != want.b {
            bad("pixels", format!("{what}: {}", crate::util::first_diff(b.get(), &want.b)))?;
        }
    }
    c!(zil_status_free(s));
    Ok(())
}

/// decoding and exporting into buffers of other sizes
fn buffers(ch: &mut Ch) -> Res {
    let f = ch.pick_ref(all_files());
    let api = ch.choose(3);
    let Some(want) = rust_read(&f.bytes, DecoderOptions::default()) else {
        ch.trivial();
        return Ok(());
    };
    let need = want.b.len();
    let mut sizes: Vec<usize> = vec![0, 1, need - 1, need, need + 1, need + 2, need + 4, need * 2, need + 64, need.saturating_sub(want.d as usize), need.saturating_sub(2 * want.d as usize), need / 2];
    if ch.thorough() {
        sizes.extend(2..need - 1);
        sizes.extend(need + 5..need + 32);
    }
    let n = *ch.pick_ref(&sizes);
    let skew = ch.choose(if ch.thorough() { 8 } else { 4 });
    let what = format!("{} into {n} of {need} bytes, {skew} off alignment ({})", f.name, ["imdecode_into", "imread_into", "write_to_output"][api]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let mut b = Buf::new(n, skew);
    let s = c!(zil_status_new());
    let mut o = Out::default();
    // samples of two and four bytes may ask for buffers which fit them
    let unit = want.d as usize;
    let must = n >= need && skew % unit == 0 && n % unit == 0;
    if api == 2 {
        let im = Image::read(ZCursor::new(&f.bytes[..]), DecoderOptions::default()).unwrap();
        let i = c!(zil_zimg_new());
        unsafe { *(i as *mut Image) = im };
        let k = c!(zil_zimg_write_to_output(i, b.p(), n, s));
        let (ok, code) = read_status(s, &what)?;
        ch.obs(code as u64);
        if !b.fenced() {
            bad("out-of-bounds", format!("{what}: wrote outside the buffer"))?;
        }
        if must && (!ok || k != need || b.get()[..need] != want.b[..]) {
            bad("export", format!("{what}: {k} bytes, status {code}, {}", crate::util::first_diff(&b.get()[..need], &want.b)))?;
        }
        if k > n {
            bad("export", format!("{what}: claims {k} bytes"))?;
        }
        c!(zil_zimg_free(i));
    } else {
        if api == 0 {
            c!(zil_imdecode_into(f.bytes.as_ptr(), f.bytes.len(), b.p(), n, &mut o.w, &mut o.h, &mut o.d, &mut o.n, s));
        } else {
            let path = Scratch::new("");
            std::fs::write(&path.0, &f.bytes).unwrap();
            c!(zil_imread_into(path.c().as_ptr(), b.p(), n, &mut o.w, &mut o.h, &mut o.d, &mut o.n, s));
        }
        let (ok, code) = read_status(s, &what)?;
        ch.obs(code as u64);
        if !b.fenced() {
            bad("out-of-bounds", format!("{what}: wrote outside the buffer"))?;
        }
        if n < need {
            if code != 1 {
                bad("too-small", format!("{what}: status {code} instead of 1 (not enough space)"))?;
            }
        } else if must && !ok {
            bad("rejects", format!("{what}: status {code}"))?;
        } else if ok {
            same_pix(&what, o, &b.get()[..need], &want)?;
        }
    }
    c!(zil_status_free(s));
    memory(&what)
}

fn from_pixels(ch: &mut Ch) -> Res {
    let bt = ch.pick(&DEPTHS);
    let cs = ch.choose(CSS.len());
    let (w, h) = ch.pick(&[(3usize, 2usize), (1, 1), (0, 0), (0, 4), (5, 1), (usize::MAX, 2), (1 << 40, 1 << 40)]);
    let delta = ch.pick(&[0isize, -1, 1, 7, 100]);
    let cl = CSS[cs];
    let need = w.checked_mul(h).and_then(|x| x.checked_mul(cl.num_components()));
    let len = (need.filter(|n| *n < 1000).unwrap_or(24) as isize + delta).max(0) as usize;
    let what = format!("{len} {bt:?} samples as {w}x{h} {cl:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let m = M::new(len, 1, ColorSpace::Luma, bt, 1, |_, _, i| distinct(bt, i));
    let px: Vec<u32> = m.inter(0);
    let i = match bt {
        BitType::U8 => {
            let v: Vec<u8> = px.iter().map(|x| *x as u8).collect();
            c!(zil_zimg_from_u8(v.as_ptr(), len, w, h, cs as i32))
        }
        BitType::U16 => {
            let v: Vec<u16> = px.iter().map(|x| *x as u16).collect();
            c!(zil_zimg_from_u16(v.as_ptr(), len, w, h, cs as i32))
        }
        _ => {
            let v: Vec<f32> = px.iter().map(|x| f32::from_bits(*x)).collect();
            c!(zil_zimg_from_f32(v.as_ptr(), len, w, h, cs as i32))
        }
    };
    let enough = need.map_or(false, |n| n <= len);
    ch.obs(i.is_null() as u64);
    if i.is_null() {
        if enough && w * h > 0 && cs != 0 {
            bad("from-pixels", format!("{what}: no image although there are enough samples"))?;
        }
    } else {
        if !enough {
            bad("from-pixels", format!("{what}: an image although there are too few samples"))?;
        }
        if w * h > 0 && cs != 0 {
            let n = need.unwrap();
            let full = M::new(n, 1, ColorSpace::Luma, bt, 1, |_, _, i| distinct(bt, i));
            let d = [1, 2, 4][DEPTHS.iter().position(|x| *x == bt).unwrap()];
            same_handle(&what, i, &Pix { w, h, d, n: cl.num_components(), cs: cs as i32, b: full.bytes(0, cfg!(target_endian = "big")) })?;
        }
        c!(zil_zimg_free(i));
    }
    memory(&what)
}

type Proc = (&'static str, fn(Im, Im, St), fn(Option<&Image>) -> Option<Box<dyn OperationsTrait + '_>>);
macro_rules! procs {
    ($($n:literal: $c:expr => $r:expr),* $(,)?) => {
        &[$(($n, |i, _, s| unsafe { ($c)(i, s) }, |_| Some(Box::new($r)))),*]
    };
}
const PROCS: &[Proc] = procs! {
    "contrast": |i, s| zil_imgproc_adjust_contrast(i, 30.0, s) => Contrast::new(30.0),
    "crop": |i, s| zil_imgproc_crop(i, 2, 1, 1, 0, s) => Crop::new(2, 1, 1, 0),
    "transpose": |i, s| zil_imgproc_transpose(i, s) => Transpose::new(),
    "to f32": |i, s| zil_imgproc_change_depth(i, 4, s) => Depth::new(BitDepth::Float32),
    "to luma": |i, s| zil_imgproc_convert_colorspace(i, 4, s) => ColorspaceConv::new(ColorSpace::Luma),
    "flip horizontal": |i, s| zil_imgproc_flip_horizontal(i, s) => Flip::new(FlipDirection::Horizontal),
    "to u16": |i, s| zil_imgproc_change_depth(i, 2, s) => Depth::new(BitDepth::Sixteen),
    "gamma": |i, s| zil_imgproc_gamma(i, 2.0, s) => Gamma::new(2.0),
    "to rgba": |i, s| zil_imgproc_convert_colorspace(i, 2, s) => ColorspaceConv::new(ColorSpace::RGBA),
    "crop too large": |i, s| zil_imgproc_crop(i, 200, 1, 1, 0, s) => Crop::new(200, 1, 1, 0),
    "exposure": |i, s| zil_imgproc_exposure(i, 1.5, 0.1, s) => Exposure::new(1.5, 0.1),
    "mirror x axis": |i, s| zil_imgproc_flip_mirror_x_axis(i, s) => Flip::new(FlipDirection::MirrorXAxis),
    "invert": |i, s| zil_imgproc_invert(i, s) => Invert,
    "brighten": |i, s| zil_imgproc_brighten(i, 0.2, s) => Brighten::new(0.2),
    "gaussian blur": |i, s| zil_imgproc_gaussian_blur(i, 1.5, s) => GaussianBlur::new(1.5),
    "stretch contrast": |i, s| zil_imgproc_stretch_contrast(i, 20.0, 180.0, s) => StretchContrast::new(20.0, 180.0),
    "stretch contrast below": |i, s| zil_imgproc_stretch_contrast(i, -0.5, 0.75, s) => StretchContrast::new(-0.5, 0.75),
    "contrast less": |i, s| zil_imgproc_adjust_contrast(i, -30.0, s) => Contrast::new(-30.0),
    "brighten less": |i, s| zil_imgproc_brighten(i, -0.2, s) => Brighten::new(-0.2),
    "exposure less": |i, s| zil_imgproc_exposure(i, 0.5, -0.1, s) => Exposure::new(0.5, -0.1),
    "gamma less": |i, s| zil_imgproc_gamma(i, 0.4, s) => Gamma::new(0.4),
    "median wider": |i, s| zil_imgproc_median_blur(i, 3, s) => Median::new(3),
    "bilateral automatic": |i, s| zil_imgproc_bilateral_filter(i, -1, 10.0, 2.0, s) => BilateralFilter::new(-1, 10.0, 2.0),
    "crop at the end": |i, s| zil_imgproc_crop(i, 1, 1, 2, 2, s) => Crop::new(1, 1, 2, 2),
    "sobel": |i, s| zil_imgproc_sobel(i, s) => Sobel::new(),
    "scharr": |i, s| zil_imgproc_scharr(i, s) => Scharr::new(),
    "median": |i, s| zil_imgproc_median_blur(i, 1, s) => Median::new(1),
    "bilateral": |i, s| zil_imgproc_bilateral_filter(i, 3, 25.0, 30.0, s) => BilateralFilter::new(3, 25.0, 30.0),
    "auto orient": |i, s| zil_imgproc_auto_orient(i, s) => AutoOrient,
    "to u8": |i, s| zil_imgproc_change_depth(i, 1, s) => Depth::new(BitDepth::Eight),
    "to hsv": |i, s| zil_imgproc_convert_colorspace(i, 12, s) => ColorspaceConv::new(ColorSpace::HSV),
    "to cmyk": |i, s| zil_imgproc_convert_colorspace(i, 7, s) => ColorspaceConv::new(ColorSpace::CMYK),
    "to unknown depth": |i, s| zil_imgproc_change_depth(i, 0, s) => Depth::new(BitDepth::Unknown),
    "to unknown space": |i, s| zil_imgproc_convert_colorspace(i, 0, s) => ColorspaceConv::new(ColorSpace::Unknown),
};
/// operations the long histories use
const FEW: usize = 10;

/// every function given no image and/or no status
fn missing(ch: &mut Ch) -> Res {
    let k = ch.choose(15 + PROCS.len());
    let has_status = ch.flag();
    let s = if has_status { c!(zil_status_new()) } else { null_mut() };
    let mut b = [0u8; 8];
    let f = CString::new("/nonexistent/file.png").unwrap();
    let mut what = format!("function {k} without an image, status {has_status}");
    ch.state((k * 2 + has_status as usize) as u64);
    // the code expected when there is a status object
    let want = match k {
        0 => (c!(zil_zimg_width(null_mut(), s)) != 0, NULL_IMAGE),
        1 => (c!(zil_zimg_height(null_mut(), s)) != 0, NULL_IMAGE),
        2 => (c!(zil_zimg_depth(null_mut(), s)) != 0, NULL_IMAGE),
        3 => (c!(zil_zimg_colorspace(null_mut(), s)) != 0, NULL_IMAGE),
        4 => (c!(zil_zimg_get_out_buffer_size(null_mut(), s)) != 0, NULL_IMAGE),
        5 => (c!(zil_zimg_write_to_output(null_mut(), b.as_mut_ptr(), 8, s)) != 0, NULL_IMAGE),
        6 => (c!(zil_zimg_open(f.as_ptr(), null_mut(), s)) != (), NULL_IMAGE),
        7 => (c!(zil_zimg_read_from_memory(b.as_ptr(), 8, null_mut(), s)) != (), NULL_IMAGE),
        8 => (c!(zil_zimg_write_to_disk(f.as_ptr(), null_mut(), s)) != (), NULL_IMAGE),
        9 => (c!(zil_zimg_write_to_disk_with_format(f.as_ptr(), null_mut(), 2, s)) != (), NULL_IMAGE),
        10 => (!c!(zil_zimg_clone(null_mut())).is_null(), 0),
        11 => {
            c!(zil_zimg_free(null_mut()));
            c!(zil_status_free(null_mut()));
            (c!(zil_status_ok(null_mut())) || c!(zil_status_code(null_mut())) != 6 || !c!(zil_status_message(null_mut())).is_null(), 0)
        }
        12 => (c!(zil_imgproc_blend(null_mut(), null_mut(), 0.5, s)) != (), NULL_IMAGE),
        13 => {
            let i = c!(zil_zimg_from_u8(b.as_ptr(), 8, 2, 2, 4));
            c!(zil_imgproc_blend(i, null_mut(), 0.5, s));
            c!(zil_imgproc_blend(null_mut(), i, 0.5, s));
            c!(zil_zimg_free(i));
            (false, NULL_IMAGE)
        }
        14 => {
            // reading what is not there
            if has_status {
                let i = c!(zil_zimg_new());
                let p = c!(zil_imread(f.as_ptr(), null_mut(), null_mut(), null_mut(), null_mut(), s));
                let mut codes = vec![read_status(s, &what)?.1];
                c!(zil_imread_into(f.as_ptr(), b.as_mut_ptr(), 8, null_mut(), null_mut(), null_mut(), null_mut(), s));
                codes.push(read_status(s, &what)?.1);
                let m = c!(zil_read_headers_from_file(f.as_ptr(), s));
                codes.push(read_status(s, &what)?.1);
                c!(zil_zimg_open(f.as_ptr(), i, s));
                codes.push(read_status(s, &what)?.1);
                c!(zil_zimg_free(i));
                if codes.contains(&0) || !p.is_null() || m != (Meta { w: 0, h: 0, d: 0, cs: 0, f: 0 }) {
                    bad("status", format!("files that do not exist: codes {codes:?}, {m:?}"))?;
                }
                c!(zil_status_free(s));
                return memory(&what);
            }
            (c!(zil_imread_into(f.as_ptr(), b.as_mut_ptr(), 8, null_mut(), null_mut(), null_mut(), null_mut(), s)) != (), 0)
        }
        k => {
            what = format!("{} without an image, status {has_status}", PROCS[k - 15].0);
            c!(PROCS[k - 15].1(null_mut(), null_mut(), s));
            (false, NULL_IMAGE)
        }
    };
    ch.note(|| what.clone());
    if want.0 {
        bad("null", format!("{what}: an answer that is not empty"))?;
    }
    if has_status {
        let (_, code) = read_status(s, &what)?;
        if code != want.1 {
            bad("null", format!("{what}: status {code} instead of {}", want.1))?;
        }
        c!(zil_status_free(s));
    }
    memory(&what)
}

/// one status object through several calls
fn status(ch: &mut Ch) -> Res {
    let png = &all_files().iter().find(|f| f.fmt == ImageFormat::PNG).unwrap().bytes;
    let qoi = &all_files().iter().find(|f| f.fmt == ImageFormat::QOI).unwrap().bytes;
    let s = c!(zil_status_new());
    let mut what = String::from("status");
    if !read_status(s, &what)?.0 {
        bad("status", "a new status is not ok")?;
    }
    let n = 1 + ch.choose(if ch.thorough() { 4 } else { 3 });
    for _ in 0..n {
        // reading functions set the status to what happened
        let k = ch.choose(7);
        what += ["; imdecode", "; imdecode qoi", "; imdecode damaged", "; headers", "; headers damaged", "; small buffer", "; null image"][k];
        let bytes: &[u8] = match k {
            1 => qoi,
            2 | 4 => &png[..20],
            _ => png
        };
        let expect = match k {
            0 | 1 | 3 => Some(0),
            5 => Some(1),
            6 => Some(NULL_IMAGE),
            _ => None
        };
        match k {
            0 | 1 | 2 => {
                let p = c!(zil_imdecode(bytes.as_ptr(), bytes.len(), null_mut(), null_mut(), null_mut(), null_mut(), s));
                if !p.is_null() {
                    c!(zil_free(p as *mut c_void));
                }
            }
            3 | 4 => {
                c!(zil_read_headers_from_memory(bytes.as_ptr(), bytes.len(), s));
            }
            5 => {
                let mut b = [0u8; 4];
                c!(zil_imdecode_into(bytes.as_ptr(), bytes.len(), b.as_mut_ptr(), 4, null_mut(), null_mut(), null_mut(), null_mut(), s));
            }
            _ => {
                c!(zil_imgproc_invert(null_mut(), s));
            }
        }
        let (_, code) = read_status(s, &what)?;
        ch.obs(code as u64);
        if expect.map_or(code == 0, |e| e != code) {
            bad("status", format!("{what}: code {code}"))?;
        }
    }
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    c!(zil_status_free(s));
    memory(&what)
}

/// every function that takes numbers, with numbers inside and outside their ranges, against the Rust interface
fn arguments(ch: &mut Ch) -> Res {
    const F: [f32; 18] = [0.0, 0.2, 0.5, 0.999, 1.0, 1.5, 2.0, 20.0, 100.0, 180.0, 255.0, 300.0, 70000.0, -0.5, -1.0, -30.0, -300.0, f32::NAN];
    const N: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 100];
    let (cs, bt) = ch.pick(&[(ColorSpace::RGB, BitType::U8), (ColorSpace::RGBA, BitType::U8), (ColorSpace::LumaA, BitType::U16), (ColorSpace::RGB, BitType::F32)]);
    let m = M::unique(5, 4, cs, bt, 1);
    let other = M::new(5, 4, cs, bt, 1, |_, c, i| crate::imgs::distinct(bt, 90 - (c * 20 + i)));
    let k = ch.choose(10);
    let (mut a, mut b, mut n, mut q) = (0.0f32, 0.0f32, [0usize; 2], [0usize; 2]);
    match k {
        0 | 4..=6 => a = ch.pick(&F),
        1 | 2 => {
            a = ch.pick(&F);
            b = ch.pick(&F);
        }
        3 | 9 => {
            n[0] = ch.pick(&N[..if k == 3 { 4 } else { 6 }]);
            if k == 9 {
                a = ch.pick(&[0.5, 2.0, 20.0, 90.0]);
                b = ch.pick(&[0.5, 2.0, 20.0, 90.0]);
            }
        }
        7 => {
            n = [ch.pick(&N), ch.pick(&N)];
            q = [ch.pick(&N), ch.pick(&N)];
        }
        _ => n = [ch.choose(19), ch.choose(7)]
    }
    let name = ["contrast", "exposure", "stretch contrast", "median", "gamma", "brighten", "blend", "crop", "conversion", "bilateral"][k];
    let what = format!("{} {name} {a} {b} {n:?} {q:?}", m.short());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let (mut im, second) = (m.image(), other.image());
    let d = n[0] as i32 - 1;
    // the numbers of the header file, others stand for unknown
    let (to_cs, to_depth) = (CSS.get(n[0]).copied(), [BitDepth::Unknown, BitDepth::Eight, BitDepth::Sixteen, BitDepth::Unknown, BitDepth::Float32].get(n[1]).copied());
    if k == 8 && (to_cs.is_none() || n[1] == 3 || to_depth.is_none()) {
        ch.discard();
        return Ok(());
    }
    let r = guard(|| match k {
        0 => Contrast::new(a).execute(&mut im),
        1 => Exposure::new(a, b).execute(&mut im),
        2 => StretchContrast::new(a, b).execute(&mut im),
        3 => Median::new(n[0]).execute(&mut im),
        4 => Gamma::new(a).execute(&mut im),
        5 => Brighten::new(a).execute(&mut im),
        6 => Blend::new(&second, a).execute(&mut im),
        7 => Crop::new(n[0], n[1], q[0], q[1]).execute(&mut im),
        8 => match ColorspaceConv::new(to_cs.unwrap()).execute(&mut im) {
            Ok(()) => Depth::new(to_depth.unwrap()).execute(&mut im),
            e => e
        },
        _ => BilateralFilter::new(d, a, b).execute(&mut im)
    });
    let Ok(r) = r else {
        // (would end the process)
        ch.trivial();
        return Ok(());
    };
    ch.obs(r.is_ok() as u64);
    let make = |m: &M| {
        let (i, v, n) = (c!(zil_zimg_new()), m.inter(0), cs_num(m.cs));
        c!(zil_zimg_free(i));
        match m.bt {
            BitType::U8 => {
                let v: Vec<u8> = v.iter().map(|x| *x as u8).collect();
                c!(zil_zimg_from_u8(v.as_ptr(), v.len(), m.w, m.h, n))
            }
            BitType::U16 => {
                let v: Vec<u16> = v.iter().map(|x| *x as u16).collect();
                c!(zil_zimg_from_u16(v.as_ptr(), v.len(), m.w, m.h, n))
            }
            _ => {
                let v: Vec<f32> = v.iter().map(|x| f32::from_bits(*x)).collect();
                c!(zil_zimg_from_f32(v.as_ptr(), v.len(), m.w, m.h, n))
            }
        }
    };
    let (i, j) = (make(&m), make(&other));
    let s = c!(zil_status_new());
    // (threads take and release memory of their own)
    unsafe {
        match k {
            0 => zil_imgproc_adjust_contrast(i, a, s),
            1 => zil_imgproc_exposure(i, a, b, s),
            2 => zil_imgproc_stretch_contrast(i, a, b, s),
            3 => zil_imgproc_median_blur(i, n[0], s),
            4 => zil_imgproc_gamma(i, a, s),
            5 => zil_imgproc_brighten(i, a, s),
            6 => zil_imgproc_blend(i, j, a, s),
            7 => zil_imgproc_crop(i, n[0], n[1], q[0], q[1], s),
            8 => {
                zil_imgproc_convert_colorspace(i, n[0] as i32, s);
                if zil_status_ok(s) {
                    zil_imgproc_change_depth(i, n[1] as i32, s)
                }
            }
            _ => zil_imgproc_bilateral_filter(i, d, a, b, s)
        }
    }
    let (ok, code) = read_status(s, &what)?;
    if ok != r.is_ok() {
        bad("outcome", format!("{what}: status {code}, the Rust interface {}", if ok { "fails" } else { "succeeds" }))?;
    }
    c!(zil_status_free(s));
    if ok && im.colorspace() != ColorSpace::Unknown && im.depth() != BitDepth::Unknown {
        same_handle(&what, i, &pix(&im))?;
    }
    same_handle(&format!("{what} (second image)"), j, &pix(&second))?;
    c!(zil_zimg_free(i));
    c!(zil_zimg_free(j));
    memory(&what)
}

/// histories on two handles against the Rust interface
fn images(ch: &mut Ch) -> Res {
    let start: [Option<M>; 5] = [
        Some(M::unique(3, 2, ColorSpace::RGB, BitType::U8, 1)),
        Some(M::unique(3, 2, ColorSpace::LumaA, BitType::U16, 1)),
        Some(M::unique(3, 2, ColorSpace::RGBA, BitType::F32, 1)),
        Some(M::unique(3, 2, ColorSpace::Luma, BitType::U8, 1)),
        None
    ];
    static FILES: OnceLock<Vec<usize>> = OnceLock::new();
    let loads = FILES.get_or_init(|| {
        // one animated or plain file of some formats
        [ImageFormat::PNG, ImageFormat::QOI, ImageFormat::HDR].iter().map(|f| all_files().iter().position(|x| x.fmt == *f).unwrap()).collect()
    });
    let mut what = String::new();
    let mut sh: [Option<Image>; 2] = [None, None];
    let mut c: [Im; 2] = [null_mut(); 2];
    let k = ch.choose(start.len());
    match &start[k] {
        Some(m) => {
            what += &m.short();
            sh[0] = Some(m.image());
            let v = m.inter(0);
            let cs = cs_num(m.cs);
            c[0] = match m.bt {
                BitType::U8 => {
                    let v: Vec<u8> = v.iter().map(|x| *x as u8).collect();
                    c!(zil_zimg_from_u8(v.as_ptr(), v.len(), m.w, m.h, cs))
                }
                BitType::U16 => {
                    let v: Vec<u16> = v.iter().map(|x| *x as u16).collect();
                    c!(zil_zimg_from_u16(v.as_ptr(), v.len(), m.w, m.h, cs))
                }
                _ => {
                    let v: Vec<f32> = v.iter().map(|x| f32::from_bits(*x)).collect();
                    c!(zil_zimg_from_f32(v.as_ptr(), v.len(), m.w, m.h, cs))
                }
            };
        }
        None => {
            what += "new";
            sh[0] = Some(Image::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown));
            c[0] = c!(zil_zimg_new());
        }
    }
    if c[0].is_null() {
        bad("from-pixels", format!("{what}: no image"))?;
    }
    let depth = if ch.thorough() { 3 } else { 2 };
    for step in 0..depth {
        // the longer histories choose from fewer operations
        let procs = if step == 0 || !ch.thorough() { PROCS.len() } else { FEW };
        let s = c!(zil_status_new());
        let k = ch.choose(9 + procs);
        // Some(true): must be ok, Some(false): must fail
        let mut expect = None;
        match k {
            0..=2 => {
                let f = &all_files()[loads[k]];
                what += &format!("; read {}", f.name);
                match Image::read(ZCursor::new(&f.bytes[..]), DecoderOptions::new_fast()) {
                    Ok(i) => {
                        sh[0] = Some(i);
                        expect = Some(true);
                    }
                    Err(_) => expect = Some(false)
                }
                c!(zil_zimg_read_from_memory(f.bytes.as_ptr(), f.bytes.len(), c[0], s));
            }
            3 => {
                what += "; read garbage";
                c!(zil_zimg_read_from_memory([1u8, 2, 3, 4, 5].as_ptr(), 5, c[0], s));
                expect = Some(false);
            }
            4 => {
                what += "; clone";
                if !c[1].is_null() {
                    c!(zil_zimg_free(c[1]));
                }
                c[1] = c!(zil_zimg_clone(c[0]));
                sh[1] = sh[0].clone();
                if c[1].is_null() {
                    bad("clone", format!("{what}: null"))?;
                }
            }
            5 => {
                what += "; swap";
                c.swap(0, 1);
                sh.swap(0, 1);
            }
            6 => {
                what += "; blend";
                if !c[0].is_null() && !c[1].is_null() {
                    unsafe { zil_imgproc_blend(c[0], c[1], 0.25, s) };
                    let (a, b) = sh.split_at_mut(1);
                    expect = Some(Blend::new(b[0].as_ref().unwrap(), 0.25).execute(a[0].as_mut().unwrap()).is_ok());
                }
            }
            7 | 8 => {
                let (ext, fmt) = [(".png", 2), ("", 6)][k - 7];
                what += &format!("; save {ext}");
                if let Some(im) = &sh[0] {
                    let (a, b) = (Scratch::new(ext), Scratch::new(ext));
                    let r = if k == 7 {
                        c!(zil_zimg_write_to_disk(a.c().as_ptr(), c[0], s));
                        im.save(&b.0)
                    } else {
                        c!(zil_zimg_write_to_disk_with_format(a.c().as_ptr(), c[0], fmt, s));
                        im.save_to(&b.0, FORMATS[fmt as usize])
                    };
                    expect = Some(r.is_ok());
                    if r.is_ok() && std::fs::read(&a.0).ok() != std::fs::read(&b.0).ok() {
                        bad("saved", format!("{what}: the file differs from the one of the Rust interface"))?;
                    }
                }
            }
            k => {
                let p = &PROCS[k - 9];
                what += &format!("; {}", p.0);
                if let Some(im) = &mut sh[0] {
                    // (threads take and release memory of their own)
                    p.1(c[0], null_mut(), s);
                    let r = guard(|| p.2(None).unwrap().execute(im).is_ok());
                    expect = r.ok();
                }
            }
        }
        let (ok, code) = read_status(s, &what)?;
        ch.obs(code as u64);
        if !c[0].is_null() && expect.map_or(false, |e| e != ok) {
            bad("outcome", format!("{what}: status {code}, the Rust interface {}", if ok { "fails" } else { "succeeds" }))?;
        }
        c!(zil_status_free(s));
        for (i, im) in c.iter().zip(&sh) {
            if let Some(im) = im {
                if im.colorspace() != ColorSpace::Unknown && im.depth() != BitDepth::Unknown {
                    same_handle(&what, *i, &pix(im))?;
                } else {
                    let s = c!(zil_status_new());
                    let _ = (c!(zil_zimg_width(*i, s)), c!(zil_zimg_depth(*i, s)), c!(zil_zimg_colorspace(*i, s)), c!(zil_zimg_get_out_buffer_size(*i, s)));
                    let mut b = Buf::new(16, 0);
                    c!(zil_zimg_write_to_output(*i, b.p(), 16, s));
                    if !b.fenced() {
                        bad("out-of-bounds", format!("{what}: wrote outside the buffer"))?;
                    }
                    c!(zil_status_free(s));
                }
            }
        }
        if c[0].is_null() {
            break;
        }
    }
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    for i in c {
        if !i.is_null() {
            c!(zil_zimg_free(i));
        }
    }
    memory(&what)
}

/// damaged files: an error, or what the Rust interface makes of them
fn damage(ch: &mut Ch) -> Res {
    let all = all_files();
    let f = if ch.thorough() {
        ch.pick_ref(all)
    } else {
        // one file of each format and a few more
        static SOME: OnceLock<Vec<usize>> = OnceLock::new();
        let v = SOME.get_or_init(|| {
            let mut n = [0; 10];
            (0..all.len())
                .filter(|i| {
                    let k = format_num(all[*i].fmt) as usize;
                    n[k] += 1;
                    n[k] % 6 == 1
                })
                .collect()
        });
        &all[*ch.pick_ref(v)]
    };
    let mut b = f.bytes.clone();
    let what;
    let at = ch.choose(b.len());
    let kind = ch.choose(if ch.thorough() { 7 } else { 5 });
    if kind == 0 {
        b.truncate(at);
        what = format!("{} cut at {at}", f.name);
    } else {
        let v = [0, 0xff, b[at] ^ 1, b[at] ^ 0x80, b[at].wrapping_add(1), b[at].wrapping_sub(1)][kind - 1];
        what = format!("{} with byte {at} = {v}", f.name);
        b[at] = v;
    }
    // announced sizes beyond reason are the business of other checks
    if let Ok(Some(m)) = guard(|| zune_image::utils::decode_info(ZCursor::new(&b[..]))) {
        let (w, h) = m.dimensions();
        if w.saturating_mul(h) > 1 << 16 {
            ch.trivial();
            return Ok(());
        }
    }
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    let want = rust_read(&b, DecoderOptions::default());
    ch.obs(want.is_some() as u64);
    call_decode(&what, None, &b, 0, false, want.as_ref())?;
    let fast = rust_read(&b, DecoderOptions::new_fast());
    let s = c!(zil_status_new());
    let i = c!(zil_zimg_new());
    c!(zil_zimg_read_from_memory(b.as_ptr(), b.len(), i, s));
    let (ok, code) = read_status(s, &what)?;
    if ok != fast.is_some() {
        bad("outcome", format!("{what}: read_from_memory gives {code}, the Rust interface {}", if ok { "fails" } else { "succeeds" }))?;
    }
    if let Some(p) = &fast {
        same_handle(&what, i, p)?;
    }
    let m = c!(zil_read_headers_from_memory(b.as_ptr(), b.len(), s));
    let (ok, _) = read_status(s, &what)?;
    let rh = rust_headers(&b);
    if ok != rh.is_some() || rh.map_or(false, |r| r != m) {
        bad("headers", format!("{what}: {m:?} (ok {ok}) but the Rust interface has {rh:?}"))?;
    }
    c!(zil_zimg_free(i));
    c!(zil_status_free(s));
    memory(&what)
}
#[allow(unused)]
fn unused() {
    let _ = (null::<u8>(), zil_malloc as unsafe extern "C" fn(usize) -> *mut c_void);
}
