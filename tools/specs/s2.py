bugs = [
dict(id="qoi-run-not-indexed", property="C15", needs="a file that starts with a run and later refers to the starting pixel by its index",
 breaks="Pixels repeated by a run are not put in the index, so an index to the starting pixel gives another colour.",
 edits=[("crates/zune-qoi/src/decoder.rs", "                index[color_hash] = px;", "                // a run repeats a pixel the index has already\n                if run == 0 && chunk != QOI_OP_RUN {\n                    index[color_hash] = px;\n                }")],
 deps=["zune-core std", "zune-qoi"], demo="""
use zune_core::bytestream::ZCursor;
fn main() {
    let mut f = b"qoif".to_vec();
    f.extend([0, 0, 0, 3, 0, 0, 0, 1, 4, 0]);
    f.extend([0xC0, 0xFE, 1, 2, 3, 53]);
    f.extend([0, 0, 0, 0, 0, 0, 0, 1]);
    let px = zune_qoi::QoiDecoder::new(ZCursor::new(&f)).decode().unwrap();
    assert_eq!(px, [0, 0, 0, 255, 1, 2, 3, 255, 0, 0, 0, 255]);
}
"""),
dict(id="hdr-run-shift", property="C20", needs="an old style scanline with two separate runs",
 breaks="The shift of run lengths is not reset by the pixels between two runs, so the second run is 256 times as long.",
 edits=[("crates/zune-hdr/src/decoder.rs", "                width -= 1;\n                shift = 0;", "                width -= 1;")],
 deps=["zune-core std", "zune-hdr"], demo="""
use zune_core::bytestream::ZCursor;
fn main() {
    let mut f = b"#?RADIANCE\\nFORMAT=32-bit_rle_rgbe\\n\\n-Y 1 +X 6\\n".to_vec();
    for p in [[10u8, 20, 30, 129], [1, 1, 1, 2], [50, 60, 70, 129], [1, 1, 1, 1], [90, 80, 70, 129]] {
        f.extend(p);
    }
    let px = zune_hdr::HdrDecoder::new(ZCursor::new(&f)).decode().unwrap();
    assert_eq!(px.len(), 18);
    let r: Vec<f32> = px.chunks(3).map(|p| p[0]).collect();
    assert!(r[0] == r[1] && r[1] == r[2] && r[3] == r[4] && r[4] != r[5], "{r:?}");
}
"""),
dict(id="psd-matte-255", property="C19", needs="a 16-bit image with an alpha sample of exactly 255",
 breaks="16-bit pixels with an alpha of 255 are taken for opaque ones, and the white matte stays in them.",
 edits=[("crates/zune-psd/src/decoder.rs", "if px3 != 0 && px3 != 65535 {", "if px3 != 0 && px3 != 255 {")],
 deps=["zune-core std", "zune-psd"], demo="""
use zune_core::bytestream::ZCursor;
fn main() {
    let mut f = b"8BPS".to_vec();
    f.extend([0, 1, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1, 0, 0, 0, 1, 0, 16, 0, 3]);
    f.extend([0; 12]);
    f.extend([0, 0]);
    for v in [65450u16, 65500, 65535, 255] {
        f.extend(v.to_be_bytes());
    }
    let px = zune_psd::PSDDecoder::new(ZCursor::new(&f)).decode_raw().unwrap();
    let s: Vec<u16> = px.chunks(2).map(|b| u16::from_ne_bytes([b[0], b[1]])).collect();
    let a = 255.0 / 65535.0;
    let e = (65450.0 / a + 65535.0 * (1.0 - 1.0 / a)) as i64;
    assert!((i64::from(s[0]) - e).abs() <= 1, "{s:?} {e}");
}
"""),
dict(id="jpeg-icc-file-order", property="C43", needs="a colour profile split over several segments that are stored out of order",
 breaks="The parts of a colour profile are joined in the order of the file instead of their numbers.",
 edits=[("crates/zune-jpeg/src/decoder.rs", "        for chunk in marker_present.get(1..=num_markers).unwrap() {", "        for chunk in self.icc_data.iter().map(Some).take(num_markers) {")],
 deps=["zune-core std", "zune-jpeg"], demo="""
use zune_core::bytestream::ZCursor;
fn main() {
    let mut f = vec![0xFF, 0xD8];
    let mut seg = |f: &mut Vec<u8>, m: u8, d: &[u8]| {
        f.extend([0xFF, m]);
        f.extend(((d.len() + 2) as u16).to_be_bytes());
        f.extend(d);
    };
    for (n, t) in [(2u8, "world"), (1, "hello ")] {
        let mut d = b"ICC_PROFILE\\0".to_vec();
        d.extend([n, 2]);
        d.extend(t.as_bytes());
        seg(&mut f, 0xE2, &d);
    }
    let mut q = vec![0u8];
    q.extend([1; 64]);
    seg(&mut f, 0xDB, &q);
    seg(&mut f, 0xC0, &[8, 0, 8, 0, 8, 1, 1, 0x11, 0]);
    for c in [0x00u8, 0x10] {
        let mut h = vec![c, 1];
        h.extend([0; 15]);
        h.push(0);
        seg(&mut f, 0xC4, &h);
    }
    seg(&mut f, 0xDA, &[1, 1, 0, 0, 63, 0]);
    f.extend([0x3F, 0xFF, 0xD9]);
    let mut d = zune_jpeg::JpegDecoder::new(ZCursor::new(&f));
    d.decode_headers().unwrap();
    assert_eq!(d.icc_profile().as_deref(), Some(&b"hello world"[..]));
}
"""),
dict(id="farbfeld-limit-mixup", property="C07", needs="a height limit lower than the width limit, and a file between the two",
 breaks="The height of a farbfeld file is compared with the width limit.",
 edits=[("crates/zune-farbfeld/src/decoder.rs", "if self.height > self.options.max_height() {", "if self.height > self.options.max_width() {")],
 deps=["zune-core std", "zune-farbfeld"], demo="""
use zune_core::bytestream::ZCursor;
use zune_core::options::DecoderOptions;
fn main() {
    let mut f = b"farbfeld".to_vec();
    f.extend([0, 0, 0, 1, 0, 0, 0, 3]);
    f.extend([7; 24]);
    let o = DecoderOptions::default().set_max_width(5).set_max_height(2);
    assert!(zune_farbfeld::FarbFeldDecoder::new_with_options(ZCursor::new(&f), o).decode().is_err());
    let o = DecoderOptions::default().set_max_width(1).set_max_height(3);
    assert!(zune_farbfeld::FarbFeldDecoder::new_with_options(ZCursor::new(&f), o).decode().is_ok());
}
"""),
dict(id="pipeline-skips-failed-step", property="C31", needs="an operation that fails, and the pipeline advanced again afterwards",
 breaks="The pipeline moves on before running the operations, so a failed step is passed over when it is advanced again.",
 edits=[("crates/zune-image/src/pipelines.rs", "                    for image in self.image.iter_mut() {\n", "                    let next = state.next();\n                    self.state = next;\n\n                    for image in self.image.iter_mut() {\n"),
        ("crates/zune-image/src/pipelines.rs", "                        }\n                    }\n                    self.state = state.next();", "                        }\n                    }")],
 deps=["zune-core std", "zune-image = { path = \"@REPO@/crates/zune-image\", default-features = false }"], demo="""
use zune_core::bit_depth::BitType;
use zune_core::colorspace::ColorSpace;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::pipelines::Pipeline;
use zune_image::traits::OperationsTrait;
struct Fails;
impl OperationsTrait for Fails {
    fn name(&self) -> &'static str { "fails" }
    fn execute_impl(&self, _: &mut Image) -> Result<(), ImageErrors> { Err(ImageErrors::GenericStr("no")) }
    fn supported_types(&self) -> &'static [BitType] { &[BitType::U8] }
}
fn main() {
    let mut p = Pipeline::new();
    p.chain_image(Image::fill(3u8, ColorSpace::RGB, 2, 2));
    p.chain_operations(Box::new(Fails));
    assert!(p.advance_to_end().is_err());
    assert!(p.advance_to_end().is_err());
}
"""),
dict(id="frame-clone-large", property="C28", needs="a frame of several channels of more than 1000 bytes, cloned",
 breaks="The threaded clone used for large frames leaves the last bytes out when the length is not a multiple of eight.",
 edits=[("crates/zune-image/src/frame.rs", "                            new_alias.copy_from_slice(old_alias);", "                            let whole = old_alias.len() & !7;\n                            new_alias[..whole].copy_from_slice(&old_alias[..whole]);")],
 deps=["zune-core std", "zune-image = { path = \"@REPO@/crates/zune-image\", default-features = false, features = [\"threads\"] }"], demo="""
use zune_core::colorspace::ColorSpace;
use zune_image::image::Image;
fn main() {
    for n in [1001usize, 1003, 1009, 2047] {
        let px: Vec<u8> = (0..n * 3).map(|i| (i % 250) as u8 + 1).collect();
        let im = Image::from_u8(&px, n, 1, ColorSpace::RGB);
        let b = im.clone();
        assert!(b.flatten_to_u8()[0] == px, "{n}");
    }
}
"""),
dict(id="transpose-u16-tail", property="C33", needs="16-bit images at least 8 wide whose height leaves a remainder of 7",
 breaks="The accelerated transposition takes a remainder of seven rows for none.",
 edits=[]),
]
bugs = [b for b in bugs if b["edits"]]
