//! C41 the command line program
use crate::dec::*;
use crate::engine::*;
use crate::refs::deflate::zlib_stored;
use crate::refs::png;
use crate::util::*;
use crate::Check;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::AffineTransform;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_transform::{ColorProfiles, ColorTransform};
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::median::Median;
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::resize::{Resize, ResizeMethod};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};
use zune_imageprocs::transpose::Transpose;
use zune_imageprocs::unsharpen::Unsharpen;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C41",
        level: "model_checking",
        rule: "the program itself run as a process: every sequence of operations up to the bound in every spelling with the input and output arguments before, after and around them; every input format by file and by standard input with every operation, with arguments inside and outside their ranges, and with every set of outputs (new, or replacing longer files) up to three; every combination of settings; every kind of failing command alone, with operations and beside a good output; every truncation of input files; probing of every corpus file; outputs are compared byte for byte with the operations applied through the Rust interface in that order; a state is a command line",
        assumptions: &["the operations, decoders and encoders themselves are decided by the other properties"],
        scenarios: |_| vec![
            Scenario { name: "operations", f: operations },
            Scenario { name: "images", f: images },
            Scenario { name: "outputs", f: outputs },
            Scenario { name: "settings", f: settings },
            Scenario { name: "failures", f: failures },
            Scenario { name: "truncated", f: truncated },
            Scenario { name: "repeated", f: repeated },
            Scenario { name: "probe", f: probe }
        ]
    }]
}

// ------------------------------------------------------------------------------- the program
/// a directory of its own for each execution, with everything the program may touch
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let root = Path::new("/dev/shm");
        let root = if root.is_dir() { root.to_path_buf() } else { std::env::temp_dir() };
        let d = root.join(format!("mc-cli-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).unwrap();
        Dir(d)
    }
    fn put(&self, name: &str, b: &[u8]) {
        std::fs::write(self.0.join(name), b).unwrap();
    }
    fn get(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.0.join(name)).ok()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Ran {
    code: Option<i32>,
    out:  Vec<u8>,
    err:  String
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn why(&self) -> String {
        let e: Vec<&str> = self.err.lines().filter(|l| !l.trim().is_empty()).collect();
        format!("exit {:?}, {}", self.code, e.join(" | ").chars().take(300).collect::<String>())
    }
}
fn run(d: &Dir, args: &[String], stdin: Option<&[u8]>, full: bool) -> Ran {
    let mut c = Command::new("/proc/self/exe");
    c.env_clear().env("MC_CLI", "1").args(args).current_dir(&d.0);
    match stdin {
        Some(b) => {
            d.put(".stdin", b);
            c.stdin(std::fs::File::open(d.0.join(".stdin")).unwrap());
        }
        None => {
            c.stdin(Stdio::null());
        }
    }
    if full {
        c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
    }
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => engine_error(&format!("the program cannot be started: {e}"))
    };
    Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|x| x.to_string()).collect()
}

// ------------------------------------------------------------------------------- operations
type B = Box<dyn OperationsTrait>;
struct Op {
    args:  &'static str,
    build: fn() -> B
}
macro_rules! op {
    ($($a:literal => $e:expr),* $(,)?) => { &[$(Op { args: $a, build: || Box::new($e) }),*] };
}
/// what each argument stands for; the first word names the option
static OPS: &[Op] = op![
    "--flip" => Flip::new(FlipDirection::MirrorXAxis),
    "--flop" => Flip::new(FlipDirection::Horizontal),
    "--v-flip" => Flip::new(FlipDirection::Vertical),
    "--transpose" => Transpose::new(),
    "--grayscale" => ColorspaceConv::new(ColorSpace::Luma),
    "--mirror north" => Mirror::new(MirrorMode::North),
    "--mirror=south" => Mirror::new(MirrorMode::South),
    "--mirror east" => Mirror::new(MirrorMode::East),
    "--mirror west" => Mirror::new(MirrorMode::West),
    "--invert" => Invert::new(),
    "--brighten 0.25" => Brighten::new(0.25),
    "--brighten=-0.25" => Brighten::new(-0.25),
    "--brighten -0.5" => Brighten::new(-0.5),
    "--crop 4 3 2 1" => Crop::new(4, 3, 2, 1),
    "--crop=4:3:2:1" => Crop::new(4, 3, 2, 1),
    "--crop 3:5:0:1" => Crop::new(3, 5, 0, 1),
    "--threshold 90 binary" => Threshold::new(90.0, ThresholdMethod::Binary),
    "--threshold=90:binary_inv" => Threshold::new(90.0, ThresholdMethod::BinaryInv),
    "--threshold 90 thresh_trunc" => Threshold::new(90.0, ThresholdMethod::ThreshTrunc),
    "--threshold 90:thresh_to_zero" => Threshold::new(90.0, ThresholdMethod::ThreshToZero),
    "--gamma 2.2" => Gamma::new(2.2),
    "--stretch-contrast 40 200" => StretchContrast::new(40.0, 200.0),
    "--contrast 30" => Contrast::new(30.0),
    "--resize 3x4" => Resize::new(3, 4, ResizeMethod::Bicubic),
    "--resize=7x2 --resize-method lanczos" => Resize::new(7, 2, ResizeMethod::Lanczos3),
    "--resize 7x2 --resize-method=lanczos2" => Resize::new(7, 2, ResizeMethod::Lanczos2),
    "--resize 7x2 --resize-method bilinear" => Resize::new(7, 2, ResizeMethod::Bilinear),
    "--resize 7x2 --resize-method bicubic" => Resize::new(7, 2, ResizeMethod::Bicubic),
    "--resize 7x2 --resize-method catmullrom" => Resize::new(7, 2, ResizeMethod::CatmullRom),
    "--resize 7x2 --resize-method mitchell" => Resize::new(7, 2, ResizeMethod::Mitchell),
    "--resize 7x2 --resize-method bspline" => Resize::new(7, 2, ResizeMethod::BSpline),
    "--resize 7x2 --resize-method hermite" => Resize::new(7, 2, ResizeMethod::Hermite),
    "--resize 7x2 --resize-method sinc" => Resize::new(7, 2, ResizeMethod::Sinc),
    "--depth 16" => Depth::new(BitDepth::Sixteen),
    "--depth=8" => Depth::new(BitDepth::Eight),
    "--colorspace rgba" => ColorspaceConv::new(ColorSpace::RGBA),
    "--colorspace rgb" => ColorspaceConv::new(ColorSpace::RGB),
    "--colorspace ycbcr" => ColorspaceConv::new(ColorSpace::YCbCr),
    "--colorspace grayscale" => ColorspaceConv::new(ColorSpace::Luma),
    "--colorspace luma" => ColorspaceConv::new(ColorSpace::Luma),
    "--colorspace lumaA" => ColorspaceConv::new(ColorSpace::LumaA),
    "--auto-orient" => AutoOrient,
    "--exposure 1.5" => Exposure::new(1.5, 0.0),
    "--huerotate 90" => HsvAdjust::new(90.0, 1.0, 1.0),
    "--saturate 0.5" => HsvAdjust::new(0.0, 0.5, 1.0),
    "--lightness 0.5" => HsvAdjust::new(0.0, 1.0, 0.5),
    "--rotate 90" => Rotate::new(90.0),
    "--rotate=180" => Rotate::new(180.0),
    "--box-blur 3" => BoxBlur::new(3),
    "--blur 1.5" => GaussianBlur::new(1.5),
    "--unsharpen 1.5 2" => Unsharpen::new(1.5, 2, 0),
    "--statistic 1 mean" => SpatialOps::new(1, SpatialOperations::Mean),
    "--statistic 1 max" => SpatialOps::new(1, SpatialOperations::Maximum),
    "--statistic 1 minimum" => SpatialOps::new(1, SpatialOperations::Minimum),
    "--statistic 1 gradient" => SpatialOps::new(1, SpatialOperations::Gradient),
    "--statistic 1 contrast" => SpatialOps::new(1, SpatialOperations::Contrast),
    "--mean-blur 1" => SpatialOps::new(1, SpatialOperations::Mean),
    "--median-blur 1" => Median::new(1),
    "--sobel" => Sobel::new(),
    "--scharr" => Scharr::new(),
    "--convolve 0 -0.25 0 -0.25 2 -0.25 0 -0.25 0" => Convolve::new(vec![0.0, -0.25, 0.0, -0.25, 2.0, -0.25, 0.0, -0.25, 0.0], 1.0),
    "--color-transform rgb" => ColorTransform::new(ColorProfiles::sRGB),
    "--color-transform=adobe-rgb" => ColorTransform::new(ColorProfiles::AdobeRgb),
    "--color-transform display-p3" => ColorTransform::new(ColorProfiles::DisplayP3),
    "--color-transform bt-2020" => ColorTransform::new(ColorProfiles::Bt2020),
    "--affine-transform 1 0.5 0 1 -1 2" => AffineTransform::new(1.0, 0.5, 0.0, 1.0, -1.0, 2.0)
];
/// other values of the arguments, each on every kind of input
static MORE: &[Op] = op![
    "--brighten 0" => Brighten::new(0.0),
    "--brighten 1" => Brighten::new(1.0),
    "--brighten=-3.5" => Brighten::new(-3.5),
    "--crop 7 6 0 0" => Crop::new(7, 6, 0, 0),
    "--crop 1:1:6:5" => Crop::new(1, 1, 6, 5),
    "--crop 70 6 0 0" => Crop::new(70, 6, 0, 0),
    "--threshold 0.5 binary" => Threshold::new(0.5, ThresholdMethod::Binary),
    "--threshold 200 thresh_to_zero" => Threshold::new(200.0, ThresholdMethod::ThreshToZero),
    "--threshold 40000 binary_inv" => Threshold::new(40000.0, ThresholdMethod::BinaryInv),
    "--gamma 0.45" => Gamma::new(0.45),
    "--gamma 10" => Gamma::new(10.0),
    "--gamma=1" => Gamma::new(1.0),
    "--stretch-contrast 0 255" => StretchContrast::new(0.0, 255.0),
    "--stretch-contrast 300 40000" => StretchContrast::new(300.0, 40000.0),
    "--stretch-contrast 0.25 0.75" => StretchContrast::new(0.25, 0.75),
    "--stretch-contrast 200 40" => StretchContrast::new(200.0, 40.0),
    "--contrast=-30" => Contrast::new(-30.0),
    "--contrast 127.5" => Contrast::new(127.5),
    "--contrast 255" => Contrast::new(255.0),
    "--resize 1x1" => Resize::new(1, 1, ResizeMethod::Bicubic),
    "--resize 300x2" => Resize::new(300, 2, ResizeMethod::Bicubic),
    "--resize 2x300 --resize-method bilinear" => Resize::new(2, 300, ResizeMethod::Bilinear),
    "--exposure=-1.5" => Exposure::new(-1.5, 0.0),
    "--exposure 0.01" => Exposure::new(0.01, 0.0),
    "--exposure 3" => Exposure::new(3.0, 0.0),
    "--huerotate=-30" => HsvAdjust::new(-30.0, 1.0, 1.0),
    "--huerotate 400" => HsvAdjust::new(400.0, 1.0, 1.0),
    "--saturate 3" => HsvAdjust::new(0.0, 3.0, 1.0),
    "--saturate 0" => HsvAdjust::new(0.0, 0.0, 1.0),
    "--lightness 2" => HsvAdjust::new(0.0, 1.0, 2.0),
    "--lightness 0" => HsvAdjust::new(0.0, 1.0, 0.0),
    "--rotate 270" => Rotate::new(270.0),
    "--rotate 33.5" => Rotate::new(33.5),
    "--rotate=-90" => Rotate::new(-90.0),
    "--rotate 0" => Rotate::new(0.0),
    "--box-blur 0" => BoxBlur::new(0),
    "--box-blur 1" => BoxBlur::new(1),
    "--box-blur 300" => BoxBlur::new(300),
    "--blur 0.25" => GaussianBlur::new(0.25),
    "--blur 20" => GaussianBlur::new(20.0),
    "--unsharpen 0.7 300" => Unsharpen::new(0.7, 300, 0),
    "--unsharpen 4 0" => Unsharpen::new(4.0, 0, 0),
    "--statistic 2 mean" => SpatialOps::new(2, SpatialOperations::Mean),
    "--statistic 0 max" => SpatialOps::new(0, SpatialOperations::Maximum),
    "--statistic 3 gradient" => SpatialOps::new(3, SpatialOperations::Gradient),
    "--mean-blur 2" => SpatialOps::new(2, SpatialOperations::Mean),
    "--mean-blur 0" => SpatialOps::new(0, SpatialOperations::Mean),
    "--median-blur 2" => Median::new(2),
    "--median-blur 0" => Median::new(0),
    "--affine-transform 1 0 0 1 0 0" => AffineTransform::new(1.0, 0.0, 0.0, 1.0, 0.0, 0.0),
    "--affine-transform 0.5 0 0.25 2 3 -2" => AffineTransform::new(0.5, 0.0, 0.25, 2.0, 3.0, -2.0),
    "--convolve 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25" => Convolve::new((1..26).map(|x| x as f32).collect(), 1.0)
];
fn name_of(o: &Op) -> &'static str {
    o.args.split([' ', '=']).next().unwrap()
}
/// operations that don't commute and whose results differ from their input
const FEW: [&str; 9] = ["--transpose", "--mirror east", "--crop 4 3 2 1", "--invert", "--gamma 2.2", "--resize 3x4", "--depth 16", "--grayscale", "--box-blur 3"];
fn few() -> Vec<&'static Op> {
    FEW.iter().map(|n| OPS.iter().find(|o| o.args == *n).unwrap()).collect()
}

// ------------------------------------------------------------------------------- the oracle
fn read(b: &[u8], gray: bool) -> Result<Image, String> {
    let mut o = DecoderOptions::new_cmd();
    if gray {
        o = o.jpeg_set_out_colorspace(ColorSpace::Luma);
    }
    read_with(b, o)
}
fn read_with(b: &[u8], o: DecoderOptions) -> Result<Image, String> {
    guard(|| Image::read(ZCursor::new(b), o).map_err(|e| format!("{e:?}"))).unwrap_or_else(Err)
}
fn apply(im: &mut Image, ops: &[&Op]) -> Result<(), String> {
    for o in ops {
        guard(|| (o.build)().execute(im).map_err(|e| format!("{}: {e:?}", o.args))).unwrap_or_else(Err)?;
    }
    Ok(())
}
fn enc_options() -> EncoderOptions {
    EncoderOptions::default().set_quality(80).set_num_threads(4).set_effort(4).set_strip_metadata(false).set_jpeg_encode_progressive(false)
}
fn encode(im: &Image, f: ImageFormat, o: EncoderOptions) -> Result<Vec<u8>, String> {
    guard(|| {
        let mut v = vec![];
        f.encode(im, o, &mut v).map_err(|e| format!("{f:?}: {e:?}"))?;
        Ok(v)
    })
    .unwrap_or_else(Err)
}
const EXT: [(&str, ImageFormat); 11] = [
    ("png", ImageFormat::PNG),
    ("jpg", ImageFormat::JPEG),
    ("jpeg", ImageFormat::JPEG),
    ("ppm", ImageFormat::PPM),
    ("pam", ImageFormat::PPM),
    ("pgm", ImageFormat::PPM),
    ("pfm", ImageFormat::PPM),
    ("qoi", ImageFormat::QOI),
    ("ff", ImageFormat::Farbfeld),
    ("hdr", ImageFormat::HDR),
    ("jxl", ImageFormat::JPEG_XL)
];
/// run a command line and compare each output with what it should hold
struct Case<'a> {
    args:   Vec<String>,
    input:  &'a [u8],
    stdin:  bool,
    /// name and contents, or None for an encoder which refuses the image
    files:  Vec<(String, Result<Vec<u8>, String>)>,
    stdout: Option<Result<Vec<u8>, String>>,
    done:   Result<(), String>
}
fn check(ch: &mut Ch, c: Case) -> Res {
    let line = c.args.join(" ");
    ch.note(|| format!("zune {line}"));
    ch.state(hash_bytes(line.as_bytes()) ^ hash_bytes(c.input));
    let d = Dir::new();
    if !c.stdin {
        d.put("in.bin", c.input);
    }
    if hash_bytes(line.as_bytes()) % 2 == 0 {
        // what the outputs held before is replaced
        for (n, e) in &c.files {
            d.put(n, &vec![b'#'; e.as_ref().map_or(1, |e| e.len() + 99)]);
        }
    }
    let r = run(&d, &c.args, c.stdin.then_some(c.input), false);
    let mut fail = c.done.as_ref().err().cloned();
    for (_, e) in &c.files {
        if let Err(e) = e {
            fail = fail.or(Some(e.clone()));
        }
    }
    if let Some(Err(e)) = &c.stdout {
        fail = fail.or(Some(e.clone()));
    }
    ch.obs(fail.is_some() as u64);
    if let Some(e) = fail {
        if r.ok() {
            return bad("claims-success", format!("zune {line}: exit 0, but {e}"));
        }
        return Ok(());
    }
    if !r.ok() {
        return bad("refused", format!("zune {line}: {}", r.why()));
    }
    for (n, e) in &c.files {
        let e = e.as_ref().unwrap();
        ch.obs_bytes(e);
        match d.get(n) {
            None => return bad("no-output", format!("zune {line}: {n} was not written, {}", r.why())),
            Some(b) if b != *e => return bad("output", format!("zune {line}: {n} differs from the operations applied in order: {}", diff(&b, e))),
            _ => {}
        }
    }
    let e = match &c.stdout {
        Some(Ok(b)) => &b[..],
        _ => &[]
    };
    if r.out != e {
        return bad("stdout", format!("zune {line}: standard output differs: {}", diff(&r.out, e)));
    }
    Ok(())
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes against {}, first difference at {i}, starts with {:?}", a.len(), b.len(), String::from_utf8_lossy(&a[..a.len().min(24)]))
}

// ------------------------------------------------------------------------------- inputs
struct File {
    name:  String,
    bytes: Vec<u8>
}
/// a colour profile with other primaries than those of any of the destinations
fn profile() -> Vec<u8> {
    moxcms::ColorProfile::new_dci_p3().encode().unwrap()
}
fn a_png(color: u8, depth: u8, with: bool) -> Vec<u8> {
    let mut s = png::Spec::new(7, 6, color, depth, false, 5);
    if with {
        let mut icc = b"p\0\0".to_vec();
        icc.extend(zlib_stored(&profile()));
        s.pre.push(("iCCP", icc));
        // to be rotated by 90 degrees
        s.pre.push(("eXIf", b"MM\0\x2a\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0".to_vec()));
    }
    s.file()
}
fn inputs() -> &'static [File] {
    static C: OnceLock<Vec<File>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<File> = vec![];
        for (n, c, d) in [("rgb 8", 2, 8), ("rgba 8", 6, 8), ("gray 8", 0, 8), ("rgb 16", 2, 16), ("gray alpha 8", 4, 8)] {
            v.push(File { name: format!("png {n} with metadata"), bytes: a_png(c, d, true) });
        }
        let mut im = read(&a_png(2, 8, false), false).unwrap();
        for (e, f) in [("jxl", ImageFormat::JPEG_XL), ("hdr", ImageFormat::HDR), ("ppm", ImageFormat::PPM), ("jpeg", ImageFormat::JPEG)] {
            v.push(File { name: e.into(), bytes: encode(&im, f, enc_options()).unwrap() });
        }
        Depth::new(BitDepth::Float32).execute(&mut im).unwrap();
        v.push(File { name: "pfm".into(), bytes: encode(&im, ImageFormat::PPM, enc_options()).unwrap() });
        v.extend(corpus(6, 5).into_iter().map(|i| File { name: i.name, bytes: i.bytes }));
        v.retain(|f| read(&f.bytes, false).is_ok());
        v
    })
}

// ------------------------------------------------------------------------------- scenarios
/// put -i and -o before, around or after the operations
fn arrange(ch: &mut Ch, ops: Vec<String>, i: Vec<String>, o: Vec<String>, all: bool) -> Vec<String> {
    match if all { ch.choose(4) } else { 0 } {
        0 => [i, o, ops].concat(),
        1 => [ops, i, o].concat(),
        2 => [i, ops, o].concat(),
        _ => [o, ops, i].concat()
    }
}
fn sequence(ch: &mut Ch, from: &[&'static Op], n: usize) -> Option<Vec<&'static Op>> {
    let mut v: Vec<&'static Op> = vec![];
    for _ in 0..n {
        let o = from[ch.choose(from.len())];
        if v.iter().any(|p| name_of(p) == name_of(o)) {
            ch.discard();
            return None;
        }
        v.push(o);
    }
    Some(v)
}
fn operations(ch: &mut Ch) -> Res {
    // all operations in pairs, or the ones that don't commute in longer sequences
    let (few, all) = (few(), OPS.iter().collect::<Vec<_>>());
    let kind = ch.choose(2);
    let n = if kind == 0 { ch.choose(if ch.thorough() { 4 } else { 3 }) } else { 3 + ch.choose(if ch.thorough() { 3 } else { 1 }) };
    let Some(ops) = sequence(ch, if kind == 0 && n < 3 { &all } else { &few }, n) else { return Ok(()) };
    let input = &inputs()[0];
    let args = ops.iter().flat_map(|o| words(o.args)).collect();
    let args = arrange(ch, args, words("-i in.bin"), words("--out o.png"), n < 2);
    let mut im = read(&input.bytes, false).unwrap();
    let done = apply(&mut im, &ops);
    let files = if done.is_ok() { vec![("o.png".to_string(), encode(&im, ImageFormat::PNG, enc_options()))] } else { vec![] };
    check(ch, Case { args, input: &input.bytes, stdin: false, files, stdout: None, done })
}
/// every operation on every kind of input
fn images(ch: &mut Ch) -> Res {
    let all = inputs();
    let all = if ch.thorough() { all } else { &all[..all.len().min(14)] };
    let input = ch.pick_ref(all);
    let stdin = ch.flag();
    let o = ch.choose(OPS.len() + MORE.len() + 1);
    let ops: Vec<&Op> = OPS.iter().chain(MORE).skip(o).take(1).collect();
    let args = [if stdin { words("-i -") } else { words("--input in.bin") }, ops.iter().flat_map(|o| words(o.args)).collect(), words("-o o.ppm")].concat();
    let mut im = read(&input.bytes, false).unwrap();
    let done = apply(&mut im, &ops);
    let files = if done.is_ok() { vec![("o.ppm".to_string(), encode(&im, ImageFormat::PPM, enc_options()))] } else { vec![] };
    check(ch, Case { args, input: &input.bytes, stdin, files, stdout: None, done })
}
/// sets of outputs
fn outputs(ch: &mut Ch) -> Res {
    let input = &inputs()[ch.choose(if ch.thorough() { 10 } else { 2 })];
    let stdin = ch.flag();
    let n = 1 + ch.choose(if ch.thorough() { 3 } else { 2 });
    let mut im = read(&input.bytes, false).unwrap();
    let op = few()[[0usize, 6][ch.choose(2)]];
    let done = apply(&mut im, &[op]);
    let (mut o, mut files, mut stdout) = (vec![], vec![], None);
    let mut to_stdout = false;
    for k in 0..n {
        let e = ch.choose(EXT.len() + 1);
        if e == EXT.len() {
            if to_stdout {
                ch.discard();
                return Ok(());
            }
            to_stdout = true;
            o.extend(words("-o -"));
        } else {
            let name = format!("o{k}.{}", EXT[e].0);
            o.extend(words(&format!("-o {name}")));
            files.push((name, encode(&im, EXT[e].1, enc_options())));
        }
    }
    if to_stdout {
        let (n, f) = ch.pick(&[("png", ImageFormat::PNG), ("ppm", ImageFormat::PPM), ("jpeg", ImageFormat::JPEG), ("qoi", ImageFormat::QOI), ("farbfeld", ImageFormat::Farbfeld), ("hdr", ImageFormat::HDR), ("jxl", ImageFormat::JPEG_XL), ("bmp", ImageFormat::BMP), ("psd", ImageFormat::PSD)]);
        o.extend(words(&format!("--output-format {n}")));
        stdout = Some(encode(&im, f, enc_options()));
        // whatever is logged stays out of the image
        o.extend(words(ch.pick(&["", "--debug", "--trace", "--info", "--no-log"])));
    }
    let i = if stdin { words("-i -") } else { words("-i in.bin") };
    let args = arrange(ch, words(op.args), i, o, n == 1);
    check(ch, Case { args, input: &input.bytes, stdin, files, stdout, done })
}
fn settings(ch: &mut Ch) -> Res {
    static JPEG: OnceLock<[Vec<u8>; 2]> = OnceLock::new();
    let ins = JPEG.get_or_init(|| {
        let im = read(&a_png(2, 8, true), false).unwrap();
        [encode(&im, ImageFormat::JPEG, enc_options()).unwrap(), a_png(2, 8, true)]
    });
    let input = &ins[ch.choose(2)][..];
    let (mut args, mut e, mut d) = (vec![], enc_options(), DecoderOptions::new_cmd());
    let (e_name, f) = ch.pick(&[("jpg", ImageFormat::JPEG), ("png", ImageFormat::PNG), ("jxl", ImageFormat::JPEG_XL)]);
    if let Some(q) = [None, Some(1u8), Some(100), Some(55)][ch.choose(4)] {
        args.extend(words(&format!("--quality {q}")));
        e = e.set_quality(q);
    }
    if ch.flag() {
        args.extend(words("--progressive"));
        e = e.set_jpeg_encode_progressive(true);
    }
    if ch.flag() {
        args.extend(words("--strip"));
        e = e.set_strip_metadata(true);
    }
    if let Some(q) = [None, Some(1u8), Some(7)][ch.choose(3)] {
        args.extend(words(&format!("--effort={q}")));
        e = e.set_effort(q);
    }
    if let Some(q) = [None, Some(1u8), Some(9)][ch.choose(3)] {
        args.extend(words(&format!("--encode-threads {q}")));
        e = e.set_num_threads(q);
    }
    match ch.choose(if ch.thorough() { 6 } else { 4 }) {
        0 => {}
        1 => {
            args.extend(words("--jpeg-grayscale"));
            d = d.jpeg_set_out_colorspace(ColorSpace::Luma);
        }
        2 => {
            args.extend(words("--max-width 6 --max-height 100"));
            d = d.set_max_width(6).set_max_height(100);
        }
        3 => {
            args.extend(words("--max-width 7 --max-height 5"));
            d = d.set_max_width(7).set_max_height(5);
        }
        4 => {
            args.extend(words("--max-width 7 --max-height 6 --strict --safe"));
            d = d.set_max_width(7).set_max_height(6).set_strict_mode(true).set_use_unsafe(false);
        }
        _ => {
            args.extend(words("--mmap auto --yes --experimental"));
        }
    }
    let mut files = vec![];
    let done = read_with(input, d).map(|im| files.push((format!("o.{e_name}"), encode(&im, f, e))));
    let args = [words("-i in.bin -o"), vec![format!("o.{e_name}")], args].concat();
    check(ch, Case { args, input, stdin: false, files, stdout: None, done })
}
/// commands that cannot do what they say
static BAD: &[&str] = &[
    "-i missing.png -o o.png",
    "-i . -o o.png",
    "-i empty -o o.png",
    "-i text -o o.png",
    "-i gif -o o.png",
    "-i zeros -o o.png",
    "-i in.bin -o o.xyz",
    "-i in.bin -o o",
    "-i in.bin -o o.PNX",
    "-i in.bin -o nodir/o.png",
    "-i in.bin -o dir.png",
    "-i in.bin -o in.bin/o.png",
    "-i in.bin -o full.ppm",
    "-i in.bin -o full.png",
    "-i in.bin -o full.jpg",
    "-i in.bin -o full.qoi",
    "-i in.bin -o full.ff",
    "-i in.bin -o full.jxl",
    "-i in.bin -o full.hdr",
    "-i in.bin -o -",
    "-i in.bin -o - --output-format bmp",
    "-i in.bin -o - --output-format psd",
    "-i in.bin -o - --output-format gif",
    "-i in.bin -o",
    "-o o.png",
    "-i in.bin -i in.bin -o o.png",
    "-i in.bin -o o.png --unknown",
    "-i in.bin -o o.png --crop 4 3 2",
    "-i in.bin -o o.png --crop 4:3:2",
    "-i in.bin -o o.png --crop 4:3:2:1:1",
    "-i in.bin -o o.png --crop 4 3 x 1",
    "-i in.bin -o o.png --crop 9 9 1 1",
    "-i in.bin -o o.png --crop 4 3 5 1",
    "-i in.bin -o o.png --resize 4",
    "-i in.bin -o o.png --resize 4x",
    "-i in.bin -o o.png --resize x4",
    "-i in.bin -o o.png --resize 4x4x4",
    "-i in.bin -o o.png --resize=-4x4",
    "-i in.bin -o o.png --resize 4x4 --resize-method nearest",
    "-i in.bin -o o.png --resize",
    "-i in.bin -o o.png --depth 7",
    "-i in.bin -o o.png --depth 300",
    "-i in.bin -o o.png --depth x",
    "-i in.bin -o o.png --colorspace xyz",
    "-i in.bin -o o.png --mirror up",
    "-i in.bin -o o.png --threshold 5",
    "-i in.bin -o o.png --threshold 5 other",
    "-i in.bin -o o.png --threshold x binary",
    "-i in.bin -o o.png --statistic 1",
    "-i in.bin -o o.png --statistic 1 mode",
    "-i in.bin -o o.png --statistic x mean",
    "-i in.bin -o o.png --gamma x",
    "-i in.bin -o o.png --stretch-contrast 5",
    "-i in.bin -o o.png --stretch-contrast 200 40",
    "-i in.bin -o o.png --convolve 1 2 3",
    "-i in.bin -o o.png --affine-transform 1 0 0 1 0",
    "-i in.bin -o o.png --affine-transform 0 0 0 0 0 0",
    "-i in.bin -o o.png --color-transform srgb",
    "-i in.bin -o o.png --quality 256",
    "-i in.bin -o o.png --quality x",
    "-i in.bin -o o.png --max-width x",
    "-i in.bin -o o.png --max-width 6",
    "-i in.bin -o o.png --max-height 5",
    "-i in.bin -o o.png --mmap maybe",
    "-i in.bin -o o.png stray",
    "--probe -i missing.png",
    "--probe -i empty",
    "--probe -i text",
    "--probe -i gif",
    "--probe -i ."
];
fn failures(ch: &mut Ch) -> Res {
    let b = ch.pick(BAD);
    let mut args = words(b);
    // among other things which are fine
    match ch.choose(5) {
        0 => {}
        1 => args.extend(words("--invert")),
        2 => args = [words("--flop"), args].concat(),
        3 => {
            if b.ends_with("-o") {
                ch.discard();
                return Ok(());
            }
            args.extend(words("-o good.png"))
        }
        _ => args = [words("-o good.png"), args].concat()
    }
    let line = args.join(" ");
    ch.note(|| format!("zune {line}"));
    ch.state(hash_bytes(line.as_bytes()));
    let d = Dir::new();
    d.put("in.bin", &a_png(2, 8, true));
    d.put("empty", b"");
    d.put("text", b"this is not an image, whatever its name says");
    d.put("gif", b"GIF89a\x01\0\x01\0\0\0\0;");
    d.put("zeros", &[0; 64]);
    std::fs::create_dir(d.0.join("dir.png")).unwrap();
    for (e, _) in EXT {
        std::os::unix::fs::symlink("/dev/full", d.0.join(format!("full.{e}"))).unwrap();
    }
    let r = run(&d, &args, None, false);
    ch.obs(1);
    if r.ok() {
        return bad("claims-success", format!("zune {line}: exit 0, {}", r.why()));
    }
    if !r.out.is_empty() && line.contains("-o -") {
        return bad("stdout", format!("zune {line}: a failed command wrote {:?} to standard output", String::from_utf8_lossy(&r.out)));
    }
    Ok(())
}
/// input files cut at every length, outputs that take only so much
fn truncated(ch: &mut Ch) -> Res {
    let all = inputs();
    let all = if ch.thorough() { &all[..] } else { &all[..10] };
    let f = ch.pick_ref(all);
    let kind = ch.choose(3);
    if kind == 2 {
        // standard output that cannot be written
        let (n, _) = ch.pick(&[("ppm", 0), ("png", 0), ("jpeg", 0), ("qoi", 0), ("farbfeld", 0), ("hdr", 0), ("jxl", 0)]);
        let args = words(&format!("-i in.bin -o - --output-format {n}"));
        let d = Dir::new();
        d.put("in.bin", &f.bytes);
        ch.state(hash_bytes(n.as_bytes()) ^ hash_bytes(&f.bytes));
        let r = run(&d, &args, None, true);
        ch.obs(2);
        return if r.ok() { bad("claims-success", format!("zune {} > /dev/full: exit 0", args.join(" "))) } else { Ok(()) };
    }
    let step = if ch.thorough() { 1 } else { 1 + f.bytes.len() / 60 };
    let cut = ch.choose(f.bytes.len() / step + 1) * step;
    let bytes = &f.bytes[..cut.min(f.bytes.len())];
    let mut files = vec![];
    let done = read(bytes, false).map(|im| files.push(("o.ppm".to_string(), encode(&im, ImageFormat::PPM, enc_options()))));
    let i = if kind == 1 { words("-i -") } else { words("-i in.bin") };
    check(ch, Case { args: [i, words("-o o.ppm --no-log")].concat(), input: bytes, stdin: kind == 1, files, stdout: None, done })
}
/// an option given twice is refused or applied twice
fn repeated(ch: &mut Ch) -> Res {
    let (a, x) = (&OPS[ch.choose(OPS.len())], ch.choose(FEW.len() + 1));
    if a.args.contains("--convolve") {
        ch.discard();
        return Ok(());
    }
    let mid: Vec<&Op> = few().into_iter().skip(x).take(1).collect();
    let ops = [vec![a], mid, vec![a]].concat();
    let mut args = words("-i in.bin -o o.png");
    args.extend(ops.iter().flat_map(|o| words(o.args)));
    let line = args.join(" ");
    ch.note(|| format!("zune {line}"));
    ch.state(hash_bytes(line.as_bytes()));
    let d = Dir::new();
    let input = a_png(2, 8, true);
    d.put("in.bin", &input);
    let r = run(&d, &args, None, false);
    ch.obs(r.ok() as u64);
    if r.ok() {
        let mut im = read(&input, false).unwrap();
        let want = apply(&mut im, &ops).and_then(|_| encode(&im, ImageFormat::PNG, enc_options()));
        if d.get("o.png") != want.ok() {
            return bad("repeated", format!("zune {line}: exit 0, but the output isn't that of the operations in order"));
        }
    }
    Ok(())
}
/// what --probe prints is what the headers say
fn probe(ch: &mut Ch) -> Res {
    let f = ch.pick_ref(inputs());
    let args = match ch.choose(3) {
        0 => words("--probe -i in.bin"),
        1 => words("-i in.bin --probe --invert --max-width 1"),
        _ => words("-i in.bin --probe -o o.png")
    };
    let line = args.join(" ");
    ch.note(|| format!("{}: zune {line}", f.name));
    ch.state(hash_bytes(line.as_bytes()) ^ hash_bytes(&f.bytes));
    let d = Dir::new();
    d.put("in.bin", &f.bytes);
    let r = run(&d, &args, None, false);
    let want = guard(|| {
        let (fmt, c) = ImageFormat::guess_format(ZCursor::new(&f.bytes[..])).ok_or("no format")?;
        fmt.decoder_with_options(c, DecoderOptions::new_cmd()).and_then(|mut d| d.read_headers()).map_err(|e| format!("{e:?}"))
    })
    .unwrap_or_else(Err);
    let Ok(Some(m)) = want else {
        ch.trivial();
        return Ok(());
    };
    if !r.ok() {
        return bad("refused", format!("{}: zune {line}: {}", f.name, r.why()));
    }
    let out = String::from_utf8_lossy(&r.out).into_owned();
    let (w, h) = m.dimensions();
    let mut lines = vec![format!("\"file\": \"in.bin\""), format!("\"length\": {}", f.bytes.len()), format!("\"width\": {w}"), format!("\"height\": {h}"), format!("\"colorspace\": \"{:?}\"", m.colorspace()), format!("\"depth\": \"{:?}\"", m.depth())];
    if let Some(f) = m.image_format() {
        lines.push(format!("\"format\": \"{f:?}\""));
    }
    ch.obs_bytes(out.as_bytes());
    for l in lines {
        if !out.lines().any(|o| o.trim().trim_end_matches(',') == l) {
            return bad("probe", format!("{}: zune {line}: no {l} in {out}", f.name));
        }
    }
    if d.get("o.png").is_some() {
        return bad("probe", format!("{}: zune {line}: wrote an output", f.name));
    }
    Ok(())
}
