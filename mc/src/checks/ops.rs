//! Every image operation with parameters (shared by C38 and C42)
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::{ColorSpace, ALL_COLORSPACES};
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::metadata::AlphaState;
use zune_image::traits::OperationsTrait;
use zune_imageprocs::affine::AffineTransform;
use zune_imageprocs::auto_orient::AutoOrient;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::hsv_adjust::HsvAdjust;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::median::Median;
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::premul_alpha::PremultiplyAlpha;
use zune_imageprocs::resize::{Resize, ResizeMethod};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};
use zune_imageprocs::transpose::Transpose;
use zune_imageprocs::unsharpen::Unsharpen;

pub type Op = (&'static str, fn() -> Box<dyn OperationsTrait>);
macro_rules! ops {
    ($($n:literal => $e:expr),* $(,)?) => { &[$(($n, || Box::new($e) as Box<dyn OperationsTrait>)),*] };
}

/// Operations which treat every channel on its own
pub const CHANNELWISE: &[Op] = ops! {
    "exposure 0.7" => Exposure::new(0.7, 0.1),
    "gaussian-blur 1.2" => GaussianBlur::new(1.2),
    "box-blur 1" => BoxBlur::new(1),
    "spatial max" => SpatialOps::new(1, SpatialOperations::Maximum),
    "resize 5x2" => Resize::new(5, 2, ResizeMethod::Bilinear),
    "resize 3x7 lanczos" => Resize::new(3, 7, ResizeMethod::Lanczos3),
    "scharr" => Scharr::new(),
    "convolve" => Convolve::new(vec![0.1, 0.2, 0.0, 0.3, 0.1, 0.0, 0.05, 0.0, 0.2], 1.0),
    "median 1" => Median::new(1),
    "sobel" => Sobel::new(),
    "rotate 90" => Rotate::new(90.0),
    "rotate 180" => Rotate::new(180.0),
    "threshold" => Threshold::new(100.0, ThresholdMethod::ThreshTrunc),
    "stretch" => StretchContrast::new(20.0, 200.0),
    "flip" => Flip::new(FlipDirection::Horizontal),
    "contrast" => Contrast::new(40.0),
    "transpose" => Transpose::new(),
    "bilateral" => BilateralFilter::new(3, 20.0, 20.0),
    "affine" => AffineTransform::new(1.0, 0.0, 0.0, 1.0, 1.0, 1.0),
    "invert" => Invert::new(),
    "crop" => Crop::new(2, 2, 1, 1),
    "gamma" => Gamma::new(2.2),
    "mirror" => Mirror::new(MirrorMode::East),
    "unsharpen" => Unsharpen::new(1.0, 1, 50),
    "brighten" => Brighten::new(0.1),
};

/// Parameters at and beyond the edge of what makes sense, and operations over several channels
pub const OTHERS: &[Op] = ops! {
    "exposure nan" => Exposure::new(f32::NAN, f32::NAN),
    "exposure negative" => Exposure::new(-3.0, 2.0),
    "exposure huge" => Exposure::new(1e30, -1.0),
    "gaussian-blur 0" => GaussianBlur::new(0.0),
    "gaussian-blur 9" => GaussianBlur::new(9.0),
    "gaussian-blur negative" => GaussianBlur::new(-1.0),
    "gaussian-blur nan" => GaussianBlur::new(f32::NAN),
    "gaussian-blur 1e6" => GaussianBlur::new(1e6),
    "box-blur 0" => BoxBlur::new(0),
    "box-blur 2" => BoxBlur::new(2),
    "box-blur 1000" => BoxBlur::new(1000),
    "spatial contrast 0" => SpatialOps::new(0, SpatialOperations::Contrast),
    "spatial min 2" => SpatialOps::new(2, SpatialOperations::Minimum),
    "spatial gradient 5" => SpatialOps::new(5, SpatialOperations::Gradient),
    "spatial mean 9" => SpatialOps::new(9, SpatialOperations::Mean),
    "resize 0x4" => Resize::new(0, 4, ResizeMethod::Bicubic),
    "resize 4x0" => Resize::new(4, 0, ResizeMethod::Bilinear),
    "resize 1x1" => Resize::new(1, 1, ResizeMethod::Bicubic),
    "resize 9x9 sinc" => Resize::new(9, 9, ResizeMethod::Sinc),
    "convolve empty" => Convolve::new(vec![], 1.0),
    "convolve 1" => Convolve::new(vec![1.0], 1.0),
    "convolve 2" => Convolve::new(vec![1.0, 2.0], 1.0),
    "convolve 4" => Convolve::new(vec![0.25; 4], 1.0),
    "convolve 5x5" => Convolve::new(vec![0.04; 25], 1.0),
    "convolve 7x7" => Convolve::new(vec![0.02; 49], 1.0),
    "convolve scale nan" => Convolve::new(vec![1.0; 9], f32::NAN),
    "median 0" => Median::new(0),
    "median 3" => Median::new(3),
    "rotate 0" => Rotate::new(0.0),
    "rotate 270" => Rotate::new(270.0),
    "rotate 360" => Rotate::new(360.0),
    "rotate 450" => Rotate::new(450.0),
    "rotate -90" => Rotate::new(-90.0),
    "rotate 45" => Rotate::new(45.0),
    "rotate 13.5" => Rotate::new(13.5),
    "rotate nan" => Rotate::new(f32::NAN),
    "rotate infinite" => Rotate::new(f32::INFINITY),
    "threshold nan" => Threshold::new(f32::NAN, ThresholdMethod::Binary),
    "threshold -1" => Threshold::new(-1.0, ThresholdMethod::BinaryInv),
    "threshold 1e9" => Threshold::new(1e9, ThresholdMethod::ThreshToZero),
    "stretch equal" => StretchContrast::new(10.0, 10.0),
    "stretch inverted" => StretchContrast::new(200.0, 10.0),
    "stretch nan" => StretchContrast::new(f32::NAN, f32::NAN),
    "flip vertical" => Flip::new(FlipDirection::Vertical),
    "flip both" => Flip::new(FlipDirection::MirrorXAxis),
    "contrast 0" => Contrast::new(0.0),
    "contrast nan" => Contrast::new(f32::NAN),
    "contrast 259" => Contrast::new(259.0),
    "color-matrix" => ColorMatrix::new([[0.3, 0.2, 0.1, 0.0, 0.0], [0.0, 0.5, 0.0, 0.1, 0.1], [0.0, 0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0, 0.0]]),
    "color-matrix nan" => ColorMatrix::new([[f32::NAN; 5]; 4]),
    "bilateral 0" => BilateralFilter::new(0, 1.0, 1.0),
    "bilateral -3" => BilateralFilter::new(-3, 25.0, 1.5),
    "bilateral 9" => BilateralFilter::new(9, 25.0, 25.0),
    "bilateral sigma 0" => BilateralFilter::new(3, 0.0, 0.0),
    "bilateral sigma nan" => BilateralFilter::new(3, f32::NAN, f32::NAN),
    "affine no inverse" => AffineTransform::new(0.0, 0.0, 0.0, 0.0, 0.0, 0.0),
    "affine shear" => AffineTransform::new(1.0, 0.5, 0.0, 1.0, 0.0, 0.0),
    "affine far" => AffineTransform::new(1.0, 0.0, 0.0, 1.0, 500.0, -500.0),
    "affine half" => AffineTransform::new(0.5, 0.0, 0.0, 0.5, 0.0, 0.0),
    "affine nan" => AffineTransform::new(f32::NAN, 0.0, 0.0, 1.0, 0.0, 0.0),
    "affine tiny" => AffineTransform::new(1e-6, 0.0, 0.0, 1e-6, 0.0, 0.0),
    "crop whole" => Crop::new(1, 1, 0, 0),
    "crop beyond" => Crop::new(3, 3, 2, 2),
    "crop empty" => Crop::new(0, 2, 0, 0),
    "crop overflow" => Crop::new(usize::MAX, 2, 2, 0),
    "crop overflow y" => Crop::new(1, 2, 0, usize::MAX),
    "gamma 0" => Gamma::new(0.0),
    "gamma negative" => Gamma::new(-1.0),
    "gamma nan" => Gamma::new(f32::NAN),
    "mirror north" => Mirror::new(MirrorMode::North),
    "mirror south" => Mirror::new(MirrorMode::South),
    "mirror west" => Mirror::new(MirrorMode::West),
    "unsharpen 0" => Unsharpen::new(0.0, 0, 0),
    "unsharpen negative" => Unsharpen::new(-2.0, 65535, 255),
    "hsv" => HsvAdjust::new(90.0, 0.5, 1.5),
    "hsv nan" => HsvAdjust::new(f32::NAN, -1.0, f32::INFINITY),
    "brighten nan" => Brighten::new(f32::NAN),
    "brighten -5" => Brighten::new(-5.0),
    "premultiply" => PremultiplyAlpha::new(AlphaState::PreMultiplied),
    "un-premultiply" => PremultiplyAlpha::new(AlphaState::NonPreMultiplied),
    "auto-orient" => AutoOrient,
    "depth 8" => Depth::new(BitDepth::Eight),
    "depth 16" => Depth::new(BitDepth::Sixteen),
    "depth f32" => Depth::new(BitDepth::Float32),
    "depth unknown" => Depth::new(BitDepth::Unknown),
};

pub fn conversions() -> Vec<ColorSpace> {
    let mut v: Vec<ColorSpace> = ALL_COLORSPACES.to_vec();
    v.push(ColorSpace::Unknown);
    v.push(crate::imgs::multi(1));
    v.push(crate::imgs::multi(3));
    v.push(crate::imgs::multi(5));
    v
}
pub fn convert(c: ColorSpace) -> Box<dyn OperationsTrait> {
    Box::new(ColorspaceConv::new(c))
}
