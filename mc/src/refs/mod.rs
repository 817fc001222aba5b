pub mod deflate;
#[cfg(feature = "c_png")]
pub mod png;
#[cfg(feature = "c_small")]
pub mod bmp;
#[cfg(feature = "c_jpeg")]
pub mod jpeg;
