use crate::Check;
macro_rules! mods {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn all() -> Vec<Check> {
            let mut v: Vec<Check> = vec![];
            $(#[cfg(feature = $f)] v.extend($m::checks());)*
            v
        }
    };
}
#[cfg(feature = "procs")]
pub mod ops;
mods! {
    "c_core" core,
    "c_inflate" inflate,
    "img" channel,
    "img" pipeline,
    "img" imgops,
    "procs" geometry,
    "procs" points,
    "procs" filters,
    "procs" combine,
    "procs" resample,
    "procs" parallel,
    "procs" intact,
    "c_png" png,
    "c_small" qoi,
    "c_small" farbfeld,
    "c_small" bmp,
    "c_small" ppm,
    "small" hdr,
    "c_small" psd,
    "c_jpeg" jpeg,
    "codecs" codecs,
    "codecs" encode,
    "codecs" anim,
    "codecs" options,
    "codecs" files,
    "full" orient,
    "full" lossy,
    "full" meta,
    "jxl" jxl,
    "capi" capi,
    "cli" cli,
    "cms" colour,
    "foreign" foreign,
    "wasm" wasm,
    "nostd" nostd,
}
