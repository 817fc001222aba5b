//! C21 farbfeld
use crate::engine::*;
use crate::util::*;
use crate::Check;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_farbfeld::{FarbFeldDecoder, FarbFeldEncoder};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C21",
        level: "model_checking",
        rule: "every small dimension x sample values (all values of every byte) x call sequence x buffer size, and every encodable image of the bound, compared with the file layout the format defines; a state is the file",
        assumptions: &[],
        scenarios: |_| vec![
            Scenario { name: "decode", f: decode },
            Scenario { name: "bytes", f: bytes },
            Scenario { name: "malformed", f: malformed },
            Scenario { name: "encode", f: encode }
        ]
    }]
}
pub fn file(w: usize, h: usize, v: &[u16]) -> Vec<u8> {
    let mut o = b"farbfeld".to_vec();
    o.extend((w as u32).to_be_bytes());
    o.extend((h as u32).to_be_bytes());
    for x in v {
        o.extend(x.to_be_bytes());
    }
    o
}
pub fn samples(n: usize, seed: u32) -> Vec<u16> {
    pattern(n * 2, seed).chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}
fn dims(ch: &mut Ch) -> (usize, usize) {
    let m = if ch.thorough() { 24 } else { 9 };
    match ch.choose(2) {
        0 => (1 + ch.choose(m), 1 + ch.choose(m)),
        _ => ch.pick(&[(255, 1), (256, 2), (257, 3), (1, 1000), (16384, 1), (1, 16384), (100, 100)])
    }
}
fn decode(ch: &mut Ch) -> Res {
    let (w, h) = dims(ch);
    let v = samples(w * h * 4, (w * 3 + h) as u32);
    let mut f = file(w, h, &v);
    f.extend(vec![7; ch.pick(&[0usize, 1, 9])]);
    let calls = ch.choose(4);
    let sink = ch.choose(4);
    let what = format!("{w}x{h}, {calls} header calls, sink {sink}");
    ch.note(|| what.clone());
    ch.obs(hash_bytes(what.as_bytes()));
    ch.state(hash_bytes(&f));
    let mut d = FarbFeldDecoder::new(ZCursor::new(&f[..]));
    if d.dimensions().is_some() || d.output_buffer_size().is_some() {
        return bad("early", format!("{what}: dimensions are reported before the headers are read"));
    }
    for _ in 0..calls {
        if let Err(e) = d.decode_headers() {
            return bad("headers", format!("{what}: {e:?}"));
        }
        if d.dimensions() != Some((w, h)) || d.output_buffer_size() != Some(w * h * 8) {
            return bad("announced", format!("{what}: announced {:?} {:?}", d.dimensions(), d.output_buffer_size()));
        }
    }
    let g = match sink {
        0 => match d.decode() {
            Ok(g) => g,
            Err(e) => return bad("rejected", format!("{what}: a valid file was rejected: {e:?}"))
        },
        1 | 2 => {
            let extra = if sink == 1 { 0 } else { 5 };
            let mut b = vec![0xBEEFu16; w * h * 4 + extra];
            if let Err(e) = d.decode_into(&mut b) {
                return bad("rejected", format!("{what}: a valid file was rejected: {e:?}"));
            }
            if b[w * h * 4..].iter().any(|x| *x != 0xBEEF) {
                return bad("surplus", format!("{what}: elements after the image were written"));
            }
            b.truncate(w * h * 4);
            b
        }
        _ => {
            let mut b = vec![0u16; w * h * 4 - 1];
            if d.decode_into(&mut b).is_ok() {
                return bad("short-sink", format!("{what}: a buffer one element too short was accepted"));
            }
            return Ok(());
        }
    };
    if d.dimensions() != Some((w, h)) || d.colorspace() != ColorSpace::RGBA || d.bit_depth() != BitDepth::Sixteen {
        return bad("announced", format!("{what}: reported {:?} {:?} {:?}", d.dimensions(), d.colorspace(), d.bit_depth()));
    }
    if g != v {
        return bad("samples", format!("{what}: the samples differ ({} of {})", g.iter().zip(&v).filter(|(a, b)| a != b).count(), v.len()));
    }
    Ok(())
}
fn bytes(ch: &mut Ch) -> Res {
    let pos = ch.choose(8);
    let b = ch.choose(256) as u8;
    let c = ch.pick(&[0u8, 0x7f, 0xff]);
    let mut raw = vec![c; 16];
    raw[pos] = b;
    let v: Vec<u16> = raw.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
    ch.state(hash_bytes(&raw));
    let mut d = FarbFeldDecoder::new(ZCursor::new(file(2, 1, &v)));
    match d.decode() {
        Ok(g) if g == v => Ok(()),
        r => bad("samples", format!("raster {raw:?} decodes to {r:?}"))
    }
}
fn malformed(ch: &mut Ch) -> Res {
    let v = samples(2 * 2 * 4, 1);
    let f = file(2, 2, &v);
    let cut = ch.choose(f.len() + 8);
    if cut < f.len() {
        if FarbFeldDecoder::new(ZCursor::new(&f[..cut])).decode().is_ok() {
            return bad("truncated", format!("a file cut after {cut} of {} bytes was decoded", f.len()));
        }
    } else {
        let mut g = f.clone();
        g[cut - f.len()] ^= 1 << ch.choose(8);
        if FarbFeldDecoder::new(ZCursor::new(&g[..])).decode().is_ok() {
            return bad("magic", format!("a wrong magic {:?} was accepted", &g[..8]));
        }
    }
    Ok(())
}
fn encode(ch: &mut Ch) -> Res {
    let cs = ch.pick(&[ColorSpace::RGBA, ColorSpace::RGB, ColorSpace::Luma, ColorSpace::BGRA]);
    let bd = ch.pick(&[BitDepth::Sixteen, BitDepth::Eight, BitDepth::Float32]);
    let (w, h) = dims(ch);
    let n = w * h * cs.num_components();
    let v = samples(n, (w + h * 5) as u32);
    let mut data: Vec<u8> = match bd {
        BitDepth::Eight => pattern(n, 1),
        BitDepth::Sixteen => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        _ => pattern(n * 4, 1)
    };
    let delta = ch.choose(3);
    match delta {
        1 => data.push(0),
        2 => {
            data.pop();
        }
        _ => {}
    }
    let what = format!("encode {cs:?} {bd:?} {w}x{h}, buffer off by {}", [0, 1, -1][delta]);
    ch.obs(hash_bytes(what.as_bytes()));
    let mut out = vec![];
    let r = FarbFeldEncoder::new(&data, EncoderOptions::new(w, h, cs, bd)).encode(&mut out);
    let can = cs == ColorSpace::RGBA && bd == BitDepth::Sixteen && delta == 0;
    match r {
        Err(e) if can => bad("encode-rejected", format!("{what}: {e:?}")),
        Err(_) => Ok(()),
        Ok(_) if !can => bad("encode-accepted", format!("{what}: accepted")),
        Ok(n) if n != out.len() => bad("encode-count", format!("{what}: reported {n} of {} bytes", out.len())),
        Ok(_) if out != file(w, h, &v) => bad("encode-content", format!("{what}: {}", first_diff(&out, &file(w, h, &v)))),
        Ok(_) => Ok(())
    }
}
