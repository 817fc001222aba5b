//! C20 Radiance HDR
use crate::engine::*;
use crate::util::*;
use crate::Check;
use std::collections::HashMap;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_hdr::{HdrDecoder, HdrEncoder};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        level: "model_checking",
        rule: "every exponent x mantissa of the alphabet, every scanline cut into every legal sequence of codes of the bound, every header sequence, and every encodable image of the bound, compared with an interpreter of the format written from its definition; a state is the file",
        assumptions: &["only the orientations -Y +X and +X -Y are checked, the others are refused"],
        scenarios: |_| vec![
            Scenario { name: "values", f: values },
            Scenario { name: "scanlines", f: scanlines },
            Scenario { name: "headers", f: headers },
            Scenario { name: "malformed", f: malformed },
            Scenario { name: "encode", f: encode },
            Scenario { name: "representable", f: representable }
        ]
    }]
}
pub fn val(m: u8, e: u8) -> f32 {
    if e == 0 {
        0.0
    } else {
        (f64::from(m) * (f64::from(e) - 136.0).exp2()) as f32
    }
}
pub fn floats(px: &[[u8; 4]]) -> Vec<f32> {
    px.iter().flat_map(|p| [val(p[0], p[3]), val(p[1], p[3]), val(p[2], p[3])]).collect()
}
pub fn head(w: usize, h: usize) -> Vec<u8> {
    format!("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y {h} +X {w}\n").into_bytes()
}
fn same(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
fn expect(what: &str, f: &[u8], w: usize, h: usize, want: &[f32]) -> Res {
    let opts = DecoderOptions::default().set_max_width(1 << 17).set_max_height(1 << 17);
    let mut d = HdrDecoder::new_with_options(ZCursor::new(f), opts);
    match d.decode() {
        Err(e) => bad("rejected", format!("{what}: a valid file was rejected: {e:?}")),
        Ok(g) => {
            if d.dimensions() != Some((w, h)) || d.output_buffer_size() != Some(w * h * 3) || d.get_colorspace() != Some(ColorSpace::RGB) {
                return bad("announced", format!("{what}: reported {:?} {:?}", d.dimensions(), d.output_buffer_size()));
            }
            if !same(&g, want) {
                let i = g.iter().zip(want).position(|(a, b)| a != b);
                return bad("pixels", format!("{what}: value {i:?} is {:?}, not {:?}", i.map(|i| g[i]), i.map(|i| want[i])));
            }
            Ok(())
        }
    }
}
fn values(ch: &mut Ch) -> Res {
    let e = ch.choose(256) as u8;
    let m = ch.choose(256) as u8;
    let w = ch.pick(&[1usize, 8]);
    let px: Vec<[u8; 4]> = (0..w).map(|i| match i {
        0 => [m, 255 - m, 77, e],
        _ => [m ^ i as u8, 3, m, e]
    }).collect();
    let mut f = head(w, 1);
    if w < 8 {
        if px[0][..3] == [1, 1, 1] {
            return Ok(());
        }
        f.extend(px.concat());
    } else {
        f.extend(new_rle(&px, &mut |_, n| n.min(128)));
    }
    ch.state(hash_bytes(&f));
    expect(&format!("pixels {px:?}"), &f, w, 1, &floats(&px))
}
/// A scanline in the new coding: runs where possible when `cut` says so
fn new_rle(px: &[[u8; 4]], cut: &mut dyn FnMut(bool, usize) -> usize) -> Vec<u8> {
    let w = px.len();
    let mut o = vec![2, 2, (w >> 8) as u8, w as u8];
    for c in 0..4 {
        let mut i = 0;
        while i < w {
            let run = px[i..].iter().take_while(|p| p[c] == px[i][c]).count().min(127);
            let n = cut(true, run);
            if n > 1 {
                o.push(128 + n as u8);
                o.push(px[i][c]);
                i += n;
            } else {
                let n = cut(false, (w - i).min(128)).max(1);
                o.push(n as u8);
                o.extend(px[i..i + n].iter().map(|p| p[c]));
                i += n;
            }
        }
    }
    o
}
const ALPHA: [[u8; 4]; 5] = [[130, 7, 9, 128], [2, 2, 200, 130], [1, 1, 2, 127], [2, 130, 5, 131], [200, 200, 200, 120]];

fn scanlines(ch: &mut Ch) -> Res {
    let kind = ch.choose(3);
    let (f, w, h, px, what);
    match kind {
        0 => {
            // flat and old repeats: every sequence of tokens, rows cut by the width
            w = ch.pick(&[1usize, 2, 3, 5, 7, 8, 9, 12, 300, 700, 32768]);
            h = if w > 100 { 1 } else { 1 + ch.choose(2) };
            let mut rows: Vec<[u8; 4]> = vec![];
            let mut raw = vec![];
            let mut toks = String::new();
            let max_tok = if ch.thorough() { 5 } else { 4 };
            for _ in 0..h {
                let mut row: Vec<[u8; 4]> = vec![];
                let mut shift = 0;
                let mut n = 0;
                while row.len() < w {
                    let left = w - row.len();
                    // a repeat: low count, or the next eight bits of the count
                    let k = if n >= max_tok || row.is_empty() || shift > 8 { 0 } else { ch.choose(if shift == 8 { 3 } else { 4 }) };
                    if k == 0 {
                        let p = if n >= max_tok { [(row.len() % 250) as u8, 3, 5, 129] } else { ch.pick(&ALPHA) };
                        // a scanline that starts with 2 2 and a third byte below 128 is in the new coding
                        if row.is_empty() && w >= 8 && p[0] == 2 && p[1] == 2 && p[2] < 128 {
                            ch.discard();
                            return Ok(());
                        }
                        raw.extend(p);
                        row.push(p);
                        shift = 0;
                    } else {
                        let unit = 1usize << shift;
                        let c = match k {
                            1 => 1,
                            2 => left / unit,
                            _ => 0
                        };
                        let c = c.min(255);
                        if c * unit > left || (c == 0 && k != 3) {
                            ch.discard();
                            return Ok(());
                        }
                        raw.extend([1, 1, 1, c as u8]);
                        let p = *row.last().unwrap();
                        row.extend(std::iter::repeat(p).take(c * unit));
                        shift += 8;
                    }
                    toks.push_str(&format!("{k}"));
                    n += 1;
                }
                toks.push('/');
                rows.extend(row);
            }
            let mut g = head(w, h);
            g.extend(raw);
            f = g;
            px = rows;
            what = format!("flat or old coding {w}x{h}, tokens {toks}");
        }
        1 => {
            // new coding: every cut of a short scanline
            w = if ch.thorough() { ch.pick(&[8usize, 9]) } else { 8 };
            h = 1;
            let pat = ch.choose(4);
            px = (0..w).map(|i| pixel(pat, i)).collect();
            // every cut of one plane; the others are cut in a fixed way
            let plane = ch.choose(4);
            let mut cuts = 0;
            let mut g = head(w, h);
            let mut left = [w; 4];
            let mut at = 0;
            let body = {
                let chr = &mut *ch;
                let cuts = &mut cuts;
                let mut pending = false;
                let at = &mut at;
                let left = &mut left;
                new_rle(&px, &mut |run, n| {
                    if !pending {
                        while *at < 4 && left[*at] == 0 {
                            *at += 1;
                        }
                    }
                    let mine = *at == plane;
                    let r = if run {
                        if mine { if n > 1 { let c = chr.choose(n + 1); if c == 1 { 0 } else { c } } else { 0 } } else { 0 }
                    } else if mine {
                        1 + chr.choose(n)
                    } else {
                        n.min(5)
                    };
                    pending = run && r < 2;
                    if !pending {
                        left[*at] -= r;
                    }
                    *cuts += 1;
                    r
                })
            };
            g.extend(body);
            f = g;
            what = format!("new coding {w}x1, pattern {pat}, plane {plane} cut {cuts} times");
        }
        _ => {
            w = ch.pick(&[8usize, 127, 128, 129, 255, 256, 257, 300, 4000, 16384, 32767]);
            h = ch.pick(&[1usize, 2, 3]);
            let pat = ch.choose(4);
            let runs = ch.flag();
            let lit = ch.pick(&[1usize, 2, 127, 128]);
            let cap = ch.pick(&[2usize, 64, 127]);
            px = (0..w * h).map(|i| pixel(pat, i)).collect();
            let mut g = head(w, h);
            let old_row = ch.flag();
            for (y, row) in px.chunks(w).enumerate() {
                if y == 1 && old_row {
                    // codings may differ from scanline to scanline
                    if row[0][..2] == [2, 2] {
                        return Ok(());
                    }
                    g.extend(row.concat());
                } else {
                    g.extend(new_rle(row, &mut |run, n| if run { if runs && n > 3 { n.min(cap) } else { 0 } } else { n.min(lit) }));
                }
            }
            f = g;
            what = format!("new coding {w}x{h}, pattern {pat}, runs {runs} up to {cap}, literals of {lit}, flat second row {old_row}");
        }
    }
    ch.note(|| what.clone());
    ch.state(hash_bytes(&f));
    ch.obs(hash_bytes(what.as_bytes()));
    expect(&what, &f, w, h, &floats(&px))?;
    // the same scanlines as the columns of an image
    let mut g = format!("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n+X {h} -Y {w}\n").into_bytes();
    g.extend(&f[head(w, h).len()..]);
    let turned: Vec<[u8; 4]> = (0..w * h).map(|i| px[i % h * w + i / h]).collect();
    expect(&format!("{what}, by columns"), &g, h, w, &floats(&turned))
}
fn pixel(pat: usize, i: usize) -> [u8; 4] {
    let b = (i.wrapping_mul(2654435761) >> 7) as u8;
    match pat {
        0 => [200, 10, 130, 128],
        1 => [b | 128, i as u8, 255 - b, 120 + b % 16],
        2 => [if i / 5 % 2 == 0 { 140 } else { b | 128 }, (i / 3) as u8, 9, 125 + (i / 9 % 3) as u8],
        _ => [(i / 131) as u8, 128, if i % 129 == 0 { 1 } else { 2 }, 128]
    }
}
fn headers(ch: &mut Ch) -> Res {
    let magic = ch.pick(&["#?RADIANCE", "#?RGBE"]);
    const LINES: [&str; 8] = [
        "# a comment = with an equals sign", "FORMAT=32-bit_rle_rgbe", "EXPOSURE= 1.25 ", "VIEW=-vtv -vp 1 2 3 = 4",
        "pfilt -e 1.0", "#", "K=", "EXPOSURE=2"
    ];
    let n = ch.choose(if ch.thorough() { 5 } else { 4 });
    let mut s = format!("{magic}\n");
    let mut want = std::collections::BTreeMap::new();
    for _ in 0..n {
        let l = ch.pick(&LINES);
        s.push_str(l);
        s.push('\n');
        if !l.starts_with('#') {
            if let Some((k, v)) = l.split_once('=') {
                want.insert(k.trim().to_string(), v.trim().to_string());
            }
        }
    }
    let (w, h) = ch.pick(&[(1usize, 1usize), (3, 2), (2, 5), (7, 1)]);
    s.push_str(&format!("\n-Y {h} +X {w}\n"));
    let mut f = s.clone().into_bytes();
    let px: Vec<[u8; 4]> = (0..w * h).map(|i| pixel(1, i)).collect();
    f.extend(px.concat());
    ch.state(hash_bytes(&f));
    ch.note(|| format!("{s:?}"));
    let calls = ch.choose(3);
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    if d.dimensions().is_some() || d.output_buffer_size().is_some() {
        return bad("early", "dimensions are reported before the headers are read");
    }
    for _ in 0..calls {
        if let Err(e) = d.decode_headers() {
            return bad("rejected", format!("{s:?}: {e:?}"));
        }
        if d.dimensions() != Some((w, h)) {
            return bad("announced", format!("{s:?}: {:?}", d.dimensions()));
        }
    }
    let g = match ch.choose(3) {
        0 => match d.decode() {
            Ok(g) => g,
            Err(e) => return bad("rejected", format!("{s:?}: {e:?}"))
        },
        1 => {
            let mut b = vec![-7.0f32; w * h * 3 + 4];
            if let Err(e) = d.decode_into(&mut b) {
                return bad("rejected", format!("{s:?}: {e:?}"));
            }
            if b[w * h * 3..].iter().any(|x| *x != -7.0) {
                return bad("surplus", format!("{s:?}: elements after the image were written"));
            }
            b.truncate(w * h * 3);
            b
        }
        _ => {
            let mut b = vec![0.0f32; w * h * 3 - 1];
            if d.decode_into(&mut b).is_ok() {
                return bad("short-sink", "a buffer one element too short was accepted");
            }
            return Ok(());
        }
    };
    if !same(&g, &floats(&px)) {
        return bad("pixels", format!("{s:?}: the pixels differ"));
    }
    if *d.metadata() != want {
        return bad("metadata", format!("{s:?}: metadata {:?}, not {want:?}", d.metadata()));
    }
    Ok(())
}
fn malformed(ch: &mut Ch) -> Res {
    let new = ch.flag();
    let w = if new { 9 } else { 4 };
    let px: Vec<[u8; 4]> = (0..w * 2).map(|i| pixel(1, i)).collect();
    let mut f = head(w, 2);
    let start = f.len();
    for row in px.chunks(w) {
        if new {
            f.extend(new_rle(row, &mut |_, n| n.min(4)));
        } else {
            f.extend(row.concat());
        }
    }
    match ch.choose(3) {
        0 => {
            let cut = ch.choose(f.len());
            ch.state(cut as u64);
            if HdrDecoder::new(ZCursor::new(&f[..cut])).decode().is_ok() {
                return bad("truncated", format!("new coding {new}: a file cut after {cut} of {} bytes (raster at {start}) was decoded", f.len()));
            }
        }
        1 => {
            let m = ch.pick(&["#?RADIANCX\n", "#?rgbe\n", "RADIANCE\n", "#?RGB\n", "?#RGBE\n", "\n"]);
            let mut g = m.as_bytes().to_vec();
            g.extend(&f[11..]);
            if HdrDecoder::new(ZCursor::new(g)).decode().is_ok() {
                return bad("magic", format!("the magic {m:?} was accepted"));
            }
        }
        _ => {
            let d = ch.pick(&["-Y 2 -X 4", "+Y 2 +X 4", "-X 4 +Y 2", "-Y 2 +X -4", "-Y two +X 4", "-Y 2 +X", "-Y 2.0 +X 4", "", "-Y 99999999999999999999999 +X 4", "-Y -2 +X 4"]);
            let mut g = format!("#?RADIANCE\n\n{d}\n").into_bytes();
            g.extend(&f[start..]);
            if HdrDecoder::new(ZCursor::new(g)).decode().is_ok() {
                return bad("resolution", format!("the resolution line {d:?} was accepted"));
            }
        }
    }
    Ok(())
}
/// A strict reader of what the encoder writes
fn strict(f: &[u8]) -> Result<(usize, usize, Vec<[u8; 4]>, Vec<String>), String> {
    let mut at = 0;
    let mut line = || -> Result<String, String> {
        let n = f[at..].iter().position(|b| *b == b'\n').ok_or("no line end")?;
        let s = String::from_utf8(f[at..at + n].to_vec()).map_err(|e| e.to_string())?;
        at += n + 1;
        Ok(s)
    };
    if line()? != "#?RADIANCE" {
        return Err("no magic".into());
    }
    let mut hs = vec![];
    loop {
        let l = line()?;
        if l.is_empty() {
            break;
        }
        hs.push(l);
    }
    if !hs.iter().any(|h| h == "FORMAT=32-bit_rle_rgbe") {
        return Err("no format line".into());
    }
    let res = line()?;
    let t: Vec<&str> = res.split(' ').collect();
    if t.len() != 4 || t[0] != "-Y" || t[2] != "+X" {
        return Err(format!("resolution line {res:?}"));
    }
    let (h, w): (usize, usize) = (t[1].parse().map_err(|_| "height")?, t[3].parse().map_err(|_| "width")?);
    let mut b = f[at..].iter().copied();
    let mut px = vec![];
    for _ in 0..h {
        let mut row = vec![[0u8; 4]; w];
        if (8..=32767).contains(&w) {
            let hd: Vec<u8> = b.by_ref().take(4).collect();
            if hd != [2, 2, (w >> 8) as u8, w as u8] {
                return Err(format!("scanline head {hd:?}"));
            }
            for c in 0..4 {
                let mut i = 0;
                while i < w {
                    let n = b.next().ok_or("cut")? as usize;
                    let (n, run) = if n > 128 { (n - 128, Some(b.next().ok_or("cut")?)) } else { (n, None) };
                    if n == 0 || i + n > w {
                        return Err(format!("a code of {n} at {i} of {w}"));
                    }
                    for _ in 0..n {
                        row[i][c] = match run {
                            Some(v) => v,
                            None => b.next().ok_or("cut")?
                        };
                        i += 1;
                    }
                }
            }
        } else {
            for p in row.iter_mut() {
                for c in p.iter_mut() {
                    *c = b.next().ok_or("cut")?;
                }
                if p[..3] == [1, 1, 1] {
                    return Err("a flat pixel that reads as a repeat".into());
                }
            }
        }
        px.extend(row);
    }
    if b.next().is_some() {
        return Err("bytes after the image".into());
    }
    Ok((w, h, px, hs))
}
/// decoded must be the largest multiple of the step of the brightest component not above the value
fn close(x: &[f32], y: &[f32]) -> Option<String> {
    for (i, (p, q)) in x.chunks(3).zip(y.chunks(3)).enumerate() {
        let m = p.iter().fold(0.0f64, |a, b| a.max(f64::from(*b)));
        let ok = if m <= f64::from(1e-32f32) {
            q.iter().all(|v| *v == 0.0)
        } else {
            let mut e = 0i32;
            while m >= f64::from(e).exp2() {
                e += 1;
            }
            while m < f64::from(e - 1).exp2() {
                e -= 1;
            }
            let step = f64::from(e.min(127) - 8).exp2();
            p.iter().zip(q).all(|(a, b)| {
                let a = f64::from(*a).clamp(0.0, 255.999 * step);
                let b = f64::from(*b);
                b <= a && a - b < step
            })
        };
        if !ok {
            return Some(format!("pixel {i}: {p:?} came back as {q:?}"));
        }
    }
    None
}
fn encode(ch: &mut Ch) -> Res {
    let which = ch.choose(3);
    let (w, h, data, what): (usize, usize, Vec<f32>, String);
    match which {
        0 => {
            w = ch.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 126, 127, 128, 129, 130, 255, 256, 257, 300, 16384]);
            h = if w > 1000 { 1 } else { ch.pick(&[1usize, 2, 3]) };
            let pat = ch.choose(7);
            data = (0..w * h).flat_map(|i| {
                let b = (i.wrapping_mul(2654435761) >> 9) as u8;
                match pat {
                    0..=3 => { let p = pixel(pat, i); [val(p[0], p[3]), val(p[1], p[3]), val(p[2], p[3])] }
                    4 => [f32::from(b) / 255.0, (i % 17) as f32 / 3.0, 0.1],
                    5 => [1e-33, 1e-32 * (i % 3) as f32, 1e30 * f32::from(b)],
                    _ => [-1.0, f32::from(b) - 100.0, if i % 5 < 4 { 2.5 } else { 1.0 }]
                }
            }).collect();
            what = format!("encode {w}x{h} pattern {pat}");
        }
        1 => {
            // every run structure over a two letter alphabet
            w = ch.pick(&[8usize, 11]);
            h = 1;
            let bits = ch.choose(1 << w);
            data = (0..w).flat_map(|i| if bits >> i & 1 == 1 { [1.0f32, 0.5, 0.25] } else { [1.0, 0.75, 0.125] }).collect();
            what = format!("encode runs {bits:b} of {w}");
        }
        _ => {
            // runs of chosen lengths: literals and runs around the limits of both codes
            let mut v = vec![];
            let mut lens = vec![];
            for k in 0..3 {
                let n = ch.pick(&[1usize, 3, 4, 5, 126, 127, 128, 129, 254, 255, 258]);
                let lit = ch.flag();
                lens.push((n, lit));
                for i in 0..n {
                    let x = if lit { 0.5 + ((i * 7 + k) % 120) as f32 / 256.0 } else { 0.5 + (121 + k) as f32 / 256.0 };
                    v.extend([x, 0.5, 0.25]);
                }
            }
            w = v.len() / 3;
            h = 1;
            data = v;
            what = format!("encode segments {lens:?} (length, literal)");
        }
    }
    ch.note(|| what.clone());
    let mut hs = HashMap::new();
    let hk = if which == 0 { ch.choose(3) } else { 0 };
    if hk > 0 {
        hs.insert("EXPOSURE".to_string(), "1.5".to_string());
        if hk > 1 {
            hs.insert("VIEW".to_string(), "a=b c".to_string());
        }
    }
    let bytes: Vec<u8> = data.iter().flat_map(|x| x.to_ne_bytes()).collect();
    ch.state(hash_bytes(&bytes));
    let mut e = HdrEncoder::new(&data, EncoderOptions::new(w, h, ColorSpace::RGB, BitDepth::Float32));
    if hk > 0 {
        e.add_headers(&hs);
    }
    let mut out = vec![];
    match e.encode(&mut out) {
        Err(e) => return bad("encode-rejected", format!("{what}: {e:?}")),
        Ok(n) if n != out.len() => return bad("encode-count", format!("{what}: reported {n} of {} bytes", out.len())),
        Ok(_) => {}
    }
    match strict(&out) {
        Err(e) => return bad("encode-format", format!("{what}: the file is not a valid HDR file: {e}")),
        Ok((w2, h2, px, lines)) => {
            if (w2, h2) != (w, h) {
                return bad("encode-dims", format!("{what}: the file says {w2}x{h2}"));
            }
            if let Some(m) = close(&data, &floats(&px)) {
                return bad("encode-pixels", format!("{what}: {m}"));
            }
            for (k, v) in &hs {
                if !lines.iter().any(|l| *l == format!("{k}={v}")) {
                    return bad("encode-headers", format!("{what}: the header {k}={v} is missing from {lines:?}"));
                }
            }
            expect(&what, &out, w, h, &floats(&px))
        }
    }
}
fn representable(ch: &mut Ch) -> Res {
    // every mantissa and exponent that is exact in the format survives a round trip
    let e = 23 + ch.choose(233);
    let m = 128 + ch.choose(128);
    let mut data = vec![];
    for o in [0usize, 1, 77, m] {
        data.extend([val(m as u8, e as u8), val(o as u8, e as u8), val((o ^ 5).min(m) as u8, e as u8)]);
    }
    ch.state((e * 256 + m) as u64);
    let mut out = vec![];
    if let Err(e) = HdrEncoder::new(&data, EncoderOptions::new(4, 1, ColorSpace::RGB, BitDepth::Float32)).encode(&mut out) {
        return bad("encode-rejected", format!("{e:?}"));
    }
    match HdrDecoder::new(ZCursor::new(&out)).decode() {
        Ok(g) if same(&g, &data) => Ok(()),
        r => bad("round-trip", format!("{data:?} came back as {r:?}"))
    }
}
