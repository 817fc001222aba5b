//! C22 JPEG
use crate::engine::*;
use crate::refs::jpeg::*;
use crate::Check;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        level: "model_checking",
        rule: "every sampling layout x small dimension x coefficient pattern, coded as baseline, in separate scans, with every restart interval and every progressive script of the bound, compared with the baseline decoding of the same coefficients (identical) and with the ideal transform and colour conversion (within the bound); a state is the coded file",
        assumptions: &["chroma is interpolated with the 3:1 filter for a factor of 2 and repeated for larger factors"],
        scenarios: |_| vec![
            Scenario { name: "accuracy", f: accuracy },
            Scenario { name: "codings", f: codings },
            Scenario { name: "scripts", f: scripts },
            Scenario { name: "tables", f: tables },
            Scenario { name: "large", f: large }
        ]
    }]
}
pub fn decode(f: &[u8], o: DecoderOptions) -> Result<(usize, usize, Vec<u8>), String> {
    let mut d = JpegDecoder::new_with_options(ZCursor::new(f), o);
    let v = d.decode().map_err(|e| format!("{e:?}"))?;
    let (w, h) = d.dimensions().ok_or("no dimensions")?;
    Ok((w, h, v))
}
pub fn strict() -> DecoderOptions {
    DecoderOptions::default().set_strict_mode(true)
}
pub const SAMP: [&[(usize, usize)]; 16] = [&[(2, 2)], &[(1, 2)], &[(4, 1)], &[(1, 1)], &[(1, 1), (1, 1), (1, 1)], &[(2, 1), (1, 1), (1, 1)], &[(1, 2), (1, 1), (1, 1)], &[(2, 2), (1, 1), (1, 1)], &[(1, 1), (1, 1), (1, 1), (1, 1)], &[(4, 1), (1, 1), (1, 1)], &[(1, 4), (1, 1), (1, 1)], &[(2, 2), (2, 1), (2, 1)], &[(2, 2), (1, 2), (1, 2)], &[(4, 2), (1, 1), (1, 1)], &[(4, 4), (1, 1), (1, 1)], &[(2, 2), (1, 1), (1, 1), (2, 2)]];

fn accuracy(ch: &mut Ch) -> Res {
    let samp = *ch.pick_ref(&SAMP);
    let n = samp.len();
    let kind = ch.choose(7);
    let m = if ch.thorough() { 40 } else { 10 };
    let (w, h) = match ch.choose(2) {
        0 => (1 + ch.choose(m), 1 + ch.choose(m)),
        _ => ch.pick(&[(2056, 3), (3, 520), (31, 7), (32, 33), (33, 3), (47, 17), (48, 16), (49, 50), (64, 1), (1, 64), (65, 9)])
    };
    // the Adobe segment says how three or four components are coded; without it three are YCbCr, four CMYK
    let adobe = match n {
        3 => ch.pick(&[None, Some(1), Some(0)]),
        4 => ch.pick(&[None, Some(0), Some(2)]),
        _ => None
    };
    use ColorSpace::*;
    let (stored, outs): (ColorSpace, &[ColorSpace]) = match (n, adobe) {
        (1, _) => (Luma, &[Luma, RGB, RGBA]),
        (3, Some(0)) => (RGB, &[RGB]),
        (3, Some(_)) => (YCbCr, &[YCbCr, RGB]),
        (3, None) => (YCbCr, &[YCbCr, RGB, Luma, RGBA, BGR, BGRA]),
        (_, Some(2)) => (YCCK, &[YCCK, RGB, RGBA]),
        _ => (CMYK, &[CMYK, RGB, RGBA])
    };
    let out = *ch.pick_ref(outs);
    let mut j = Jpeg::new(w, h, samp, kind, (w * 7 + h) as u32);
    if let Some(t) = adobe {
        // later versions may add to the segment
        let extra = if kind % 2 == 1 { 8 + w % 9 } else { 0 };
        j.segs = vec![(0xEE, [&b"Adobe"[..], &[0, 100, 0, 0, 0, 0, t], &[0xFFu8, 0xD9].repeat(extra)].concat()), (0xEE, b"other vendor".to_vec())];
    }
    let f = j.file(&Coding::baseline(n));
    let what = format!("{samp:?} pattern {kind} {w}x{h} Adobe {adobe:?} to {out:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(&f));
    ch.obs(hash_bytes(what.as_bytes()));
    let (gw, gh, got) = match decode(&f, strict().jpeg_set_out_colorspace(out)) {
        Ok(x) => x,
        Err(e) => return bad("rejected", format!("{what}: {e}"))
    };
    if (gw, gh) != (w, h) || got.len() != w * h * out.num_components() {
        return bad("size", format!("{what}: {gw}x{gh}, {} bytes", got.len()));
    }
    let p: Vec<Vec<f64>> = (0..n).map(|c| j.full(c)).collect();
    let tri = (j.hmax(), j.vmax()) != (1, 1);
    for i in 0..w * h {
        let v: Vec<f64> = p.iter().map(|p| p[i]).collect();
        let to_rgb = |a: &[f64]| {
            vec![a[0] + 1.402 * (a[2] - 128.0), a[0] - 0.344136 * (a[1] - 128.0) - 0.714136 * (a[2] - 128.0), a[0] + 1.772 * (a[1] - 128.0)]
        };
        let mut want: Vec<f64> = match (stored, out) {
            (s, o) if s == o => v,
            (Luma, _) => vec![v[0]; 3],
            (YCbCr, Luma) => vec![v[0]],
            (YCbCr, _) => to_rgb(&v),
            (YCCK, _) => to_rgb(&v).iter().map(|x| (255.0 - x.clamp(0.0, 255.0)) * v[3] / 255.0).collect(),
            (CMYK, _) => (0..3).map(|i| v[i] * v[3] / 255.0).collect(),
            _ => v
        };
        if matches!(out, BGR | BGRA) {
            want.reverse();
        }
        if matches!(out, RGBA | BGRA) {
            want.push(255.0);
        }
        let tol = match (stored, out) {
            (Luma, _) | (YCbCr, Luma) => 1.01,
            (s, o) if s == o => if tri { 2.3 } else { 1.01 },
            (YCCK, _) => if tri { 10.0 } else { 6.0 },
            (CMYK, _) => if tri { 5.6 } else { 3.1 },
            _ => if tri { 6.5 } else { 4.0 }
        };
        for (k, x) in want.iter().enumerate() {
            let g = f64::from(got[i * want.len() + k]);
            if (g - x.clamp(0.0, 255.0)).abs() > tol {
                return bad("accuracy", format!("{what}: pixel ({}, {}) channel {k} is {g}, the ideal value is {x:.2}", i % w, i / w));
            }
        }
    }
    Ok(())
}
fn outs(j: &Jpeg) -> Vec<ColorSpace> {
    match j.comps.len() {
        // components called R, G and B are those
        3 if j.comps[0].id == b'R' => vec![ColorSpace::RGB],
        1 => vec![ColorSpace::Luma],
        3 => vec![ColorSpace::YCbCr, ColorSpace::RGB, ColorSpace::Luma],
        _ => vec![ColorSpace::CMYK]
    }
}
fn same(ch: &mut Ch, j: &Jpeg, cod: &Coding, what: &str) -> Res {
    let n = j.comps.len();
    let out = ch.pick(&outs(j));
    let what = format!("{what} to {out:?}");
    ch.note(|| what.clone());
    let f = j.file(cod);
    ch.state(hash_bytes(&f));
    ch.obs(hash_bytes(&f));
    let o = strict().jpeg_set_out_colorspace(out);
    let a = match decode(&j.file(&Coding::baseline(n)), o) {
        Ok(a) => a,
        Err(e) => return bad("baseline-rejected", format!("{what}: baseline: {e}"))
    };
    match decode(&f, o) {
        Err(e) => bad("rejected", format!("{what}: {e}")),
        Ok(b) if (a.0, a.1) != (b.0, b.1) || a.2.len() != b.2.len() => bad("size", format!("{what}: {}x{}, {} bytes", b.0, b.1, b.2.len())),
        Ok(b) => {
            let c = out.num_components();
            match a.2.iter().zip(&b.2).position(|(x, y)| x != y) {
                Some(i) => bad("pixels", format!("{what}: pixel ({}, {}) channel {} is {}, not {}", i / c % j.w, i / c / j.w, i % c, b.2[i], a.2[i])),
                None => Ok(())
            }
        }
    }
}
fn small_dims(ch: &mut Ch) -> (usize, usize) {
    ch.pick(&[(8, 8), (1, 1), (7, 9), (16, 16), (17, 15), (16, 17), (24, 40), (33, 31), (40, 9)])
}
fn codings(ch: &mut Ch) -> Res {
    let samp = *ch.pick_ref(&SAMP);
    let n = samp.len();
    let kind = if ch.thorough() { ch.choose(6) } else { ch.pick(&[1usize, 5]) };
    let (w, h) = if ch.thorough() { small_dims(ch) } else { ch.pick(&[(7, 9), (17, 15), (24, 40), (33, 31)]) };
    let mut j = Jpeg::new(w, h, samp, kind, (w + h) as u32);
    j.clear_padding();
    let mut cod = Coding::baseline(n);
    cod.sof = ch.pick(&[0xC0, 0xC1]);
    cod.dri = if ch.thorough() { ch.pick(&[0usize, 1, 2, 3, 5, 7, 8, 9, 300]) } else { ch.pick(&[0usize, 1, 3, 8]) };
    cod.huff = ch.choose(4) as u8;
    cod.joined = ch.flag();
    let split = ch.choose(if n == 1 { 1 } else { 4 });
    let sc = |c: Vec<usize>| Scan { comps: c, ss: 0, se: 63, ah: 0, al: 0 };
    match split {
        1 => cod.scans = (0..n).map(|c| sc(vec![c])).collect(),
        2 => cod.scans = vec![sc(vec![0]), sc((1..n).collect())],
        3 => cod.scans = vec![sc((0..n - 1).collect()), sc(vec![n - 1])],
        _ => {}
    }
    match ch.choose(3) {
        1 => {
            cod.fill = 1 + ch.choose(2);
            j.segs = vec![(0xFE, b"comment".to_vec()), (0xE5, vec![0xFF, 0xDA, 0xFF, 0xD9])];
        }
        2 => cod.pq16 = true,
        _ => {}
    }
    let what = format!("{samp:?} pattern {kind} {w}x{h} {:x} split {split} restarts {} codes {} fill {} joined {} 16-bit tables {}", cod.sof, cod.dri, cod.huff, cod.fill, cod.joined, cod.pq16);
    same(ch, &j, &cod, &what)
}
fn scripts(ch: &mut Ch) -> Res {
    let samp = *ch.pick_ref(&SAMP);
    let n = samp.len();
    let kind = if ch.thorough() { ch.choose(6) } else { ch.pick(&[1usize, 3, 5]) };
    let (w, h) = if ch.thorough() { small_dims(ch) } else { ch.pick(&[(9, 7), (33, 31)]) };
    let mut j = Jpeg::new(w, h, samp, kind, (w + h) as u32);
    j.clear_padding();
    let mut cod = Coding::baseline(n);
    cod.sof = 0xC2;
    let dc_al = ch.choose(3) as u8;
    let dc_sep = n > 1 && ch.flag();
    const CUTS: [&[usize]; 5] = [&[], &[5], &[1, 2], &[16, 17, 40], &[62]];
    let cuts = *ch.pick_ref(&CUTS);
    let ac_al = ch.choose(4) as u8;
    let order = ch.choose(3);
    cod.scans = script(n, dc_al, dc_sep, cuts, ac_al, order);
    if cod.scans.len() > 60 {
        ch.discard();
        return Ok(());
    }
    match ch.choose(3) {
        1 => cod.dri = ch.pick(&[1usize, 2, 7]),
        2 => cod.max_eob = ch.pick(&[1u32, 2, 3, 5]),
        _ => {}
    }
    cod.huff = if ch.thorough() { ch.choose(4) as u8 } else { ((kind + order) % 4) as u8 };
    let what = format!("{samp:?} pattern {kind} {w}x{h} progressive dc>>{dc_al} separate {dc_sep} bands {cuts:?} ac>>{ac_al} order {order} restarts {} eob {} codes {}", cod.dri, cod.max_eob, cod.huff);
    same(ch, &j, &cod, &what)
}
/// table numbers, component numbers, tables that stay in force, restart intervals and segments that change between scans
fn tables(ch: &mut Ch) -> Res {
    let samp = *ch.pick_ref(&[SAMP[3], SAMP[4], SAMP[7], SAMP[8], SAMP[13]]);
    let n = samp.len();
    let at = ch.choose(3);
    let (w, h) = [(17usize, 15usize), (33, 31), (64, 24)][at];
    let kind = [7usize, 6, 2, 5][if ch.thorough() { ch.choose(4) } else { (at + samp[0].0 + 2 * samp[0].1) % 4 }];
    let mut j = Jpeg::new(w, h, samp, kind, (w + h) as u32);
    j.clear_padding();
    match ch.choose(4) {
        1 => j.apart(&[0, 1, 2, 3]),
        2 => j.apart(&[200, 3, 255, 17]),
        3 => j.apart(b"RGBA"),
        _ => {}
    }
    let prog = ch.flag();
    let mut cod = Coding::baseline(n);
    cod.sof = if prog { 0xC2 } else { 0xC1 };
    let all = Scan { comps: (0..n).collect(), ss: 0, se: 63, ah: 0, al: 0 };
    let single = |c: usize| Scan { comps: vec![c], ss: 0, se: 63, ah: 0, al: 0 };
    let one_by_one = ch.flag();
    cod.scans = match (prog, one_by_one) {
        (true, s) => script(n, 1, s, &[5], 1, usize::from(s)),
        (_, true) => (0..n).map(single).collect(),
        _ => vec![all]
    };
    cod.tables = ch.choose(3) as u8;
    cod.huff = ch.choose(4) as u8;
    cod.joined = cod.huff % 2 == 1;
    cod.once = ch.flag();
    // an interval of a row of blocks, of one more and of one less
    let row = j.mcus().0;
    let (d, d2) = ch.pick(&[(0usize, None), (row, None), (row, Some(0)), (0, Some(row)), (row + 1, Some(1)), (2, Some(row.max(2) - 1)), (3, Some(2 * row))]);
    cod.dri = d;
    cod.dri2 = d2;
    let (com, app): ((u8, Vec<u8>), (u8, Vec<u8>)) = ((0xFE, b"between scans".to_vec()), (0xE3, vec![0xFF, 0xD9, 0xFF, 0xD8]));
    match ch.choose(4) {
        1 => cod.between = vec![com, app, (0xE1, b"Exif".to_vec()), (0xE2, vec![1; 40])],
        2 => cod.between = vec![app, com],
        3 => cod.between = vec![(ch.pick(&[0xE0, 0xE7, 0xEC, 0xEF]), vec![7; 20])],
        _ => {}
    }
    cod.late = ch.choose(if one_by_one && !prog { 3 } else { 2 }) as u8;
    let what = format!(
        "{samp:?} pattern {kind} {w}x{h} {:x} quantization tables {} ids {:?} one by one {one_by_one} tables {} codes {} once {} restarts {d} {d2:?} segments {}",
        cod.sof,
        cod.late,
        j.comps.iter().map(|c| c.id).collect::<Vec<_>>(),
        cod.tables,
        cod.huff,
        cod.once,
        cod.between.iter().map(|x| format!("{:x}", x.0)).collect::<Vec<_>>().join(" ")
    );
    same(ch, &j, &cod, &what)
}
/// images of many blocks: long rows, long columns, the longest end-of-block runs
fn large(ch: &mut Ch) -> Res {
    let (samp, w, h, kind) = match ch.choose(3) {
        0 => (SAMP[3], 1032, 2040, 8),
        k => {
            let samp = *ch.pick_ref(&[SAMP[3], SAMP[4], SAMP[5], SAMP[6], SAMP[7], SAMP[9], SAMP[11], SAMP[12]]);
            let (w, h) = ch.pick(&[(200usize, 210usize), (2060, 9), (9, 2060)]);
            (samp, w, h, if k == 1 { 8 } else { ch.pick(&[4usize, 7]) })
        }
    };
    let n = samp.len();
    let mut j = Jpeg::new(w, h, samp, kind, (w + h) as u32);
    j.clear_padding();
    let mut cod = Coding::baseline(n);
    match ch.choose(4) {
        0 => cod.scans = (0..n).map(|c| Scan { comps: vec![c], ss: 0, se: 63, ah: 0, al: 0 }).collect(),
        1 => {}
        k => {
            cod.sof = 0xC2;
            cod.scans = script(n, 1, k == 3, if k == 3 { &[5] } else { &[] }, (k == 3).into(), 0);
        }
    }
    cod.dri = ch.pick(&[0usize, 1, 7, 255, 256, 257, 4096, 40000]);
    cod.huff = ch.pick(&[0u8, 2]);
    if cod.sof == 0xC2 {
        cod.max_eob = ch.pick(&[0x7fffu32, 0x100]);
    }
    let what = format!("{samp:?} pattern {kind} {w}x{h} {:x} {} scans restarts {} codes {} eob {}", cod.sof, cod.scans.len(), cod.dri, cod.huff, cod.max_eob);
    same(ch, &j, &cod, &what)
}
