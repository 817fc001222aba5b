//! C18 BMP
use crate::engine::*;
use crate::refs::bmp::*;
use crate::util::*;
use crate::Check;
use zune_bmp::BmpDecoder;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C18",
        level: "model_checking",
        rule: "every information header size x depth x orientation x compression x small dimension (hence every row padding), palette sizes, gaps and bit-field masks, all pixels exercised, plus every run-length command sequence of the bound, decoded in RGB and BGR order and compared with the pixels the file was built from; for run-length data a state is (row, column, pixels)",
        assumptions: &["bit fields narrower or wider than 8 bits may be scaled by any rule that is less than one step off and exact at both ends", "pixels a run-length stream skips have colour 0"],
        scenarios: |_| vec![
            Scenario { name: "layouts", f: layouts },
            Scenario { name: "palettes", f: palettes },
            Scenario { name: "bit-fields", f: bitfields },
            Scenario { name: "values", f: values },
            Scenario { name: "rle8", f: rle8 },
            Scenario { name: "rle4", f: rle4 },
            Scenario { name: "rle-lengths", f: rle_lengths },
            Scenario { name: "headers", f: headers }
        ]
    }]
}

fn verify(ch: &mut Ch, b: &Bmp, what: &str) -> Res {
    let f = b.file();
    verify_file(ch, b, &f, what)
}
fn verify_file(ch: &mut Ch, b: &Bmp, f: &[u8], what: &str) -> Res {
    ch.note(|| format!("{what}: {}", show(f)));
    ch.state(hash_bytes(f));
    ch.obs_bytes(f);
    let e = b.expect();
    let n = b.comps();
    for bgr in [false, true] {
        let mut d = BmpDecoder::new(ZCursor::new(f));
        d.preserve_bgra(bgr);
        let g = match d.decode() {
            Ok(g) => g,
            Err(x) => return bad("rejected", format!("{what}: a valid file was rejected: {x:?}; file {}", show(f)))
        };
        let cs = match (n, bgr) {
            (1, _) => ColorSpace::Luma,
            (3, false) => ColorSpace::RGB,
            (3, true) => ColorSpace::BGR,
            (_, false) => ColorSpace::RGBA,
            _ => ColorSpace::BGRA
        };
        if d.dimensions() != Some((b.w, b.h)) || d.colorspace() != Some(cs) {
            return bad("header", format!("{what}: reported {:?} {:?}, expected {}x{} {cs:?}", d.dimensions(), d.colorspace(), b.w, b.h));
        }
        if g.len() != e.len() {
            return bad("size", format!("{what}: {} samples, expected {}", g.len(), e.len()));
        }
        for (i, x) in e.iter().enumerate() {
            let j = if bgr && n >= 3 && i % n < 3 { i - i % n + 2 - i % n } else { i };
            if !scaled_ok(g[j], *x) {
                return bad(
                    if bgr { "samples-bgr" } else { "samples" },
                    format!("{what}{}: pixel ({},{}) channel {} is {}, expected {}/{}", if bgr { " in BGR order" } else { "" }, i / n % b.w, i / n / b.w, i % n, g[j], x.0, x.1)
                );
            }
        }
    }
    Ok(())
}

fn masks_for(bpp: usize) -> [u32; 4] {
    if bpp == 16 {
        [0xF800, 0x07E0, 0x001F, 0]
    } else {
        [0x00FF_0000, 0x0000_FF00, 0x0000_00FF, 0]
    }
}
fn layouts(ch: &mut Ch) -> Res {
    let ih = ch.pick(&[40, 12, 16, 52, 56, 64, 108, 124]);
    let (bpp, comp) = ch.pick(&[(1, Comp::Rgb), (2, Comp::Rgb), (4, Comp::Rgb), (8, Comp::Rgb), (16, Comp::Rgb), (24, Comp::Rgb), (32, Comp::Rgb), (16, Comp::Bitfields), (32, Comp::Bitfields)]);
    if comp == Comp::Bitfields && matches!(ih, 12 | 16 | 64) {
        ch.discard();
        return Ok(());
    }
    let topdown = ih != 12 && ch.flag();
    let m = if ch.thorough() { 40 } else { 18 };
    let (w, h) = match ch.choose(2) {
        0 => (1 + ch.choose(m), 1 + ch.choose(if ch.thorough() { 8 } else { 4 })),
        _ => ch.pick(&[(31, 1), (32, 2), (33, 2), (63, 3), (64, 2), (65, 2), (127, 64), (127, 5), (1000, 3), (2, 500), (257, 33), (1, 16384), (16384, 1)])
    };
    let mut b = Bmp::new(ih, w, h, bpp, (w * 31 + h * 7 + bpp) as u32);
    b.topdown = topdown;
    b.comp = comp;
    if comp == Comp::Bitfields {
        b.masks = masks_for(bpp);
    } else {
        b.junk = ch.flag();
        if b.junk {
            // masks count only if the compression says so
            b.masks = [0x7F0, 0xF, 0xF000, 0];
        }
    }
    verify(ch, &b, &format!("header {ih}, {bpp} bits {comp:?}, {w}x{h}{}{}", if topdown { " top-down" } else { "" }, if b.junk { " with values in unused fields" } else { "" }))
}
fn palettes(ch: &mut Ch) -> Res {
    let ih = ch.pick(&[40, 108, 124, 12]);
    let bpp = ch.pick(&[1usize, 2, 4, 8]);
    let full = 1usize << bpp;
    let used = ch.pick(&[full, 1, 2, full / 2 + 1, full - 1]).clamp(1, full);
    let explicit = ch.flag();
    let gap = ch.pick(&[0usize, 1, 2, 4, 13, 400]);
    let (w, h) = ch.pick(&[(1, 1), (5, 3), (17, 2)]);
    if ih == 12 && (used != full || explicit) {
        ch.discard();
        return Ok(());
    }
    let mut b = Bmp::new(ih, w, h, bpp, (used * 3 + gap) as u32);
    b.palette.truncate(used);
    // without a count the palette has to be complete
    if !explicit && used != full {
        ch.discard();
        return Ok(());
    }
    b.used = if explicit { used } else { 0 };
    for p in b.px.iter_mut() {
        *p %= used as u32;
    }
    b.gap = gap;
    b.tail = pattern(ch.pick(&[0, 1, 7]), 3);
    verify(ch, &b, &format!("header {ih}, {bpp} bits, {used} colours (count field {}), gap {gap}, {w}x{h}", b.used))?;
    if bpp == 8 && ih == 40 && used == full {
        // without a palette: grey
        b.palette.clear();
        b.gap = 0;
        b.used = 0;
        verify(ch, &b, &format!("8 bits without palette, {w}x{h}"))?;
    }
    if bpp == 8 {
        // palettes of true-colour files are ignored
        for deep in [16, 24, 32] {
            let mut c = Bmp::new(ih, w, h, deep, 5);
            c.palette = b.palette.clone();
            c.used = b.used;
            c.gap = gap;
            verify(ch, &c, &format!("header {ih}, {deep} bits with an unused palette of {used}, gap {gap}, {w}x{h}"))?;
        }
    }
    Ok(())
}
/// contiguous masks of every width at every position
fn bitfields(ch: &mut Ch) -> Res {
    let ih = ch.pick(&[40, 52, 56, 108, 124]);
    let bpp = ch.pick(&[16usize, 32]);
    let wr = 1 + ch.choose(if bpp == 16 { 8 } else { 11 });
    let wg = ch.pick(&[1usize, 5, 6, 8, 10]);
    let wb = ch.pick(&[1usize, 4, 5, 8]);
    let wa = if ih >= 56 { ch.pick(&[0usize, 1, 2, 4, 8]) } else { 0 };
    let order = ch.choose(6);
    let low = ch.pick(&[0usize, 1]);
    if wr + wg + wb + wa + low > bpp {
        ch.discard();
        return Ok(());
    }
    let widths = [wr, wg, wb, wa];
    let ord = [[0, 1, 2, 3], [2, 1, 0, 3], [3, 0, 1, 2], [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]][order];
    let mut masks = [0u32; 4];
    let mut at = low;
    for c in ord {
        if widths[c] > 0 {
            masks[c] = ((1u64 << widths[c]) - 1 << at) as u32;
        }
        at += widths[c];
    }
    let mut b = Bmp::new(ih, 5, 3, bpp, (wr * 64 + wg * 16 + order) as u32);
    b.comp = Comp::Bitfields;
    b.masks = masks;
    b.px[0] = 0;
    b.px[1] = if bpp == 16 { 0xffff } else { u32::MAX };
    b.px[2] = masks[0];
    b.px[3] = masks[1];
    b.px[4] = masks[2];
    b.px[5] = masks[3];
    verify(ch, &b, &format!("header {ih}, {bpp} bits, masks {masks:x?}"))
}
/// every value of a sample
fn values(ch: &mut Ch) -> Res {
    let bpp = ch.pick(&[8usize, 16, 24, 32]);
    let v = ch.choose(256) as u32;
    let pos = ch.choose(bpp / 8);
    let mut b = Bmp::new(40, 3, 2, bpp, v);
    for (i, p) in b.px.iter_mut().enumerate() {
        let x = (v + i as u32 * 41) & 255;
        *p = *p & !(255 << 8 * pos) | x << 8 * pos;
    }
    verify(ch, &b, &format!("{bpp} bits, byte {pos} = {v}.."))
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum R {
    Run(usize, u8),
    Abs(usize),
    Delta(usize, usize),
    Eol,
    Eob
}
struct Canvas {
    w:   usize,
    h:   usize,
    x:   usize,
    /// rows from the bottom
    y:   usize,
    px:  Vec<u32>,
    out: Vec<u8>
}
impl Canvas {
    fn new(w: usize, h: usize) -> Canvas {
        Canvas { w, h, x: 0, y: 0, px: vec![0; w * h], out: vec![] }
    }
    fn put(&mut self, v: u32) {
        let i = (self.h - 1 - self.y) * self.w + self.x;
        self.px[i] = v;
        self.x += 1;
    }
    /// false: outside the format
    fn step(&mut self, bits: usize, r: R) -> bool {
        match r {
            R::Run(n, v) => {
                if self.y >= self.h || self.x + n > self.w {
                    return false;
                }
                self.out.extend([n as u8, v]);
                for i in 0..n {
                    self.put(if bits == 8 { v as u32 } else if i % 2 == 0 { (v >> 4) as u32 } else { (v & 15) as u32 });
                }
            }
            R::Abs(n) => {
                if self.y >= self.h || self.x + n > self.w {
                    return false;
                }
                self.out.extend([0, n as u8]);
                let vals: Vec<u8> = (0..n).map(|i| if bits == 8 { (i * 37 + self.x * 3 + self.y) as u8 } else { ((i * 5 + self.x + 1) & 15) as u8 }).collect();
                let mut d: Vec<u8> = if bits == 8 {
                    vals.clone()
                } else {
                    vals.chunks(2).map(|c| c[0] << 4 | c.get(1).copied().unwrap_or(0)).collect()
                };
                if d.len() % 2 == 1 {
                    d.push(0);
                }
                self.out.extend(d);
                for v in vals {
                    self.put(v as u32);
                }
            }
            R::Delta(dx, dy) => {
                if self.x + dx >= self.w || self.y + dy >= self.h {
                    return false;
                }
                self.out.extend([0, 2, dx as u8, dy as u8]);
                self.x += dx;
                self.y += dy;
            }
            R::Eol => {
                if self.y >= self.h {
                    return false;
                }
                self.out.extend([0, 0]);
                self.x = 0;
                self.y += 1;
            }
            R::Eob => self.out.extend([0, 1])
        }
        true
    }
}
fn rle(ch: &mut Ch, bits: usize) -> Res {
    let (w, h) = ch.pick(&[(5, 3), (4, 2), (1, 2), (8, 1)]);
    let depth = if ch.thorough() { 7 } else { 5 };
    let mut c = Canvas::new(w, h);
    let mut ended = false;
    let acts: [R; 11] = [
        R::Eob,
        R::Eol,
        R::Run(1, 0x5A),
        R::Run(2, 0x12),
        R::Run(3, 0xF3),
        R::Run(5, 0x4E),
        R::Abs(3),
        R::Abs(4),
        R::Abs(5),
        R::Delta(1, 0),
        R::Delta(1, 1)
    ];
    let mut trail = String::new();
    for _ in 0..depth {
        let a = ch.pick(&acts);
        if !c.step(bits, a) {
            ch.discard();
            return Ok(());
        }
        trail.push_str(&format!("{a:?} "));
        ch.state(hash_bytes(&[&[c.x as u8, c.y as u8, w as u8, h as u8], &c.px.iter().map(|x| *x as u8).collect::<Vec<_>>()[..]].concat()));
        if a == R::Eob {
            ended = true;
            break;
        }
    }
    if !ended {
        c.step(bits, R::Eob);
    }
    let mut b = Bmp::new(40, w, h, bits, 77);
    b.comp = if bits == 8 { Comp::Rle8 } else { Comp::Rle4 };
    b.px = c.px;
    b.rle = c.out;
    b.tail = vec![9; ch.pick(&[0, 3])];
    verify(ch, &b, &format!("RLE{bits} {w}x{h}: {trail}"))
}
fn rle8(ch: &mut Ch) -> Res {
    rle(ch, 8)
}
fn rle4(ch: &mut Ch) -> Res {
    rle(ch, 4)
}
/// every run and literal length, at even and odd columns
fn rle_lengths(ch: &mut Ch) -> Res {
    let bits = ch.pick(&[8usize, 4]);
    let n = 1 + ch.choose(255);
    let lit = ch.flag();
    let off = ch.choose(3);
    let slack = ch.pick(&[0usize, 1, 2]);
    if lit && n < 3 {
        ch.discard();
        return Ok(());
    }
    let w = off + n + slack;
    let mut c = Canvas::new(w, 2);
    let mut ok = true;
    for _ in 0..2 {
        if off > 0 {
            ok &= c.step(bits, R::Run(off, 0x9C));
        }
        ok &= c.step(bits, if lit { R::Abs(n) } else { R::Run(n, 0x6B) });
        if slack > 0 {
            ok &= c.step(bits, R::Run(slack, 0xD1));
        }
        ok &= c.step(bits, R::Eol);
    }
    assert!(ok);
    c.step(bits, R::Eob);
    let mut b = Bmp::new(40, w, 2, bits, 78);
    b.comp = if bits == 8 { Comp::Rle8 } else { Comp::Rle4 };
    b.px = c.px;
    b.rle = c.out;
    verify(ch, &b, &format!("RLE{bits}: offset {off}, {} of {n}, then {slack}", if lit { "literals" } else { "run" }))
}

/// primaries and profiles of the later header versions are reported as stored, and only those
fn headers(ch: &mut Ch) -> Res {
    let ih = ch.pick(&[124usize, 108, 40, 12, 16, 52, 56, 64]);
    let bpp = ch.pick(&[24usize, 8, 32, 1]);
    let (w, h) = ch.pick(&[(3, 2), (1, 1), (8, 5)]);
    let b = Bmp::new(ih, w, h, bpp, (ih + bpp) as u32);
    let mut f = b.file();
    let end = f.len();
    let kind = if ih >= 108 { ch.pick(&[0x7352_4742u32, 0x4D42_4544, 0x4C49_4E4B, 0x5769_6E20, 0]) } else { 0 };
    let mut prim = [0u32; 9];
    let mut prof = None;
    if ih >= 108 {
        f[70..74].copy_from_slice(&kind.to_le_bytes());
        let at = ch.choose(10);
        for (i, p) in prim.iter_mut().enumerate() {
            *p = if i == at { 0xFFFF_FFFF } else { (i as u32 + 1) * 0x0765_4321 };
            f[74 + 4 * i..78 + 4 * i].copy_from_slice(&p.to_le_bytes());
        }
    }
    if ih == 124 {
        let intent = ch.pick(&[0u32, 1, 2, 4, 8, 9]);
        f[122..126].copy_from_slice(&intent.to_le_bytes());
        let n = ch.pick(&[0usize, 1, 2, 131, 5000]);
        let gap = ch.pick(&[0usize, 1, 37]);
        let p = pattern(n, 9);
        if n > 0 {
            f.resize(end + gap, 0x11);
            f.extend(&p);
            f.extend(pattern(ch.pick(&[0, 3]), 4));
            f[126..130].copy_from_slice(&((end + gap - 14) as u32).to_le_bytes());
            f[130..134].copy_from_slice(&(n as u32).to_le_bytes());
            prof = (kind == 0x4D42_4544).then_some(p);
        }
    }
    let what = format!("header {ih}, {bpp} bits {w}x{h}, colour space {kind:x}, profile of {:?}", prof.as_ref().map(|p| p.len()));
    if !zune_bmp::probe_bmp(&f) {
        return bad("probe", format!("{what}: not recognised as BMP"));
    }
    verify_file(ch, &b, &f, &what)?;
    let mut d = BmpDecoder::new(ZCursor::new(&f));
    if d.icc_profile().is_some() || d.color_primaries().is_some() {
        return bad("early", format!("{what}: metadata before the headers are read"));
    }
    for call in ["decode_headers", "decode"] {
        let r = if call == "decode" { d.decode().map(|_| ()) } else { d.decode_headers() };
        if let Err(e) = r {
            return bad("rejected", format!("{what}: {call}: {e:?}"));
        }
        if ih != 124 || prof.is_some() || kind != 0x4D42_4544 {
            if d.icc_profile() != prof.as_ref() {
                return bad("profile", format!("{what}: after {call} the profile has {:?} bytes", d.icc_profile().map(|p| p.len())));
            }
        }
        let got = d.color_primaries().map(|p| [p.red.x, p.red.y, p.red.z, p.green.x, p.green.y, p.green.z, p.blue.x, p.blue.y, p.blue.z]);
        let want = (ih >= 108).then(|| prim.map(|x| f64::from(x) / 1_073_741_824.0));
        if got != want {
            return bad("primaries", format!("{what}: after {call} the primaries are {got:?}, stored are {want:?}"));
        }
    }
    // other magic bytes and header sizes are not BMP
    let at = ch.pick(&[0usize, 1, 14]);
    let v = ch.pick(&[0u8, 1, 11, 13, 41, 66, 77, 255]);
    let mut g = f.clone();
    g[at] = v;
    let sizes = [12u8, 16, 40, 52, 56, 64, 108, 124];
    let want = if at == 14 { sizes.contains(&v) } else { v == f[at] };
    if zune_bmp::probe_bmp(&g) != want {
        return bad("probe", format!("{what} with byte {at} set to {v}: recognised is {}", !want));
    }
    for cut in [0, 1, 2, 14] {
        if zune_bmp::probe_bmp(&f[..cut]) {
            return bad("probe", format!("{what}: {cut} bytes are recognised as BMP"));
        }
    }
    Ok(())
}
