//! C03 delivery, C04 damage, C05 failing sources, C06 announcements, C07 limits, C08 queries, C23 accelerated paths
use crate::dec::*;
use crate::engine::*;
use crate::refs::{jpeg, png};
use crate::Check;
use std::io::{BufRead, BufReader, Error, ErrorKind, Read, Seek, SeekFrom};
use std::sync::OnceLock;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;

pub fn checks() -> Vec<Check> {
    let c = |id, rule, assumptions, scenarios| Check { id, level: "model_checking", rule, assumptions, scenarios };
    vec![
        c(
            "C03",
            "a corpus of small files of every format and mode read through every buffer size and read limit of the bound, with every single read call (thorough: every pair) cut short or interrupted, and followed by every kind of trailing bytes; results compared with decoding from memory; a state is a file with its delivery schedule",
            &["a reader may return fewer bytes than asked for and may report ErrorKind::Interrupted, as std::io::Read allows"],
            |_| vec![
                Scenario { name: "corpus", f: corpus_ok },
                Scenario { name: "buffers", f: buffers },
                Scenario { name: "short-at", f: short_at },
                Scenario { name: "trailing", f: trailing }
            ]
        ),
        c(
            "C04",
            "every truncation, every bit flip, every byte of an adversarial set at every position, every boundary value of every 16 and 32 bit field position, and all tiny inputs, over a corpus of every format and mode with small dimension limits, checked for panics, heap overruns, hangs and peak memory; a state is a damaged file",
            &["heap misuse is observed through a checking allocator: red zones behind every block, layouts on release"],
            |_| vec![
                Scenario { name: "bytes", f: damage_bytes },
                Scenario { name: "truncate", f: damage_truncate },
                Scenario { name: "fields", f: damage_fields },
                Scenario { name: "pairs", f: damage_pairs },
                Scenario { name: "splice", f: damage_splice },
                Scenario { name: "tiny", f: tiny }
            ]
        ),
        c(
            "C05",
            "every length at which a corpus file can be cut and every read call at which its source can fail, once or for good, for every lossless format; the decoder must fail or deliver the pixels of the intact file; a state is a file with its fault",
            &[],
            |_| vec![Scenario { name: "cut", f: cut }, Scenario { name: "fail", f: fail }]
        ),
        c(
            "C06",
            "every corpus file and option set: what is reported after the headers against what decoding delivers, and decoding into buffers of every size around the announced one; a state is a file with options and buffer size",
            &[],
            |_| vec![Scenario { name: "announced", f: announced }, Scenario { name: "buffers", f: into_buffers }]
        ),
        c(
            "C07",
            "every format and mode, dimensions and limits around each other, and announced dimensions far above the limit; a state is a file with its limits",
            &[],
            |_| vec![Scenario { name: "limits", f: limits }]
        ),
        c(
            "C08",
            "every sequence of calls up to the depth bound on every decoder and corpus file, followed by decoding, compared with a fresh decoder; a state is a file with its history",
            &[],
            |_| vec![Scenario { name: "histories", f: histories }]
        ),
        c(
            "C23",
            "every width around the vector lengths, colour type, depth, filter sequence, sampling layout and coefficient pattern in the bound decoded with and without platform intrinsics; a state is a file",
            &["the machine running the check supports the intrinsics (x86-64 with AVX2)"],
            |_| vec![Scenario { name: "switch", f: switch }, Scenario { name: "png", f: same_png }, Scenario { name: "jpeg", f: same_jpeg }, Scenario { name: "corpus", f: same_corpus }]
        ),
    ]
}

const DIMS: [(usize, usize); 3] = [(5, 4), (19, 3), (9, 17)];
fn items(k: usize) -> &'static [Item] {
    static C: [OnceLock<Vec<Item>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    C[k].get_or_init(|| corpus(DIMS[k].0, DIMS[k].1))
}
/// what decoding from memory gives; a file that is rejected is the business of the scenario "corpus"
fn reference(k: usize, i: usize) -> Option<&'static Seen> {
    static R: [OnceLock<Vec<Option<Seen>>>; 3] = [OnceLock::new(), OnceLock::new(), OnceLock::new()];
    R[k].get_or_init(|| items(k).iter().map(|x| std::panic::catch_unwind(|| decode(x.fmt, &x.bytes, options())).ok().and_then(|r| r.ok())).collect())[i].as_ref()
}
fn pick_item(ch: &mut Ch, dims: usize) -> (usize, usize) {
    let k = ch.choose(dims);
    let i = ch.choose(items(k).len());
    (k, i)
}
fn corpus_ok(ch: &mut Ch) -> Res {
    let k = ch.choose(3);
    let i = ch.choose(items(k).len());
    let it = &items(k)[i];
    ch.state(hash_bytes(&it.bytes));
    ch.obs(hash_bytes(it.name.as_bytes()));
    match decode(it.fmt, &it.bytes, options()) {
        Err(e) => bad("rejected", format!("{} {}x{}: {e}", it.name, it.w, it.h)),
        Ok(s) if s.dims != Some((it.w, it.h)) => bad("dimensions", format!("{}: {:?}", it.name, s.dims)),
        Ok(s) => {
            ch.obs_bytes(&s.bytes);
            Ok(())
        }
    }
}

/// what a read call does
#[derive(Copy, Clone, PartialEq, Debug)]
enum Act {
    Short,
    Interrupt,
    FailOnce,
    FailForGood
}
/// A seekable reader that delivers at most `limit` bytes a call, and acts at the given calls
struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    limit: usize,
    calls: usize,
    acts: [Option<(usize, Act)>; 2],
    count: Option<&'a std::cell::Cell<usize>>
}
impl<'a> Src<'a> {
    fn new(data: &'a [u8], limit: usize) -> Src<'a> {
        Src { data, pos: 0, limit, calls: 0, acts: [None; 2], count: None }
    }
    fn avail(&mut self) -> std::io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if let Some(n) = self.count {
            n.set(self.calls);
        }
        let mut limit = self.limit;
        for (at, act) in self.acts.iter().flatten() {
            match act {
                Act::Short if *at == c => limit = 1,
                Act::Interrupt if *at == c => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
                Act::FailOnce if *at == c => return Err(Error::new(ErrorKind::Other, "injected")),
                Act::FailForGood if c >= *at => return Err(Error::new(ErrorKind::Other, "injected")),
                _ => {}
            }
        }
        Ok(self.data.len().saturating_sub(self.pos).min(limit))
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.avail()?.min(buf.len());
        let s = self.pos.min(self.data.len());
        buf[..n].copy_from_slice(&self.data[s..s + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Src<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let n = self.avail()?;
        let s = self.pos.min(self.data.len());
        Ok(&self.data[s..s + n])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => self.data.len() as i64 + n,
            SeekFrom::Current(n) => self.pos as i64 + n
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek before the start"));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
/// a key that names the format too: every description starts with it
fn kf(what: &str, k: &str) -> String {
    format!("{} {k}", what.split_whitespace().next().unwrap_or("")).replace(' ', "-")
}
fn must_equal(what: &str, got: Result<Seen, String>, want: Option<&Seen>) -> Res {
    let Some(want) = want else { return Ok(()) };
    match got {
        Err(e) => bad(kf(&what, "fails"), format!("{what}: {}", e.trim())),
        Ok(s) => match differ(&s, want) {
            None => Ok(()),
            Some(m) => bad(kf(&what, "differs"), format!("{what}: {m}"))
        }
    }
}
fn buffers(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    let limit = ch.pick(&[1usize, 2, 3, 7, 64, usize::MAX]);
    let cap = ch.pick(&[0usize, 1, 2, 3, 4, 5, 8, 13, 32, 8192]);
    let what = format!("{} {}x{} reads of at most {limit} bytes through a buffer of {cap}", it.name, it.w, it.h);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    let s = Src::new(&it.bytes, limit);
    let got = match cap {
        0 => decode_from(it.fmt, s, options()),
        _ => decode_from(it.fmt, BufReader::with_capacity(cap, s), options())
    };
    must_equal(&what, got, reference(k, i))
}
fn calls_of(it: &Item, limit: usize, cap: usize) -> usize {
    let c = std::cell::Cell::new(0);
    let mut s = Src::new(&it.bytes, limit);
    s.count = Some(&c);
    let _ = run_src(it, s, cap);
    c.get()
}
fn run_src(it: &Item, s: Src, cap: usize) -> Result<Seen, String> {
    match cap {
        0 => decode_from(it.fmt, s, options()),
        _ => decode_from(it.fmt, BufReader::with_capacity(cap, s), options())
    }
}
fn short_at(ch: &mut Ch) -> Res {
    let th = ch.thorough();
    let (k, i) = pick_item(ch, if th { 2 } else { 1 });
    let it = &items(k)[i];
    let cap = ch.pick(&[0usize, 16]);
    let act = ch.pick(&[Act::Short, Act::Interrupt]);
    let n = calls_of(it, usize::MAX, cap);
    let mut s = Src::new(&it.bytes, usize::MAX);
    let a = ch.choose(n.max(1));
    s.acts[0] = Some((a, act));
    if th && n < 150 {
        let b = ch.choose(n - a);
        if b > 0 {
            s.acts[1] = Some((a + b, act));
        }
    }
    let what = format!("{} {}x{} buffer {cap} at read call {:?}", it.name, it.w, it.h, s.acts);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    must_equal(&what, run_src(it, s, cap), reference(k, i))
}
fn trailing(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    let t = ch.choose(8);
    let other = ch.choose(2);
    let mut f = it.bytes.clone();
    match t {
        0 => f.push(0),
        1 => f.extend([0; 64]),
        2 => f.push(0xff),
        3 => f.extend([0xff; 64]),
        4 => f.extend(&it.bytes),
        5 => f.extend((0..=255u8).rev()),
        6 => f.extend(b"\n1 2 3 4 \n"),
        _ => f.extend([0xff, 0xd8, 0xff, 0xd9, 0xff, 0xc4, 0, 2])
    }
    let what = format!("{} {}x{} followed by tail {t} ({} bytes), from {}", it.name, it.w, it.h, f.len() - it.bytes.len(), if other == 0 { "memory" } else { "a reader" });
    ch.note(|| what.clone());
    ch.state(hash_bytes(&f));
    ch.obs(hash_bytes(what.as_bytes()));
    let got = match other {
        0 => decode(it.fmt, &f, options()),
        _ => decode_from(it.fmt, BufReader::new(Src::new(&f, 100)), options())
    };
    must_equal(&what, got, reference(k, i))
}

// ---- C04
const LIMIT: usize = 96;
fn survive(ch: &mut Ch, what: &str, fmt: Fmt, f: &[u8]) -> Res {
    let mode = ch.choose(3);
    let o = match mode {
        0 => options(),
        1 => DecoderOptions::new_fast().png_set_confirm_crc(false).inflate_set_confirm_adler(false),
        _ => options().set_strict_mode(true).png_set_confirm_crc(false).inflate_set_confirm_adler(false).set_use_unsafe(false)
    }
    .set_max_width(LIMIT)
    .set_max_height(LIMIT);
    ch.state(hash_bytes(f));
    ch.obs(hash_bytes(f));
    let src = ch.choose(2);
    ch.note(|| format!("{what} options {mode} source {src}"));
    let before = crate::alloc::peak();
    let _ = before;
    crate::alloc::reset_peak();
    let mut dims = None;
    let r = guard(|| {
        let mut d = if src == 0 { open(fmt, ZCursor::new(f), o) } else { open(fmt, BufReader::with_capacity(32, Src::new(f, 9)), o) };
        let r = d.decode();
        dims = d.dims();
        let _ = (d.cs(), d.depth(), d.size());
        r.map(|v| v.len())
    });
    let peak = crate::alloc::peak();
    let r = match r {
        Ok(r) => r,
        Err(p) => return bad(format!("panic:{}", panic_class(&p)), format!("{what} options {mode} source {src}: {p}"))
    };
    if let Ok(n) = &r {
        ch.obs(*n as u64);
    }
    let (w, h) = dims.unwrap_or((LIMIT, LIMIT));
    let (w, h) = (w.min(LIMIT), h.min(LIMIT));
    let bound = 64 * (w + 32) * (h + 32) + 1100 * f.len() + (22 << 20);
    if peak > bound {
        return bad(kf(what, "memory-use"), format!("{what} options {mode}: {peak} bytes allocated for {w}x{h} and {} bytes of input", f.len()));
    }
    Ok(())
}
const BYTES: [u8; 8] = [0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 0x10];
fn damage_bytes(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, if ch.thorough() { 3 } else { 2 });
    let it = &items(k)[i];
    let at = ch.choose(it.bytes.len());
    let how = ch.choose(18);
    let mut f = it.bytes.clone();
    f[at] = match how {
        0..=7 => f[at] ^ (1 << how),
        8..=15 => BYTES[how - 8],
        16 => f[at].wrapping_add(1),
        _ => f[at].wrapping_sub(1)
    };
    if f[at] == it.bytes[at] {
        ch.discard();
        return Ok(());
    }
    let what = format!("{} {}x{} byte {at} set to {}", it.name, it.w, it.h, f[at]);
    survive(ch, &what, it.fmt, &f)
}
fn damage_truncate(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    let at = ch.choose(it.bytes.len());
    let how = ch.choose(4);
    let mut f = it.bytes[..at].to_vec();
    match how {
        1 => f.extend([0xff; 40]),
        2 => f.extend([0; 40]),
        // a piece is missing
        3 => f.extend(&it.bytes[(at + 1).min(it.bytes.len())..]),
        _ => {}
    }
    let what = format!("{} {}x{} cut at {at} then {how}", it.name, it.w, it.h);
    survive(ch, &what, it.fmt, &f)
}
fn damage_fields(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, if ch.thorough() { 2 } else { 1 });
    let it = &items(k)[i];
    let at = ch.choose(it.bytes.len().min(if ch.thorough() { usize::MAX } else { 220 }));
    let mut f = it.bytes.clone();
    let mut put = |b: &[u8]| {
        for (j, x) in b.iter().enumerate() {
            if at + j < f.len() {
                f[at + j] = *x;
            }
        }
    };
    let how = ch.choose(14);
    let be = ch.flag();
    if how < 6 {
        let v = [0u16, 0xffff, 0x7fff, 0x8000, 0x0100, 97][how];
        put(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    } else {
        let v = [0u32, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x0001_0000, 0xffff_fff0, 96, 0x4000_0001][how - 6];
        put(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    }
    if f == it.bytes {
        ch.discard();
        return Ok(());
    }
    let what = format!("{} {}x{} field {at} value {how} big-endian {be}", it.name, it.w, it.h);
    survive(ch, &what, it.fmt, &f)
}
/// two damaged bytes close to each other in the first part of the file
fn damage_pairs(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 1);
    let it = &items(k)[i];
    let th = ch.thorough();
    let n = it.bytes.len().min(if th { 160 } else { 48 });
    let a = ch.choose(n);
    let b = a + 1 + ch.choose(if th { 12 } else { 4 });
    if b >= it.bytes.len() {
        ch.discard();
        return Ok(());
    }
    let set = [0u8, 1, 0x7f, 0x80, 0xff];
    let mut f = it.bytes.clone();
    f[a] = ch.pick(&set);
    f[b] = ch.pick(&set);
    let what = format!("{} {}x{} bytes {a} and {b} set to {} {}", it.name, it.w, it.h, f[a], f[b]);
    if !th {
        // one option set only
        let o = options().set_max_width(LIMIT).set_max_height(LIMIT).png_set_confirm_crc(false);
        ch.state(hash_bytes(&f));
        ch.obs(hash_bytes(&f));
        ch.note(|| what.clone());
        return match guard(|| decode(it.fmt, &f, o).is_ok()) {
            Ok(ok) => {
                ch.obs(ok as u64);
                Ok(())
            }
            Err(p) => bad(format!("panic:{}", panic_class(&p)), format!("{what}: {p}"))
        };
    }
    survive(ch, &what, it.fmt, &f)
}
/// the head of one file and the tail of another of the same format
fn damage_splice(ch: &mut Ch) -> Res {
    let k = ch.choose(1);
    let i = ch.choose(items(k).len());
    let a = &items(k)[i];
    let same: Vec<&Item> = items(k).iter().chain(items(1)).filter(|x| x.fmt == a.fmt).collect();
    let b = same[ch.choose(same.len())];
    let steps = if ch.thorough() { 40 } else { 9 };
    let s = ch.choose(steps);
    let (pa, pb) = ((a.bytes.len() * (s + 1)) / (steps + 1), (b.bytes.len() * (s + 1)) / (steps + 1));
    let mut f = a.bytes[..pa].to_vec();
    f.extend(&b.bytes[pb..]);
    let what = format!("{} up to {pa}, {} from {pb}", a.name, b.name);
    survive(ch, &what, a.fmt, &f)
}
fn tiny(ch: &mut Ch) -> Res {
    let fmt = ch.pick(&FMTS);
    let mut f: Vec<u8> = match fmt {
        Fmt::Png => png::SIG.to_vec(),
        Fmt::Jpeg => vec![0xff, 0xd8],
        Fmt::Bmp => b"BM".to_vec(),
        Fmt::Qoi => b"qoif".to_vec(),
        Fmt::Ppm => b"P".to_vec(),
        Fmt::Farbfeld => b"farbfeld".to_vec(),
        Fmt::Hdr => b"#?RGBE\n".to_vec(),
        Fmt::Psd => b"8BPS\0\x01".to_vec()
    };
    if ch.flag() {
        f.clear();
    }
    let n = ch.choose(3);
    for j in 0..n {
        let x = if j == 0 || ch.thorough() { ch.choose(256) as u8 } else { ch.pick(&[0u8, 1, 9, 10, 13, 32, b'0', b'1', b'5', b'6', b'7', b'F', b'f', 0x80, 0xc0, 0xc2, 0xc4, 0xd8, 0xd9, 0xda, 0xdb, 0xdd, 0xfe, 0xff]) };
        f.push(x);
    }
    let what = format!("{fmt:?} {f:?}");
    survive(ch, &what, fmt, &f)
}

// ---- C05
fn never_wrong(what: &str, got: Result<Seen, String>, want: Option<&Seen>) -> Res {
    let Some(want) = want else { return Ok(()) };
    match got {
        Err(_) => Ok(()),
        Ok(s) if s.bytes == want.bytes && s.dims == want.dims && s.cs == want.cs && s.depth == want.depth => Ok(()),
        Ok(s) => bad(kf(&what, "wrong-pixels"), format!("{what}: reported as decoded, {}", differ(&s, want).unwrap_or_default()))
    }
}
fn lossless(ch: &mut Ch, dims: usize) -> Option<(usize, usize)> {
    let (k, i) = pick_item(ch, dims);
    if items(k)[i].fmt == Fmt::Jpeg {
        ch.discard();
        return None;
    }
    Some((k, i))
}
fn cut(ch: &mut Ch) -> Res {
    let Some((k, i)) = lossless(ch, 3) else { return Ok(()) };
    let it = &items(k)[i];
    let at = ch.choose(it.bytes.len());
    let how = ch.choose(4);
    let what = format!("{} {}x{} cut at {at} of {} source {how}", it.name, it.w, it.h, it.bytes.len());
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    let f = &it.bytes[..at];
    let got = match how {
        0 => decode(it.fmt, f, options()),
        1 => decode_from(it.fmt, Src::new(f, 3), options()),
        2 => decode_from(it.fmt, BufReader::with_capacity(16, Src::new(f, usize::MAX)), options()),
        _ => decode(it.fmt, f, options().set_strict_mode(true))
    };
    never_wrong(&what, got, reference(k, i))
}
fn fail(ch: &mut Ch) -> Res {
    let Some((k, i)) = lossless(ch, if ch.thorough() { 3 } else { 2 }) else { return Ok(()) };
    let it = &items(k)[i];
    let (cap, limit) = ch.pick(&[(0usize, usize::MAX), (0, 4), (16, usize::MAX)]);
    let act = ch.pick(&[Act::FailOnce, Act::FailForGood]);
    let n = calls_of(it, limit, cap);
    let mut s = Src::new(&it.bytes, limit);
    s.acts[0] = Some((ch.choose(n.max(1)), act));
    let what = format!("{} {}x{} reads of {limit} buffer {cap} at read call {:?}", it.name, it.w, it.h, s.acts[0]);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    never_wrong(&what, run_src(it, s, cap), reference(k, i))
}

// ---- C06
fn opts_for(ch: &mut Ch, fmt: Fmt) -> (DecoderOptions, String) {
    let mut o = options();
    let mut s = String::new();
    match fmt {
        Fmt::Png => {
            let (a, b) = (ch.flag(), ch.flag());
            o = o.png_set_add_alpha_channel(a).png_set_strip_to_8bit(b);
            s = format!("add alpha {a} strip {b}");
        }
        Fmt::Jpeg => {
            let c = ch.pick(&[ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::CMYK, ColorSpace::LumaA]);
            o = o.jpeg_set_out_colorspace(c);
            s = format!("to {c:?}");
        }
        _ => {}
    }
    if ch.flag() {
        o = o.set_strict_mode(true);
        s += " strict";
    }
    (o, s)
}
fn bytes_per(d: zune_core::bit_depth::BitDepth) -> usize {
    d.size_of()
}
fn announced(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    let (o, os) = opts_for(ch, it.fmt);
    let what = format!("{} {}x{} {os}", it.name, it.w, it.h);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    let mut d = open(it.fmt, ZCursor::new(&it.bytes), o);
    if let Err(e) = d.headers() {
        return bad(kf(&what, "headers"), format!("{what}: {e}"));
    }
    let (dims, cs, depth, size) = (d.dims(), d.cs(), d.depth(), d.size());
    if dims != Some((it.w, it.h)) {
        return bad(kf(&what, "dimensions"), format!("{what}: {dims:?}"));
    }
    let b = match d.decode() {
        Err(_) => return Ok(()),
        Ok(b) => b
    };
    let after = (d.dims(), d.cs(), d.depth(), d.size());
    if (dims, cs, depth, size) != after {
        return bad(kf(&what, "changes"), format!("{what}: after the headers {dims:?} {cs:?} {depth:?} {size:?}, after decoding {after:?}"));
    }
    let (Some(cs), Some(depth)) = (cs, depth) else {
        return bad(kf(&what, "missing"), format!("{what}: {cs:?} {depth:?}"));
    };
    let need = it.w * it.h * cs.num_components() * bytes_per(depth);
    if b.len() != need {
        return bad(kf(&what, "length"), format!("{what}: {cs:?} {depth:?} announced, {} bytes delivered instead of {need}", b.len()));
    }
    match size {
        Some(n) if n != need => bad(kf(&what, "size"), format!("{what}: an output of {n} bytes announced, {need} delivered")),
        None if !matches!(it.fmt, Fmt::Ppm | Fmt::Psd) => bad(kf(&what, "size"), format!("{what}: no output size announced")),
        _ => Ok(())
    }
}
fn into_buffers(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    if matches!(it.fmt, Fmt::Ppm | Fmt::Psd) {
        ch.discard();
        return Ok(());
    }
    let (o, os) = opts_for(ch, it.fmt);
    let with_headers = ch.flag();
    let plain = decode(it.fmt, &it.bytes, o);
    let want = match plain {
        Err(_) => {
            ch.discard();
            return Ok(());
        }
        Ok(s) => s.bytes
    };
    let mut d = open(it.fmt, ZCursor::new(&it.bytes), o);
    let u = d.unit();
    let n = want.len() / u;
    let row = n / it.h;
    let sizes = [n, 0, 1, n - 1, n - row, n / 2, n + 1, n + row, n + 3, 2 * n + 5];
    let sz = ch.pick(&sizes);
    let what = format!("{} {}x{} {os} into {sz} samples of {n} headers first {with_headers}", it.name, it.w, it.h);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    if with_headers {
        let _ = d.headers();
    }
    let mut buf = vec![0xABu8; sz * u];
    let r = match guard(|| d.decode_into(&mut buf)) {
        Ok(r) => r,
        Err(p) => return bad(kf(&what, "panic"), format!("{what}: {p}"))
    };
    match r {
        None => Ok(()),
        Some(Ok(())) if sz < n => bad(kf(&what, "too-small-accepted"), what),
        Some(Err(_)) if sz < n => Ok(()),
        Some(Err(e)) => bad(kf(&what, "rejected"), format!("{what}: {e}")),
        Some(Ok(())) => {
            if buf[..n * u] != want[..] {
                return bad(kf(&what, "pixels"), format!("{what}: {}", crate::util::first_diff(&buf[..n * u], &want)));
            }
            if buf[n * u..].iter().any(|x| *x != 0xAB) {
                return bad(kf(&what, "surplus"), format!("{what}: bytes beyond the image were changed"));
            }
            Ok(())
        }
    }
}

// ---- C07
fn limits(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    let (w, h) = (it.w, it.h);
    let lw = ch.pick(&[w - 1, w, w + 1, 1, 0, 70000]);
    let lh = ch.pick(&[h - 1, h, h + 1, 1, 0, 70000]);
    let how = ch.choose(3);
    let what = format!("{} {w}x{h} limits {lw}x{lh} call {how}", it.name);
    ch.note(|| what.clone());
    ch.state(hash_bytes(what.as_bytes()));
    ch.obs(hash_bytes(what.as_bytes()));
    let o = options().set_max_width(lw).set_max_height(lh);
    let mut d = open(it.fmt, ZCursor::new(&it.bytes), o);
    let ok = match how {
        0 => d.headers().is_ok(),
        1 => d.decode().is_ok(),
        _ => {
            let mut b = vec![0; w * h * 16];
            match d.decode_into(&mut b) {
                None => {
                    ch.discard();
                    return Ok(());
                }
                Some(r) => {
                    if r.is_err() && b.iter().any(|x| *x != 0) {
                        return bad(kf(&what, "written"), format!("{what}: pixels were written"));
                    }
                    r.is_ok()
                }
            }
        }
    };
    let fits = w <= lw && h <= lh;
    if ok && !fits {
        return bad(kf(&what, "not-enforced"), what);
    }
    if !ok && fits {
        return bad(kf(&what, "rejected"), what);
    }
    Ok(())
}

// ---- C08
fn histories(ch: &mut Ch) -> Res {
    let th = ch.thorough();
    let (k, i) = pick_item(ch, if th { 2 } else { 1 });
    let it = &items(k)[i];
    let Some(want) = reference(k, i) else { return Ok(()) };
    let mut d = open(it.fmt, ZCursor::new(&it.bytes), options());
    let mut read = false;
    let mut log = format!("{} {}x{}:", it.name, it.w, it.h);
    let n = ch.choose(if th { 6 } else { 5 });
    for _ in 0..n {
        let op = ch.choose(6);
        log += [" headers", " dimensions", " colorspace", " depth", " size", " metadata"][op];
        let m = |ok: bool, got: String| {
            if ok {
                Ok(())
            } else {
                bad(kf(&log, if read { "changes" } else { "early" }), format!("{log} gives {got}"))
            }
        };
        match op {
            0 => {
                if let Err(e) = d.headers() {
                    return bad(kf(&log, "headers"), format!("{log}: {e}"));
                }
                read = true;
            }
            1 => m(d.dims() == if read { want.dims } else { None }, format!("{:?}", d.dims()))?,
            2 => m(d.cs() == if read || d.fixed_cs() { want.cs } else { None }, format!("{:?}", d.cs()))?,
            3 => m(d.depth() == if read || d.fixed_depth() { want.depth } else { None }, format!("{:?}", d.depth()))?,
            4 => m(d.size() == if read { want.size } else { None }, format!("{:?}", d.size()))?,
            _ => {
                let _ = d.meta();
            }
        }
    }
    ch.note(|| log.clone());
    ch.state(hash_bytes(log.as_bytes()));
    ch.obs(hash_bytes(log.as_bytes()));
    let into = ch.flag();
    let b = if into {
        let mut b = vec![0; want.bytes.len()];
        match d.decode_into(&mut b) {
            None => {
                ch.discard();
                return Ok(());
            }
            Some(r) => r.map(|()| b)
        }
    } else {
        d.decode()
    };
    match b {
        Err(e) => bad(kf(&log, "decode"), format!("{log} then decode into {into}: {e}")),
        Ok(b) => match differ(&seen(&*d, b), want) {
            None => Ok(()),
            Some(m) => bad(kf(&log, "differs"), format!("{log} then decode into {into}: {m}"))
        }
    }
}

// ---- C23
fn both(what: &str, fmt: Fmt, f: &[u8], o: DecoderOptions) -> Res {
    let a = decode(fmt, f, o.set_use_unsafe(true));
    let b = decode(fmt, f, o.set_use_unsafe(false));
    match (a, b) {
        (Ok(a), Ok(b)) => match differ(&a, &b) {
            None => Ok(()),
            Some(m) => bad(kf(&what, "differs"), format!("{what}: accelerated against portable: {m}"))
        },
        (Err(_), Err(_)) => Ok(()),
        (a, b) => bad(kf(&what, "accepts"), format!("{what}: accelerated {} portable {}", a.is_ok(), b.is_ok()))
    }
}
/// the switch turns every intrinsic off; without that the comparison would be one of a path with itself
fn switch(ch: &mut Ch) -> Res {
    let base = [DecoderOptions::default(), DecoderOptions::new_safe(), DecoderOptions::new_fast(), DecoderOptions::new_cmd()][ch.choose(4)];
    let o = base.set_use_unsafe(false);
    ch.state(hash_bytes(format!("{base:?}").as_bytes()));
    let on = [o.use_sse2(), o.use_sse3(), o.use_sse41(), o.use_avx(), o.use_avx2(), o.use_neon(), o.use_unsafe()];
    if on.iter().any(|x| *x) {
        return bad("still-on", format!("intrinsics were turned off, sse2 sse3 sse4.1 avx avx2 neon unsafe are {on:?}"));
    }
    Ok(())
}
fn same_png(ch: &mut Ch) -> Res {
    let (color, depth) = ch.pick(&png::KINDS);
    let w = 1 + ch.choose(if ch.thorough() { 140 } else { 70 });
    let f = ch.choose(9);
    let adam7 = ch.flag();
    let mut s = png::Spec::new(w, 5, color, depth, adam7, w as u64);
    s.filters = match f {
        0..=4 => vec![f as u8],
        5 => vec![0, 1, 2, 3, 4],
        6 => vec![4, 3, 4, 2],
        7 => vec![2, 4, 1, 3],
        _ => vec![3, 1, 4, 4]
    };
    let o = if ch.flag() { options().png_set_add_alpha_channel(true).png_set_strip_to_8bit(true) } else { options() };
    let what = format!("png colour {color} depth {depth} width {w} filters {:?} interlaced {adam7}", s.filters);
    ch.note(|| what.clone());
    let file = s.file();
    ch.state(hash_bytes(&file));
    ch.obs(hash_bytes(&file));
    both(&what, Fmt::Png, &file, o)
}
fn same_jpeg(ch: &mut Ch) -> Res {
    let samp = *ch.pick_ref(&super::jpeg::SAMP);
    let n = samp.len();
    let kind = ch.choose(6);
    let th = ch.thorough();
    let w = 1 + ch.choose(if th { 140 } else { 66 });
    let h = ch.pick(&[1usize, 9, 17, 33]);
    let prog = ch.flag();
    let out = match n {
        1 => ch.pick(&[ColorSpace::Luma, ColorSpace::RGB]),
        3 => ch.pick(&[ColorSpace::YCbCr, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::BGR]),
        _ => ch.pick(&[ColorSpace::CMYK, ColorSpace::RGB])
    };
    let j = jpeg::Jpeg::new(w, h, samp, kind, (w * 7 + h) as u32);
    let mut cod = jpeg::Coding::baseline(n);
    if prog {
        cod.sof = 0xC2;
        cod.scans = jpeg::script(n, 0, false, &[5], 1, 0);
    }
    let mut j = j;
    if prog {
        j.clear_padding();
    }
    let f = j.file(&cod);
    let what = format!("jpeg {samp:?} pattern {kind} {w}x{h} progressive {prog} to {out:?}");
    ch.note(|| what.clone());
    ch.state(hash_bytes(&f));
    ch.obs(hash_bytes(&f));
    both(&what, Fmt::Jpeg, &f, options().jpeg_set_out_colorspace(out))
}
fn same_corpus(ch: &mut Ch) -> Res {
    let (k, i) = pick_item(ch, 3);
    let it = &items(k)[i];
    let (o, os) = opts_for(ch, it.fmt);
    let what = format!("{} {}x{} {os}", it.name, it.w, it.h);
    ch.note(|| what.clone());
    ch.state(hash_bytes(&it.bytes));
    ch.obs(hash_bytes(what.as_bytes()));
    both(&what, it.fmt, &it.bytes, o)
}
