//! C01 byte reader, C02 byte writer
use crate::engine::*;
use crate::util::*;
use crate::Check;
use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
use zune_core::bytestream::{ZByteReaderTrait, ZByteWriterTrait, ZCursor, ZReader, ZSeekFrom, ZWriter};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "model_checking",
            rule: "every sequence of reader calls up to the depth bound, over every source kind and small data length, compared call by call with a cursor model (position, bytes); a state is (length, position). All executions are non-trivial; distinct outcomes = distinct vectors of returned values",
            assumptions: &["built with the standard library; C51 covers the build without"],
            scenarios: |_| vec![
                Scenario { name: "zcursor", f: |c| reader(c, 0) },
                Scenario { name: "stdcursor", f: |c| reader(c, 1) },
                Scenario { name: "bufreader", f: |c| reader(c, 2) },
                Scenario { name: "shortreads", f: |c| reader(c, 3) },
                Scenario { name: "trait_zcursor", f: |c| raw(c, 0) },
                Scenario { name: "trait_bufreader", f: |c| raw(c, 2) },
                Scenario { name: "trait_shortreads", f: |c| raw(c, 3) }
            ]
        },
        Check {
            id: "C02",
            level: "model_checking",
            rule: "every sequence of writer calls up to the depth bound, into growable, fixed-size and failing sinks of every small capacity, compared call by call with a byte-vector model",
            assumptions: &["after a refused write only prefix-consistency of the sink is required"],
            scenarios: |_| vec![
                Scenario { name: "vec", f: |c| writer_vec(c) },
                Scenario { name: "slice", f: |c| writer_slice(c) },
                Scenario { name: "limited", f: |c| writer_limited(c) }
            ]
        },
    ]
}

/// a seekable source that never returns more than `k` bytes per read
pub struct Short {
    c: Cursor<Vec<u8>>,
    k: usize,
    buf: Vec<u8>
}
impl Read for Short {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.k);
        self.c.read(&mut b[..n])
    }
}
impl Seek for Short {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
impl std::io::BufRead for Short {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let p = (self.c.position() as usize).min(self.c.get_ref().len());
        let e = (p + self.k).min(self.c.get_ref().len());
        self.buf = self.c.get_ref()[p..e].to_vec();
        Ok(&self.buf)
    }
    fn consume(&mut self, n: usize) {
        let p = self.c.position();
        self.c.set_position(p + n as u64)
    }
}

fn data_of(ch: &mut Ch) -> Vec<u8> {
    let n = ch.pick(&[5usize, 0, 1, 2, 9]);
    (0..n).map(|i| 0xA1u8.wrapping_add(i as u8 * 23)).collect()
}

fn reader(ch: &mut Ch, kind: usize) -> Res {
    let d = data_of(ch);
    match kind {
        0 => ops(ch, &d, ZReader::new(ZCursor::new(d.clone()))),
        #[cfg(feature = "std")]
        1 => ops(ch, &d, ZReader::new(Cursor::new(d.clone()))),
        #[cfg(feature = "std")]
        2 => {
            let cap = ch.pick(&[1usize, 2, 3, 64]);
            ops(ch, &d, ZReader::new(BufReader::with_capacity(cap, Cursor::new(d.clone()))))
        }
        #[cfg(feature = "std")]
        3 => {
            let k = ch.pick(&[1usize, 3]);
            ops(ch, &d, ZReader::new(Short { c: Cursor::new(d.clone()), k, buf: vec![] }))
        }
        _ => unreachable!()
    }
}

#[derive(Copy, Clone, Debug)]
enum Op {
    U8,
    U8Err,
    Peek(usize, usize),
    Exact(usize),
    Some(usize),
    FixErr3,
    FixErr8,
    FixZero2,
    FixZero4,
    U16(bool, bool),
    U32(bool, bool),
    U64(bool, bool),
    SetPos(usize),
    Skip(usize),
    Rewind(usize),
    Start(u64),
    End(i64),
    Cur(i64),
    Eof,
    Pos
}
const OPS: &[Op] = &[
    Op::U8,
    Op::U8Err,
    Op::Peek(0, 2),
    Op::Peek(2, 3),
    Op::Peek(1, 0),
    Op::Peek(7, 1),
    Op::Exact(0),
    Op::Exact(3),
    Op::Exact(6),
    Op::Some(2),
    Op::Some(7),
    Op::FixErr3,
    Op::FixErr8,
    Op::FixZero2,
    Op::FixZero4,
    Op::U16(true, true),
    Op::U16(false, false),
    Op::U16(true, false),
    Op::U16(false, true),
    Op::U32(true, true),
    Op::U32(false, false),
    Op::U32(true, false),
    Op::U32(false, true),
    Op::U64(true, true),
    Op::U64(false, false),
    Op::U64(true, false),
    Op::U64(false, true),
    Op::SetPos(0),
    Op::SetPos(4),
    Op::Skip(0),
    Op::Skip(2),
    Op::Skip(8),
    Op::Rewind(1),
    Op::Rewind(4),
    Op::Start(3),
    Op::Start(u64::MAX >> 1),
    Op::End(0),
    Op::End(-2),
    Op::End(2),
    Op::Cur(-3),
    Op::Cur(1),
    Op::Eof,
    Op::Pos
];

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

fn ops<T: ZByteReaderTrait>(ch: &mut Ch, d: &[u8], mut r: ZReader<T>) -> Res {
    let depth = if ch.thorough() { 4 } else { 3 };
    let mut pos: u64 = 0;
    let len = d.len() as u64;
    let mut hist: Vec<Op> = vec![];
    for _ in 0..depth {
        let op = ch.pick(OPS);
        hist.push(op);
        let avail = len.saturating_sub(pos) as usize;
        let at = pos.min(len) as usize;
        let full = |n: usize| if avail >= n { Some(&d[at..at + n]) } else { None };
        let mut exp = format!("");
        let mut got = String::new();
        let mut newpos = pos;
        macro_rules! cmp {
            ($e:expr, $g:expr) => {{
                exp = format!("{:?}", $e);
                got = format!("{:?}", $g);
            }};
        }
        // integers: (value or zero, error or not)
        macro_rules! int {
            ($n:expr, $big:expr, $err:expr, $t:ty, $a:ident, $b:ident, $c:ident, $e:ident) => {{
                let m = full($n).map(|s| if $big { be(s) } else { le(s) } as $t);
                if m.is_some() {
                    newpos = pos + $n as u64;
                }
                if $err {
                    let g = if $big { r.$a().ok() } else { r.$b().ok() };
                    cmp!(m, g);
                } else {
                    let g = if $big { r.$c() } else { r.$e() };
                    cmp!(m.unwrap_or(0), g);
                }
            }};
        }
        match op {
            Op::U8 => {
                let m = full(1).map(|s| s[0]);
                if m.is_some() {
                    newpos = pos + 1;
                }
                cmp!(m.unwrap_or(0), r.read_u8());
            }
            Op::U8Err => {
                let m = full(1).map(|s| s[0]);
                if m.is_some() {
                    newpos = pos + 1;
                }
                cmp!(m, r.read_u8_err().ok());
            }
            Op::Peek(p, n) => {
                let m = if n == 0 {
                    Some(vec![])
                } else if avail >= p + n {
                    Some(d[at + p..at + p + n].to_vec())
                } else {
                    None
                };
                cmp!(m, r.peek_at(p, n).ok().map(|x| x.to_vec()));
            }
            Op::Exact(n) => {
                let mut b = vec![0u8; n];
                let m = if n == 0 { Some(&d[0..0]) } else { full(n) };
                if m.is_some() {
                    newpos = pos + n as u64;
                }
                let g = r.read_exact_bytes(&mut b).ok().map(|_| b);
                cmp!(m, g);
            }
            Op::Some(n) => {
                let mut b = vec![0x77u8; n];
                match r.read_bytes(&mut b) {
                    Ok(k) => {
                        let max = avail.min(n);
                        if k > max || (max > 0 && k == 0) || b[..k] != d[at..at + k] {
                            return bad("read_bytes", format!("{hist:?} over {} bytes at {pos}: returned {k} bytes {b:?}", len));
                        }
                        ch.obs(k as u64);
                        newpos = pos + k as u64;
                    }
                    Err(e) => return bad("read_bytes", format!("{hist:?}: {e:?}"))
                }
            }
            Op::FixErr3 => {
                let m = full(3).map(|s| s.to_vec());
                if m.is_some() {
                    newpos = pos + 3;
                }
                cmp!(m, r.read_fixed_bytes_or_error::<3>().ok());
            }
            Op::FixErr8 => {
                let m = full(8).map(|s| s.to_vec());
                if m.is_some() {
                    newpos = pos + 8;
                }
                cmp!(m, r.read_fixed_bytes_or_error::<8>().ok());
            }
            Op::FixZero2 => {
                let m = full(2).map(|s| s.to_vec());
                if m.is_some() {
                    newpos = pos + 2;
                }
                cmp!(m.unwrap_or(vec![0; 2]), r.read_fixed_bytes_or_zero::<2>());
            }
            Op::FixZero4 => {
                let m = full(4).map(|s| s.to_vec());
                if m.is_some() {
                    newpos = pos + 4;
                }
                cmp!(m.unwrap_or(vec![0; 4]), r.read_fixed_bytes_or_zero::<4>());
            }
            Op::U16(b, e) => int!(2, b, e, u16, get_u16_be_err, get_u16_le_err, get_u16_be, get_u16_le),
            Op::U32(b, e) => int!(4, b, e, u32, get_u32_be_err, get_u32_le_err, get_u32_be, get_u32_le),
            Op::U64(b, e) => int!(8, b, e, u64, get_u64_be_err, get_u64_le_err, get_u64_be, get_u64_le),
            Op::SetPos(p) => {
                newpos = p as u64;
                cmp!(Some(()), r.set_position(p).ok());
            }
            Op::Skip(n) => {
                newpos = pos + n as u64;
                cmp!(Some(newpos), r.skip(n).ok());
            }
            Op::Rewind(n) => {
                let m = pos.checked_sub(n as u64);
                newpos = m.unwrap_or(pos);
                cmp!(m, r.rewind(n).ok());
            }
            Op::Start(n) => {
                newpos = n;
                cmp!(Some(n), r.seek(ZSeekFrom::Start(n)).ok());
            }
            Op::End(n) => {
                let m = len.checked_add_signed(n);
                newpos = m.unwrap_or(pos);
                cmp!(m, r.seek(ZSeekFrom::End(n)).ok());
            }
            Op::Cur(n) => {
                let m = pos.checked_add_signed(n);
                newpos = m.unwrap_or(pos);
                cmp!(m, r.seek(ZSeekFrom::Current(n)).ok());
            }
            Op::Eof => cmp!(Some(pos >= len), r.eof().ok()),
            Op::Pos => cmp!(Some(pos), r.position().ok())
        }
        if exp != got {
            return bad(
                format!("{}", opname(op)),
                format!("{hist:?} over {len} bytes, position {pos}: expected {exp}, got {got}")
            );
        }
        ch.obs_bytes(got.as_bytes());
        pos = newpos;
        ch.state(hash_bytes(&[len as u8]) ^ pos.wrapping_mul(31));
        match r.position() {
            Ok(p) if p == pos => {}
            p => {
                return bad(
                    format!("{}:position", opname(op)),
                    format!("{hist:?} over {len} bytes: position {p:?}, expected {pos}")
                )
            }
        }
    }
    // and the rest of the data is still readable
    if pos < len {
        let mut b = vec![0; (len - pos) as usize];
        if r.read_exact_bytes(&mut b).is_err() || b != d[pos as usize..] {
            return bad("remaining", format!("{hist:?} over {len} bytes: rest differs from position {pos}"));
        }
    }
    ch.note(|| format!("{len} bytes: {hist:?}"));
    Ok(())
}

fn opname(o: Op) -> String {
    let s = format!("{o:?}");
    s.split('(').next().unwrap().to_string()
}

/// the trait methods not reachable through the wrapper
fn raw(ch: &mut Ch, kind: usize) -> Res {
    let d = data_of(ch);
    match kind {
        0 => raw_ops(ch, &d, ZCursor::new(d.clone())),
        #[cfg(feature = "std")]
        2 => {
            let cap = ch.pick(&[1usize, 3, 64]);
            raw_ops(ch, &d, BufReader::with_capacity(cap, Cursor::new(d.clone())))
        }
        #[cfg(feature = "std")]
        3 => {
            let k = ch.pick(&[1usize, 3]);
            raw_ops(ch, &d, Short { c: Cursor::new(d.clone()), k, buf: vec![] })
        }
        _ => unreachable!()
    }
}
fn raw_ops<T: ZByteReaderTrait>(ch: &mut Ch, d: &[u8], mut r: T) -> Res {
    let mut pos = 0u64;
    let len = d.len() as u64;
    let mut hist = vec![];
    for _ in 0..4 {
        let op = ch.choose(9);
        hist.push(op);
        let avail = len.saturating_sub(pos) as usize;
        let at = pos.min(len) as usize;
        match op {
            0 | 1 => {
                let n = if op == 0 { 2 } else { 6 };
                let mut b = vec![0; n];
                match r.peek_exact_bytes(&mut b) {
                    Ok(()) if avail >= n && b == d[at..at + n] => {}
                    Err(_) if avail < n => {}
                    x => return bad("peek_exact", format!("{hist:?} len {len} pos {pos}: {x:?} {b:?}"))
                }
            }
            2 => {
                let mut b = vec![0; 4];
                match r.peek_bytes(&mut b) {
                    Ok(k) if k <= avail.min(4) && (k > 0 || avail == 0) && b[..k] == d[at..at + k] => {}
                    x => return bad("peek", format!("{hist:?} len {len} pos {pos}: {x:?} {b:?}"))
                }
            }
            3 => {
                let mut v = vec![9u8];
                match r.read_remaining(&mut v) {
                    Ok(n) if n == avail && v[0] == 9 && v[1..] == d[at..at + avail] => pos += avail as u64,
                    x => return bad("remaining", format!("{hist:?} len {len} pos {pos}: {x:?} {v:?}"))
                }
            }
            4 => {
                let b = r.read_byte_no_error();
                if b != if avail > 0 { d[at] } else { 0 } {
                    return bad("byte", format!("{hist:?} len {len} pos {pos}: {b}"));
                }
                pos += (avail > 0) as u64;
            }
            5 => {
                let mut b = [0u8; 3];
                match r.read_const_bytes(&mut b) {
                    Ok(()) if avail >= 3 && b == d[at..at + 3] => pos += 3,
                    Err(_) if avail < 3 => {}
                    x => return bad("const", format!("{hist:?} len {len} pos {pos}: {x:?} {b:?}"))
                }
            }
            6 => {
                let mut b = [7u8; 3];
                r.read_const_bytes_no_error(&mut b);
                if avail >= 3 {
                    if b != d[at..at + 3] {
                        return bad("const0", format!("{hist:?} len {len} pos {pos}: {b:?}"));
                    }
                    pos += 3
                } else if b != [7; 3] && b != [0; 3] {
                    return bad("const0:partial", format!("{hist:?} len {len} pos {pos}: {b:?}"));
                }
            }
            7 => match r.z_seek(ZSeekFrom::End(-1)) {
                Ok(p) if len > 0 && p == len - 1 => pos = p,
                Err(_) if len == 0 => {}
                x => return bad("seek", format!("{hist:?} len {len}: {x:?}"))
            },
            _ => match r.z_seek(ZSeekFrom::Start(u64::MAX - 1)) {
                Ok(_) if len > 0 => {
                    // reading from far beyond the end
                    let mut b = [0u8; 4];
                    if r.read_exact_bytes(&mut b).is_ok() {
                        return bad("far", format!("{hist:?}: read past the end succeeded"));
                    }
                    match r.z_seek(ZSeekFrom::Start(0)) {
                        Ok(0) => pos = 0,
                        x => return bad("far", format!("{x:?}"))
                    }
                }
                _ => {
                    let _ = r.z_seek(ZSeekFrom::Start(0));
                    pos = 0
                }
            }
        }
        match (r.z_position(), r.is_eof()) {
            (Ok(p), Ok(e)) if p == pos && e == (pos >= len) => {}
            x => return bad("position", format!("{hist:?} len {len}: {x:?}, expected {pos}"))
        }
        ch.state(len * 100 + pos);
        ch.obs(pos);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C02

#[derive(Copy, Clone, Debug)]
enum W {
    U8,
    U8Err,
    Some(usize),
    All(usize),
    Const3,
    I(usize, bool, bool),
    Reserve
}
const WS: &[W] = &[
    W::U8Err,
    W::U8,
    W::Some(0),
    W::Some(2),
    W::Some(5),
    W::All(0),
    W::All(2),
    W::All(7),
    W::Const3,
    W::I(2, true, true),
    W::I(2, false, true),
    W::I(2, true, false),
    W::I(2, false, false),
    W::I(4, true, true),
    W::I(4, false, true),
    W::I(4, true, false),
    W::I(4, false, false),
    W::I(8, true, true),
    W::I(8, false, true),
    W::I(8, true, false),
    W::I(8, false, false),
    W::Reserve
];

/// performs one write; returns (intended bytes, Some(accepted count) / None = error, reporting)
fn do_write<T: ZByteWriterTrait>(w: &mut ZWriter<T>, op: W, i: usize) -> (Vec<u8>, Option<usize>, bool) {
    let src: Vec<u8> = (0..8).map(|k| (0x11 * (k + 1) + 3 * i) as u8).collect();
    let v = be(&src);
    match op {
        W::U8 => {
            w.write_u8(src[0]);
            (src[..1].to_vec(), Some(1), false)
        }
        W::U8Err => (src[..1].to_vec(), w.write_u8_err(src[0]).ok().map(|_| 1), true),
        W::Some(n) => {
            let r = w.write(&src[..n]).ok();
            (src[..n].to_vec(), r, true)
        }
        W::All(n) => (src[..n].to_vec(), w.write_all(&src[..n]).ok().map(|_| n), true),
        W::Const3 => (src[..3].to_vec(), w.write_const_bytes(&[src[0], src[1], src[2]]).ok().map(|_| 3), true),
        W::Reserve => {
            let _ = w.reserve(10);
            (vec![], Some(0), true)
        }
        W::I(n, big, err) => {
            let b = if big { src[8 - n..].to_vec() } else { src[8 - n..].iter().rev().copied().collect() };
            let r = match (n, big, err) {
                (2, true, true) => w.write_u16_be_err(v as u16).is_ok(),
                (2, false, true) => w.write_u16_le_err(v as u16).is_ok(),
                (4, true, true) => w.write_u32_be_err(v as u32).is_ok(),
                (4, false, true) => w.write_u32_le_err(v as u32).is_ok(),
                (8, true, true) => w.write_u64_be_err(v).is_ok(),
                (8, false, true) => w.write_u64_le_err(v).is_ok(),
                (2, true, false) => {
                    w.write_u16_be(v as u16);
                    true
                }
                (2, false, false) => {
                    w.write_u16_le(v as u16);
                    true
                }
                (4, true, false) => {
                    w.write_u32_be(v as u32);
                    true
                }
                (4, false, false) => {
                    w.write_u32_le(v as u32);
                    true
                }
                (8, true, false) => {
                    w.write_u64_be(v);
                    true
                }
                _ => {
                    w.write_u64_le(v);
                    true
                }
            };
            (b, if r { Some(n) } else { None }, err)
        }
    }
}

fn writer_vec(ch: &mut Ch) -> Res {
    let depth = if ch.thorough() { 4 } else { 3 };
    let pre = ch.choose(2) * 3;
    let mut v = vec![0xEE; pre];
    let mut model = v.clone();
    let mut w = ZWriter::new(&mut v);
    if w.bytes_written() != 0 {
        return bad("count", format!("a new writer has written {} bytes", w.bytes_written()));
    }
    let mut hist = vec![];
    for i in 0..depth {
        let op = ch.pick(WS);
        hist.push(op);
        let before = w.bytes_written();
        let (b, r, _) = do_write(&mut w, op, i);
        if r != Some(b.len()) || w.bytes_written() != before + b.len() {
            return bad("vec:result", format!("{hist:?}: {r:?}, count {} -> {}", before, w.bytes_written()));
        }
        model.extend(b);
        ch.state(hash_bytes(&model));
        if **w.inner_ref() != model {
            return bad("vec:bytes", format!("{hist:?}: {:?} vs {model:?}", w.inner_ref()));
        }
    }
    ch.obs_bytes(&model);
    ch.note(|| format!("{hist:?}"));
    Ok(())
}

fn writer_slice(ch: &mut Ch) -> Res {
    let depth = if ch.thorough() { 4 } else { 3 };
    let cap = ch.choose(18);
    let mut store = vec![0u8; cap + 4];
    let mut model: Vec<u8> = vec![];
    let mut hist = vec![];
    let mut failed = false;
    {
        let mut w = ZWriter::new(&mut store[..cap]);
        if w.bytes_written() != 0 {
            return bad("count", format!("a new writer has written {} bytes", w.bytes_written()));
        }
        for i in 0..depth {
            let op = ch.pick(WS);
            hist.push(op);
            let before = w.bytes_written();
            let room = cap - model.len();
            let (b, r, reporting) = do_write(&mut w, op, i);
            let after = w.bytes_written();
            let fits = b.len() <= room;
            match op {
                W::Some(_) => {
                    // may be short, but only for lack of room
                    let k = b.len().min(room);
                    if r != Some(k) || after != before + k {
                        return bad("slice:some", format!("{hist:?} cap {cap}: {r:?} count {after}"));
                    }
                    model.extend(&b[..k]);
                }
                _ if fits => {
                    if r != Some(b.len()) || after != before + b.len() {
                        return bad("slice:result", format!("{hist:?} cap {cap}: {r:?} count {after}"));
                    }
                    model.extend(b);
                }
                _ => {
                    if reporting && r.is_some() {
                        return bad("slice:silent", format!("{hist:?} cap {cap}: a write that does not fit reported success"));
                    }
                    if after != before {
                        return bad("slice:count", format!("{hist:?} cap {cap}: count grew on a failed write"));
                    }
                    failed = true;
                }
            }
            if failed {
                break;
            }
            ch.state(hash_bytes(&model) ^ cap as u64);
        }
    }
    if store[..model.len()] != model[..] || store[cap..] != [0; 4] {
        return bad("slice:bytes", format!("{hist:?} cap {cap}: {store:?} vs {model:?}"));
    }
    ch.obs_bytes(&store);
    ch.note(|| format!("capacity {cap}: {hist:?}"));
    Ok(())
}

/// accepts at most `step` bytes per call and `total` overall, then fails
struct Limited {
    got:   Vec<u8>,
    step:  usize,
    total: usize,
    kind:  u8
}
impl Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let room = self.total - self.got.len();
        if room == 0 && !b.is_empty() {
            return if self.kind == 0 {
                Err(std::io::Error::new(std::io::ErrorKind::Other, "full"))
            } else {
                Ok(0)
            };
        }
        let n = b.len().min(self.step).min(room);
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(not(feature = "std"))]
fn writer_limited(_: &mut Ch) -> Res {
    unreachable!()
}
#[cfg(feature = "std")]
fn writer_limited(ch: &mut Ch) -> Res {
    let depth = 3;
    let step = ch.pick(&[1usize, 3, 100]);
    let total = ch.choose(15);
    let kind = ch.choose(2) as u8;
    let mut w = ZWriter::new(Limited { got: vec![], step, total, kind });
    if w.bytes_written() != 0 {
        return bad("count", format!("a new writer has written {} bytes", w.bytes_written()));
    }
    let mut model: Vec<u8> = vec![];
    let mut hist = vec![];
    for i in 0..depth {
        let op = ch.pick(WS);
        hist.push(op);
        let before = w.bytes_written();
        let (b, r, reporting) = do_write(&mut w, op, i);
        let room = total - model.len();
        let got = w.inner_ref().got.clone();
        if !got.starts_with(&model) || !(got.len() - model.len() <= b.len() && got[model.len()..] == b[..got.len() - model.len()]) {
            return bad("limited:bytes", format!("{hist:?}: sink {got:?}, model {model:?}"));
        }
        match op {
            W::Some(_) => {
                if let Some(k) = r {
                    if got.len() != model.len() + k || w.bytes_written() != before + k {
                        return bad("limited:some", format!("{hist:?}: {k} reported, sink has {}", got.len()));
                    }
                    model = got;
                } else {
                    break;
                }
            }
            _ => {
                if b.len() <= room {
                    if r != Some(b.len()) || got.len() != model.len() + b.len() || w.bytes_written() != before + b.len() {
                        return bad("limited:result", format!("{hist:?} total {total} step {step}: {r:?}, sink {got:?}"));
                    }
                    model = got;
                } else {
                    if reporting && r.is_some() {
                        return bad("limited:silent", format!("{hist:?} total {total}: refused write reported success"));
                    }
                    if w.bytes_written() != before {
                        return bad("limited:count", format!("{hist:?}: count grew on failure"));
                    }
                    break;
                }
            }
        }
        ch.state(hash_bytes(&model));
    }
    ch.obs_bytes(&model);
    ch.obs(w.bytes_written() as u64);
    ch.note(|| format!("step {step} total {total}: {hist:?}"));
    Ok(())
}
