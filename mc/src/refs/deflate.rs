//! Independent DEFLATE writer (token level) and strict RFC 1951 reader, adler32 and crc32.

pub struct BitW {
    pub out: Vec<u8>,
    acc:     u64,
    n:       u32
}
impl BitW {
    pub fn new() -> BitW {
        BitW { out: vec![], acc: 0, n: 0 }
    }
    pub fn put(&mut self, v: u64, bits: u32) {
        for i in 0..bits {
            self.acc |= ((v >> i) & 1) << self.n;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    /// huffman codes are sent most significant bit first
    pub fn code(&mut self, c: (u32, u8)) {
        assert!(c.1 > 0, "symbol without a code");
        for i in (0..c.1).rev() {
            self.put(((c.0 >> i) & 1) as u64, 1);
        }
    }
    pub fn align(&mut self) {
        if self.n > 0 {
            self.out.push(self.acc as u8);
            self.acc = 0;
            self.n = 0;
        }
    }
    pub fn bit_pos(&self) -> usize {
        self.out.len() * 8 + self.n as usize
    }
}

pub const LEN_BASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131,
    163, 195, 227, 258
];
pub const LEN_EXTRA: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0
];
pub const DIST_BASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537,
    2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577
];
pub const DIST_EXTRA: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13,
    13
];
const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn canonical(lens: &[u8]) -> Vec<(u32, u8)> {
    let mut count = [0u32; 16];
    for l in lens {
        count[*l as usize] += 1;
    }
    count[0] = 0;
    let mut next = [0u32; 17];
    let mut code = 0;
    for b in 1..16 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|l| {
            if *l == 0 {
                (0, 0)
            } else {
                let c = next[*l as usize];
                next[*l as usize] += 1;
                (c, *l)
            }
        })
        .collect()
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Lit(u8),
    Match(u16, u16)
}

#[derive(Clone)]
pub struct Codes {
    pub lit_lens:  Vec<u8>,
    pub dist_lens: Vec<u8>,
    pub fixed:     bool,
    /// use run length codes in the code length sequence
    pub rle:       bool,
    /// damage: the first run of zeros is coded as a repetition of the length before it
    pub bad16:     bool
}
impl Codes {
    pub fn fixed() -> Codes {
        let mut l = vec![8u8; 288];
        l[144..256].fill(9);
        l[256..280].fill(7);
        Codes { lit_lens: l, dist_lens: vec![5; 30], fixed: true, rle: false, bad16: false }
    }
}

pub fn apply(out: &mut Vec<u8>, t: Tok) {
    match t {
        Tok::Lit(b) => out.push(b),
        Tok::Match(l, d) => {
            for _ in 0..l {
                let b = out[out.len() - d as usize];
                out.push(b);
            }
        }
    }
}

pub fn stored(w: &mut BitW, last: bool, data: &[u8]) {
    assert!(data.len() < 65536);
    w.put(last as u64, 1);
    w.put(0, 2);
    w.align();
    let l = data.len() as u16;
    w.out.extend(l.to_le_bytes());
    w.out.extend((!l).to_le_bytes());
    w.out.extend(data);
}

fn len_sym(l: u16) -> (usize, u8, u16) {
    if l == 258 {
        return (285, 0, 0);
    }
    for i in (0..28).rev() {
        if l >= LEN_BASE[i] {
            return (257 + i, LEN_EXTRA[i], l - LEN_BASE[i]);
        }
    }
    unreachable!()
}
fn dist_sym(d: u16) -> (usize, u8, u16) {
    for i in (0..30).rev() {
        if d >= DIST_BASE[i] {
            return (i, DIST_EXTRA[i], d - DIST_BASE[i]);
        }
    }
    unreachable!()
}

pub fn block(w: &mut BitW, last: bool, codes: &Codes, toks: &[Tok]) {
    w.put(last as u64, 1);
    if codes.fixed {
        w.put(1, 2);
    } else {
        w.put(2, 2);
        let mut nl = 286;
        while nl > 257 && codes.lit_lens[nl - 1] == 0 {
            nl -= 1;
        }
        let mut nd = 30.min(codes.dist_lens.len());
        while nd > 1 && codes.dist_lens[nd - 1] == 0 {
            nd -= 1;
        }
        w.put(nl as u64 - 257, 5);
        w.put(nd as u64 - 1, 5);
        w.put(19 - 4, 4);
        let mut cl = [5u8; 19];
        cl[..13].fill(4);
        for o in ORDER {
            w.put(cl[o] as u64, 3);
        }
        let cc = canonical(&cl);
        let mut seq: Vec<u8> = codes.lit_lens[..nl].to_vec();
        seq.extend(&codes.dist_lens[..nd]);
        let mut i = 0;
        while i < seq.len() {
            let v = seq[i];
            let mut run = 1;
            while i + run < seq.len() && seq[i + run] == v {
                run += 1;
            }
            if codes.bad16 && i == 0 && v == 0 && run >= 3 {
                let r = run.min(6);
                w.code(cc[16]);
                w.put(r as u64 - 3, 2);
                i += r;
            } else if codes.rle && v == 0 && run >= 3 {
                let r = run.min(138);
                if r <= 10 {
                    w.code(cc[17]);
                    w.put(r as u64 - 3, 3);
                } else {
                    w.code(cc[18]);
                    w.put(r as u64 - 11, 7);
                }
                i += r;
            } else if codes.rle && v != 0 && run >= 4 {
                w.code(cc[v as usize]);
                let r = (run - 1).min(6);
                w.code(cc[16]);
                w.put(r as u64 - 3, 2);
                i += 1 + r;
            } else {
                w.code(cc[v as usize]);
                i += 1;
            }
        }
    }
    let lc = canonical(&codes.lit_lens);
    let dc = canonical(&codes.dist_lens);
    for t in toks {
        match *t {
            Tok::Lit(b) => w.code(lc[b as usize]),
            Tok::Match(l, d) => {
                let (s, e, v) = len_sym(l);
                w.code(lc[s]);
                w.put(v as u64, e as u32);
                let (s, e, v) = dist_sym(d);
                w.code(dc[s]);
                w.put(v as u64, e as u32);
            }
        }
    }
    w.code(lc[256]);
    if last {
        w.align();
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Bad {
    /// the stream ends before the final block does
    Truncated,
    /// must be rejected by any decoder
    Hard(&'static str),
    /// decoders differ (incomplete codes, reserved symbols)
    Soft(&'static str)
}

struct BitR<'a> {
    d:   &'a [u8],
    pos: usize
}
impl<'a> BitR<'a> {
    fn bit(&mut self) -> Result<u32, Bad> {
        let b = *self.d.get(self.pos / 8).ok_or(Bad::Truncated)?;
        let r = (b >> (self.pos % 8)) & 1;
        self.pos += 1;
        Ok(r as u32)
    }
    fn bits(&mut self, n: u32) -> Result<u32, Bad> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
}

struct Huff {
    count:  [u32; 16],
    syms:   Vec<u16>,
    usable: bool
}
fn huff(lens: &[u8]) -> Result<Huff, Bad> {
    let mut count = [0u32; 16];
    for l in lens {
        count[*l as usize] += 1;
    }
    count[0] = 0;
    let mut left: i64 = 1;
    for i in 1..16 {
        left = left * 2 - count[i] as i64;
        if left < 0 {
            return Err(Bad::Hard("over-subscribed code"));
        }
    }
    let total: u32 = count.iter().sum();
    if left > 0 && !(total == 0 || (total == 1 && count[1] == 1)) {
        return Err(Bad::Soft("incomplete code"));
    }
    let mut syms = vec![];
    for b in 1..16u8 {
        for (i, l) in lens.iter().enumerate() {
            if *l == b {
                syms.push(i as u16);
            }
        }
    }
    Ok(Huff { count, syms, usable: total > 0 })
}
impl Huff {
    fn get(&self, r: &mut BitR) -> Result<u16, Bad> {
        if !self.usable {
            return Err(Bad::Soft("symbol from an empty code"));
        }
        let (mut code, mut first, mut index) = (0i64, 0i64, 0i64);
        for b in 1..16 {
            code |= r.bit()? as i64;
            let c = self.count[b] as i64;
            if code - c < first {
                return Ok(self.syms[(index + code - first) as usize]);
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err(Bad::Soft("unassigned code"))
    }
}

/// Decode; on success also returns how many whole bytes were consumed.  On failure, the
/// output so far.
pub fn inflate(d: &[u8]) -> Result<(Vec<u8>, usize), (Bad, Vec<u8>)> {
    let mut out = vec![];
    match inflate_inner(d, &mut out) {
        Ok(n) => Ok((out, n)),
        Err(b) => Err((b, out))
    }
}

fn inflate_inner(d: &[u8], out: &mut Vec<u8>) -> Result<usize, Bad> {
    let mut r = BitR { d, pos: 0 };
    loop {
        let last = r.bit()?;
        match r.bits(2)? {
            0 => {
                r.pos = (r.pos + 7) / 8 * 8;
                let l = r.bits(16)?;
                let n = r.bits(16)?;
                if l != (!n & 0xffff) {
                    return Err(Bad::Hard("stored length check"));
                }
                for _ in 0..l {
                    let b = r.bits(8)?;
                    out.push(b as u8);
                }
            }
            t @ (1 | 2) => {
                let (lit, dist) = if t == 1 {
                    let c = Codes::fixed();
                    (huff(&c.lit_lens)?, huff(&[5u8; 32])?)
                } else {
                    let nl = r.bits(5)? as usize + 257;
                    let nd = r.bits(5)? as usize + 1;
                    let nc = r.bits(4)? as usize + 4;
                    let mut cl = [0u8; 19];
                    for i in 0..nc {
                        cl[ORDER[i]] = r.bits(3)? as u8;
                    }
                    let soft_counts = nl > 286 || nd > 30;
                    let ch = huff(&cl)?;
                    let mut lens: Vec<u8> = vec![];
                    while lens.len() < nl + nd {
                        match ch.get(&mut r)? {
                            s @ 0..=15 => lens.push(s as u8),
                            16 => {
                                let p = *lens.last().ok_or(Bad::Hard("repeat without a length"))?;
                                for _ in 0..3 + r.bits(2)? {
                                    lens.push(p)
                                }
                            }
                            17 => {
                                for _ in 0..3 + r.bits(3)? {
                                    lens.push(0)
                                }
                            }
                            _ => {
                                for _ in 0..11 + r.bits(7)? {
                                    lens.push(0)
                                }
                            }
                        }
                    }
                    if lens.len() > nl + nd {
                        return Err(Bad::Soft("lengths overrun"));
                    }
                    if soft_counts {
                        return Err(Bad::Soft("too many symbols"));
                    }
                    if lens[256] == 0 {
                        return Err(Bad::Soft("no end of block code"));
                    }
                    (huff(&lens[..nl])?, huff(&lens[nl..])?)
                };
                loop {
                    let s = lit.get(&mut r)? as usize;
                    if s < 256 {
                        out.push(s as u8);
                    } else if s == 256 {
                        break;
                    } else {
                        let s = s - 257;
                        if s >= 29 {
                            return Err(Bad::Soft("length symbol 286/287"));
                        }
                        let len = LEN_BASE[s] as usize + r.bits(LEN_EXTRA[s] as u32)? as usize;
                        let s = dist.get(&mut r)? as usize;
                        if s >= 30 {
                            return Err(Bad::Soft("distance symbol 30/31"));
                        }
                        let dd = DIST_BASE[s] as usize + r.bits(DIST_EXTRA[s] as u32)? as usize;
                        if dd > out.len() {
                            return Err(Bad::Hard("distance before the start"));
                        }
                        for _ in 0..len {
                            let b = out[out.len() - dd];
                            out.push(b);
                        }
                        if out.len() > 1 << 24 {
                            return Err(Bad::Soft("too big for the reference"));
                        }
                    }
                }
            }
            _ => return Err(Bad::Hard("reserved block type"))
        }
        if last == 1 {
            return Ok((r.pos + 7) / 8);
        }
    }
}

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

pub fn crc32(d: &[u8]) -> u32 {
    crc32_upd(!0, d) ^ !0
}
pub fn crc32_upd(mut c: u32, d: &[u8]) -> u32 {
    for x in d {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    c
}

pub fn zlib(deflate: &[u8], data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    o.extend(deflate);
    o.extend(adler32(data).to_be_bytes());
    o
}

/// zlib stream made of stored blocks only
pub fn zlib_stored(data: &[u8]) -> Vec<u8> {
    let mut w = BitW::new();
    let n = data.len();
    let mut i = 0;
    loop {
        let k = (n - i).min(65535);
        stored(&mut w, i + k == n, &data[i..i + k]);
        i += k;
        if i == n {
            break;
        }
    }
    zlib(&w.out, data)
}
