//! C13 / C14: DEFLATE, zlib and gzip decoding, and the zlib writer
use crate::engine::*;
use crate::refs::deflate::{self as df, *};
use crate::util::*;
use crate::Check;
use zune_inflate::errors::DecodeErrorStatus;
use zune_inflate::{DeflateDecoder, DeflateEncoder, DeflateOptions};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C13",
            level: "model_checking",
            rule: "every sequence of DEFLATE tokens and blocks up to the stated depth, in every code shape, is written by an independent encoder and inflated by the real decoder; the expected bytes come from executing the tokens. All executions are non-trivial (valid streams); distinct = distinct decoded outputs",
            assumptions: &["the token alphabet stands for all literals/lengths/distances; lengths 3..258 and distances at every code boundary are covered separately"],
            scenarios: |_| vec![
                Scenario { name: "tokens", f: tokens },
                Scenario { name: "lendist", f: lendist },
                Scenario { name: "blocks", f: blocks },
                Scenario { name: "align", f: align },
                Scenario { name: "container", f: container },
                Scenario { name: "codelens", f: codelens },
                Scenario { name: "zlibenc", f: zlibenc }
            ]
        },
        Check {
            id: "C14",
            level: "fault_enumeration",
            rule: "every truncation point, every single bit flip and every byte substitution from a small set of a family of valid streams, and every output limit around the true size; non-trivial = the strict reference reader gives a definite verdict on the damaged stream",
            assumptions: &["streams on which RFC 1951 readers legitimately differ (incomplete codes, reserved symbols) are only required not to crash and to respect checksum and limit"],
            scenarios: |_| vec![
                Scenario { name: "truncate", f: truncate },
                Scenario { name: "bitflip", f: bitflip },
                Scenario { name: "limit", f: limit },
                Scenario { name: "gziphdr", f: gziphdr },
                Scenario { name: "zlibhdr", f: zlibhdr },
                Scenario { name: "wrong", f: wrong },
                Scenario { name: "tinyinputs", f: tiny }
            ]
        },
    ]
}

fn uniform() -> Codes {
    let mut l = vec![8u8; 286];
    l[200..260].fill(9);
    let mut d = vec![5u8; 30];
    d[0] = 4;
    d[29] = 4;
    Codes { lit_lens: l, dist_lens: d, fixed: false, rle: false, bad16: false }
}

/// code whose lengths are 1,2,..,14,15,15 over 16 symbols, in the given order
fn chain(order: &[usize], n: usize) -> Vec<u8> {
    let mut l = vec![0u8; n];
    let k = order.len();
    for (i, s) in order.iter().enumerate() {
        l[*s] = if i + 1 == k { i as u8 } else { i as u8 + 1 };
    }
    l
}

/// The symbols used by the token alphabet
const LITS: [u8; 3] = [b'a', b'b', 255];
const TOKS: [Tok; 14] = [
    Tok::Lit(b'a'),
    Tok::Match(3, 1),
    Tok::Lit(b'b'),
    Tok::Lit(255),
    Tok::Match(4, 2),
    Tok::Match(258, 1),
    Tok::Match(3, 3),
    Tok::Match(10, 7),
    Tok::Match(17, 16),
    Tok::Match(257, 33),
    Tok::Match(34, 257),
    Tok::Match(12, 4),
    Tok::Match(130, 129),
    Tok::Match(3, 300)
];

fn all_syms() -> (Vec<usize>, Vec<usize>) {
    let lit = vec![97, 98, 255, 256, 257, 258, 264, 265, 268, 272, 280, 284, 285, 0, 1, 271];
    let dist = vec![0, 1, 2, 3, 5, 7, 10, 13, 14, 15, 16, 17, 18, 29, 28, 27];
    (lit, dist)
}

fn code_set(ch: &mut Ch, n: usize) -> Codes {
    let k = ch.choose(n);
    let (mut l, mut d) = all_syms();
    match k {
        0 => Codes::fixed(),
        1 => uniform(),
        2 => Codes { lit_lens: chain(&l, 286), dist_lens: chain(&d, 30), fixed: false, rle: true, bad16: false },
        3 => {
            l.reverse();
            d.reverse();
            Codes { lit_lens: chain(&l, 286), dist_lens: chain(&d, 30), fixed: false, rle: true, bad16: false }
        }
        4 => {
            l.rotate_left(8);
            d.rotate_left(8);
            Codes { lit_lens: chain(&l, 286), dist_lens: chain(&d, 30), fixed: false, rle: false, bad16: false }
        }
        _ => {
            // 9 and 12 bit codes around the primary table sizes (11 and 8)
            let mut c = uniform();
            c.lit_lens = vec![0; 286];
            // 15 symbols at length 4 (15/16), then the last sixteenth split down
            for (i, s) in [97, 98, 256, 257, 258, 264, 265, 268, 272, 280, 284, 0, 1, 2, 3].iter().enumerate() {
                c.lit_lens[*s] = 4;
                let _ = i;
            }
            // 1/16 = 2^-12 * 256: 128 + 127 at 12 plus two at 13
            let mut free: Vec<usize> = (4..286).filter(|s| c.lit_lens[*s] == 0).collect();
            free.sort_by_key(|s| if *s == 255 || *s == 285 || *s == 271 { 0 } else { 1 });
            for s in free.iter().take(255) {
                c.lit_lens[*s] = 12;
            }
            c.lit_lens[free[255]] = 13;
            c.lit_lens[free[256]] = 13;
            // distances: 9 bit subtable codes
            c.dist_lens = vec![0; 30];
            for (i, s) in [0usize, 1, 2, 3, 5, 7, 10].iter().enumerate() {
                let _ = i;
                c.dist_lens[*s] = 3;
            }
            // remaining 1/8: 14 others: 8 at 7 (8/128=1/16), 6.. at 9/8
            for s in [13usize, 14, 15, 16, 17, 18, 29, 28] {
                c.dist_lens[s] = 7;
            }
            // 1/16 left: 4 at 7 -> 1/32, 1/32: 4 at 8 -> 1/64, 1/64: 8 at 9
            for s in [4usize, 6, 8, 9] {
                c.dist_lens[s] = 7;
            }
            for s in [11usize, 12, 19, 20] {
                c.dist_lens[s] = 8;
            }
            for s in [21usize, 22, 23, 24, 25, 26, 27] {
                c.dist_lens[s] = 9;
            }
            // seven used of eight: move one up to 8 bits
            c.dist_lens[27] = 8;
            c
        }
    }
}

fn decode_and_compare(
    ch: &mut Ch, kind: &str, stream: &[u8], expect: &[u8], opts: DeflateOptions, f: fn(&mut DeflateDecoder) -> Result<Vec<u8>, zune_inflate::errors::InflateDecodeErrors>
) -> Res {
    let mut d = DeflateDecoder::new_with_options(stream, opts);
    ch.obs_bytes(expect);
    match f(&mut d) {
        Ok(v) => {
            if v != expect {
                return bad(
                    format!("{kind}:wrong-bytes"),
                    format!("decoded bytes differ: {} stream={}", first_diff(&v, expect), show(stream))
                );
            }
            Ok(())
        }
        Err(e) => bad(
            format!("{kind}:rejected"),
            format!("a valid stream of {} output bytes was rejected: {:?} stream={}", expect.len(), e, show(stream))
        )
    }
}

fn deflate(d: &mut DeflateDecoder) -> Result<Vec<u8>, zune_inflate::errors::InflateDecodeErrors> {
    d.decode_deflate()
}

fn hints(ch: &mut Ch) -> DeflateOptions {
    let h = ch.pick(&[37000usize, 0, 1, 300]);
    DeflateOptions::default().set_size_hint(h)
}

fn tokens(ch: &mut Ch) -> Res {
    let codes = code_set(ch, 6);
    let pre = ch.pick(&[0usize, 1, 303]);
    let tail = ch.flag();
    let h = ch.pick(&[37000usize, 0]);
    let depth = if ch.thorough() { 4 } else { 3 };
    let mut toks: Vec<Tok> = vec![];
    let mut out = vec![];
    for i in 0..pre {
        let t = Tok::Lit(LITS[(i * i + i / 3) % 3]);
        toks.push(t);
        apply(&mut out, t);
    }
    for _ in 0..depth {
        let t = TOKS[ch.choose(TOKS.len())];
        if let Tok::Match(_, d) = t {
            if d as usize > out.len() {
                ch.discard();
                return Ok(());
            }
        }
        toks.push(t);
        apply(&mut out, t);
        ch.state(hash_bytes(&out));
    }
    let mut w = BitW::new();
    block(&mut w, !tail, &codes, &toks);
    if tail {
        let t = pattern(70, 3);
        stored(&mut w, true, &t);
        out.extend(t);
    }
    ch.note(|| format!("pre={pre} tail={tail} tokens={:?}", &toks[pre..]));
    decode_and_compare(ch, "tokens", &w.out, &out, DeflateOptions::default().set_size_hint(h), deflate)
}

/// every match length against every distance class, in both decode loops
fn lendist(ch: &mut Ch) -> Res {
    let ds: &[u16] = &[
        1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 18, 24, 25, 31, 32, 33, 34, 48, 49, 64, 65, 96, 97, 128,
        129, 192, 193, 256, 257, 258, 384, 385, 512, 513, 768, 769, 1024, 1025, 1536, 1537, 2048, 2049, 3072, 3073, 4096,
        4097, 6144, 6145, 8192, 8193, 12288, 12289, 16384, 16385, 24576, 24577, 32767, 32768
    ];
    let d = ch.pick(ds);
    let fast = ch.flag();
    let c = if ch.thorough() { ch.choose(3) } else { ch.choose(2) };
    let codes = match c {
        0 => Codes::fixed(),
        1 => uniform(),
        _ => code_set_of(5)
    };
    // several lengths per stream keeps the number of streams manageable
    let group = ch.choose(16);
    let exact = ch.flag();
    let data = pattern(if exact { d as usize } else { 32768.max(d as usize) }, 11);
    if exact && d > 8192 && !ch.thorough() {
        ch.discard();
        return Ok(());
    }
    let mut w = BitW::new();
    let mut out = data.clone();
    stored(&mut w, false, &data[..data.len().min(30000)]);
    if data.len() > 30000 {
        stored(&mut w, false, &data[30000..]);
    }
    let mut toks = vec![];
    for l in 3..=258u16 {
        if (l as usize) % 16 == group {
            if l >= 131 && c == 2 && l != 258 && len_missing(&codes, l) {
                continue;
            }
            if c == 2 && (len_missing(&codes, l)) {
                continue;
            }
            let t = Tok::Match(l, d);
            toks.push(t);
            apply(&mut out, t);
            let t = Tok::Lit(if c == 2 { 97 } else { l as u8 });
            toks.push(t);
            apply(&mut out, t);
        }
    }
    if toks.is_empty() {
        ch.discard();
        return Ok(());
    }
    if fast {
        block(&mut w, false, &codes, &toks);
        let t = pattern(80, 9);
        stored(&mut w, true, &t);
        out.extend(t);
    } else {
        // one block per token pair at the end: slow loop for each of the last ones
        block(&mut w, true, &codes, &toks[..2]);
        out.truncate(data.len());
        for t in &toks[..2] {
            apply(&mut out, *t);
        }
    }
    ch.note(|| format!("distance {d}, lengths = {group} mod 16, fast={fast}"));
    let o = hints(ch);
    decode_and_compare(ch, "lendist", &w.out, &out, o, deflate)
}
fn len_missing(c: &Codes, l: u16) -> bool {
    let mut s = 285;
    if l != 258 {
        for i in (0..28).rev() {
            if l >= LEN_BASE[i] {
                s = 257 + i;
                break;
            }
        }
    }
    c.lit_lens[s] == 0
}
fn code_set_of(k: u32) -> Codes {
    let p = [k];
    let mut c = Ch::new(&p, Tier::Quick, false);
    code_set(&mut c, 6)
}

fn blocks(ch: &mut Ch) -> Res {
    let depth = if ch.thorough() { 5 } else { 4 };
    let mut w = BitW::new();
    let mut out: Vec<u8> = vec![];
    let n = 1 + ch.choose(depth);
    let mut names = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let k = ch.choose(9);
        names.push(k);
        // a back reference into whatever came before
        let m = |out: &Vec<u8>| {
            if out.is_empty() {
                Tok::Lit(b'b')
            } else {
                Tok::Match(10, [1u16, 3, 7, 16, 257][(i * 2) % 5].min(out.len().min(300) as u16).max(1))
            }
        };
        match k {
            0 => stored(&mut w, last, &[]),
            1 => {
                stored(&mut w, last, &[i as u8]);
                out.push(i as u8)
            }
            2 => {
                let p = pattern(300, i as u32);
                stored(&mut w, last, &p);
                out.extend(p)
            }
            3 => block(&mut w, last, &Codes::fixed(), &[]),
            4 | 5 => {
                let c = if k == 4 { Codes::fixed() } else { uniform() };
                let mut t = vec![Tok::Lit(b'a')];
                apply(&mut out, t[0]);
                t.push(m(&out));
                apply(&mut out, t[1]);
                block(&mut w, last, &c, &t);
            }
            6 => {
                // literal only block, no distance code at all
                let mut c = uniform();
                c.dist_lens = vec![0; 30];
                let t = [Tok::Lit(b'q'), Tok::Lit(0)];
                block(&mut w, last, &c, &t);
                out.extend([b'q', 0]);
            }
            7 => {
                // a single distance code of one bit
                let mut c = uniform();
                c.dist_lens = vec![0; 30];
                c.dist_lens[0] = 1;
                c.rle = true;
                let t = [Tok::Lit(b'z'), Tok::Match(5, 1), Tok::Lit(b'y'), Tok::Match(258, 1)];
                block(&mut w, last, &c, &t);
                for x in t {
                    apply(&mut out, x);
                }
            }
            _ => {
                // two symbol literal code
                let mut l = vec![0u8; 286];
                l[65] = 1;
                l[256] = 1;
                let c = Codes { lit_lens: l, dist_lens: vec![0; 30], fixed: false, rle: true, bad16: false };
                let t = vec![Tok::Lit(65); 9 + i];
                block(&mut w, last, &c, &t);
                out.extend(vec![65; 9 + i]);
            }
        }
        ch.state(hash_bytes(&out));
    }
    let trailing = ch.pick(&[0usize, 1, 60]);
    let mut s = w.out.clone();
    s.extend(vec![0x55; trailing]);
    let o = hints(ch);
    ch.note(|| format!("blocks {names:?} trailing {trailing}"));
    decode_and_compare(ch, "blocks", &s, &out, o, deflate)
}

/// stored blocks at every bit alignment and close to the end of the input
fn align(ch: &mut Ch) -> Res {
    let lits = ch.choose(18);
    let nine = ch.choose(9).min(lits); // literals with nine-bit codes
    let len = ch.pick(&[0usize, 1, 2, 5, 7, 8, 9, 31, 32, 33, 300]);
    let after = ch.choose(3);
    let mut w = BitW::new();
    let mut toks = vec![];
    for i in 0..lits {
        toks.push(Tok::Lit(if i < nine { 200 } else { 65 + i as u8 }));
    }
    let mut out = vec![];
    for t in &toks {
        apply(&mut out, *t);
    }
    block(&mut w, false, &Codes::fixed(), &toks);
    let p = pattern(len, 5);
    stored(&mut w, after == 0, &p);
    out.extend(&p);
    if after == 1 {
        block(&mut w, true, &Codes::fixed(), &[Tok::Lit(1), Tok::Lit(2), Tok::Match(3, 1)]);
        out.extend([1, 2, 2, 2, 2]);
    } else if after == 2 {
        stored(&mut w, true, &pattern(40, 8));
        out.extend(pattern(40, 8));
    }
    let o = hints(ch);
    ch.note(|| format!("{lits} literals ({nine} of nine bits), stored {len}, after {after}"));
    decode_and_compare(ch, "align", &w.out, &out, o, deflate)
}

/// containers: zlib header variants and gzip optional fields
fn container(ch: &mut Ch) -> Res {
    let payload = ch.choose(3);
    let mut w = BitW::new();
    let mut out = vec![];
    match payload {
        0 => block(&mut w, true, &Codes::fixed(), &[]),
        1 => {
            let t = [Tok::Lit(1), Tok::Match(258, 1), Tok::Lit(7), Tok::Match(100, 3)];
            for x in t {
                apply(&mut out, x);
            }
            block(&mut w, true, &Codes::fixed(), &t);
        }
        _ => {
            let p = pattern(6000, 1);
            stored(&mut w, true, &p);
            out = p;
        }
    }
    let confirm = !ch.flag();
    let trailing = ch.pick(&[0usize, 1, 9]);
    let o = DeflateOptions::default().set_confirm_checksum(confirm);
    if ch.flag() {
        let cinfo = ch.choose(8) as u8;
        let flevel = ch.choose(4) as u8;
        let cmf = cinfo << 4 | 8;
        let mut flg = flevel << 6;
        flg += 31 - ((cmf as u16 * 256 + flg as u16) % 31) as u8;
        let mut s = vec![cmf, flg];
        s.extend(&w.out);
        s.extend(adler32(&out).to_be_bytes());
        s.extend(vec![9; trailing]);
        decode_and_compare(ch, "zlib", &s, &out, o, |d| d.decode_zlib())
    } else {
        let flags = ch.choose(32) as u8;
        let k = ch.pick(&[0usize, 1, 40, 600, 65535]);
        let mut s = vec![31, 139, 8, flags, 1, 2, 3, 4, 2, 3];
        if flags & 4 != 0 {
            s.extend((k as u16).to_le_bytes());
            s.extend(pattern(k, 2));
        }
        if flags & 8 != 0 {
            s.extend(vec![b'n'; k]);
            s.push(0);
        }
        if flags & 16 != 0 {
            s.extend(vec![b'c'; k]);
            s.push(0);
        }
        if flags & 2 != 0 {
            let c = crc32(&s) as u16;
            s.extend(c.to_le_bytes());
        }
        s.extend(&w.out);
        s.extend(crc32(&out).to_le_bytes());
        s.extend((out.len() as u32).to_le_bytes());
        s.extend(vec![9; trailing]);
        ch.note(|| format!("gzip flags {flags} field length {k} payload {payload}"));
        decode_and_compare(ch, "gzip", &s, &out, o, |d| d.decode_gzip())
    }
}

/// code-length sequences: every run length of the repeat codes
fn codelens(ch: &mut Ch) -> Res {
    // literals lo..lo+n of equal length with a zero gap of g symbols, plus EOB
    let n = 1usize << ch.choose(8); // number of used literals - power of two minus eob handled below
    let gap = ch.choose(if ch.thorough() { 150 } else { 30 });
    let lead = ch.choose(4);
    let rle = ch.flag();
    let mut lens = vec![0u8; 286];
    // n literals: total weight one half; EOB has length 1
    let bits = 1 + n.trailing_zeros() as u8;
    let mut placed = 0;
    let mut i = lead;
    while placed < n {
        if placed == n / 2 && placed > 0 && i == lead + n / 2 {
            i += gap.min(256 - n - lead);
        }
        if i >= 256 {
            ch.discard();
            return Ok(());
        }
        lens[i] = bits;
        placed += 1;
        i += 1;
    }
    lens[256] = 1;
    let c = Codes { lit_lens: lens.clone(), dist_lens: vec![0; 30], fixed: false, rle, bad16: false };
    let mut w = BitW::new();
    let toks: Vec<Tok> = (0..256).filter(|s| lens[*s] != 0).map(|s| Tok::Lit(s as u8)).collect();
    let mut out = vec![];
    for t in &toks {
        apply(&mut out, *t);
    }
    block(&mut w, true, &c, &toks);
    ch.note(|| format!("{n} literals of {bits} bits, gap {gap}, lead {lead}, rle {rle}"));
    let o = hints(ch);
    decode_and_compare(ch, "codelens", &w.out, &out, o, deflate)
}

fn zlibenc(ch: &mut Ch) -> Res {
    let sizes: &[usize] = &[
        0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 39, 40, 41, 79, 80, 81, 100, 255, 256, 1000, 32767, 32768, 65534, 65535, 65536,
        65537, 70000, 131070, 131071, 196605, 200000
    ];
    let n = ch.pick(sizes);
    let data = pattern(n, ch.choose(2) as u32);
    let z = DeflateEncoder::new(&data).encode_zlib();
    ch.obs_bytes(&z);
    if z.len() < 6 || z[0] & 15 != 8 || (z[0] as u32 * 256 + z[1] as u32) % 31 != 0 {
        return bad("zlibenc:header", format!("bad zlib header for {n} bytes"));
    }
    match df::inflate(&z[2..]) {
        Ok((v, used)) => {
            if v != data {
                return bad("zlibenc:bytes", format!("{n} bytes: {}", first_diff(&v, &data)));
            }
            if z[2 + used..].len() < 4 || z[2 + used..2 + used + 4] != adler32(&data).to_be_bytes() {
                return bad("zlibenc:adler", format!("{n} bytes: wrong checksum"));
            }
        }
        Err(e) => return bad("zlibenc:invalid", format!("{n} bytes: {:?}", e.0))
    }
    decode_and_compare(ch, "zlibenc", &z, &data, DeflateOptions::default(), |d| d.decode_zlib())
}

// ---------------------------------------------------------------------------------------- C14

/// valid streams: (deflate bytes, output)
fn base(k: usize) -> (Vec<u8>, Vec<u8>) {
    let mut w = BitW::new();
    let mut out = vec![];
    let mut toks = vec![];
    match k {
        0 => {
            toks = vec![Tok::Lit(b'a'), Tok::Lit(b'b'), Tok::Match(9, 2), Tok::Lit(200)];
            block(&mut w, true, &Codes::fixed(), &toks);
        }
        1 => {
            stored(&mut w, true, &pattern(20, 4));
            out = pattern(20, 4);
        }
        2 => {
            toks = vec![Tok::Lit(b'a'), Tok::Lit(255), Tok::Match(258, 1), Tok::Match(3, 3), Tok::Lit(b'b')];
            block(&mut w, true, &code_set_of(2), &toks);
        }
        3 => {
            let t = pattern(60, 7);
            for x in &t {
                toks.push(Tok::Lit(*x));
            }
            toks.push(Tok::Match(30, 33));
            toks.push(Tok::Match(130, 60));
            block(&mut w, true, &Codes::fixed(), &toks);
        }
        4 => {
            block(&mut w, false, &Codes::fixed(), &[Tok::Lit(3), Tok::Match(20, 1)]);
            apply(&mut out, Tok::Lit(3));
            apply(&mut out, Tok::Match(20, 1));
            stored(&mut w, false, &[1, 2, 3]);
            out.extend([1, 2, 3]);
            block(&mut w, false, &uniform_rle(), &[Tok::Lit(5), Tok::Match(15, 9)]);
            apply(&mut out, Tok::Lit(5));
            apply(&mut out, Tok::Match(15, 9));
            stored(&mut w, true, &[9; 4]);
            out.extend([9; 4]);
        }
        5 => {
            let p = pattern(300, 7);
            let t: Vec<Tok> = p.iter().map(|x| Tok::Lit(*x)).collect();
            block(&mut w, false, &uniform_rle(), &t);
            out.extend(&p);
            let t = [Tok::Match(258, 300), Tok::Match(4, 257), Tok::Lit(1)];
            block(&mut w, true, &code_set_of(3), &[Tok::Match(258, 257), Tok::Lit(1)]);
            let _ = t;
            apply(&mut out, Tok::Match(258, 257));
            apply(&mut out, Tok::Lit(1));
        }
        _ => block(&mut w, true, &Codes::fixed(), &[])
    }
    if out.is_empty() {
        for t in toks {
            apply(&mut out, t);
        }
    }
    (w.out, out)
}
fn uniform_rle() -> Codes {
    let mut c = uniform();
    c.rle = true;
    c
}

#[derive(Copy, Clone, PartialEq)]
enum Wrap {
    Raw,
    Zlib,
    Gzip
}

fn wrap(k: Wrap, d: &[u8], out: &[u8]) -> Vec<u8> {
    match k {
        Wrap::Raw => d.to_vec(),
        Wrap::Zlib => zlib(d, out),
        Wrap::Gzip => {
            let mut s = vec![31, 139, 8, 0, 0, 0, 0, 0, 0, 3];
            s.extend(d);
            s.extend(crc32(out).to_le_bytes());
            s.extend((out.len() as u32).to_le_bytes());
            s
        }
    }
}

/// strict verdict on a possibly damaged stream: Ok(bytes) / Err(Some) definite / Err(None) unknown
fn verdict(k: Wrap, s: &[u8], confirm: bool) -> Result<Vec<u8>, Option<&'static str>> {
    let definite = |b: df::Bad| match b {
        df::Bad::Truncated => Some("truncated"),
        df::Bad::Hard(m) => Some(m),
        df::Bad::Soft(_) => None
    };
    match k {
        Wrap::Raw => match df::inflate(s) {
            Ok((v, _)) => Ok(v),
            Err((b, _)) => Err(definite(b))
        },
        Wrap::Zlib => {
            if s.len() < 2 {
                return Err(Some("truncated"));
            }
            if s[0] & 15 != 8 || s[0] >> 4 > 7 {
                return Err(Some("bad method"));
            }
            if (s[0] as u32 * 256 + s[1] as u32) % 31 != 0 {
                return Err(Some("fcheck"));
            }
            if s[1] & 32 != 0 {
                // refers to data that nobody gave the decoder
                return Err(Some("preset dictionary"));
            }
            match df::inflate(&s[2..]) {
                Ok((v, n)) => {
                    if !confirm {
                        return if s.len() < n + 6 { Err(None) } else { Ok(v) };
                    }
                    match s.get(2 + n..6 + n) {
                        None => Err(Some("checksum missing")),
                        Some(a) if a != adler32(&v).to_be_bytes() => Err(Some("checksum differs")),
                        _ => Ok(v)
                    }
                }
                Err((b, _)) => Err(definite(b))
            }
        }
        Wrap::Gzip => {
            if s.len() < 10 {
                return Err(Some("truncated"));
            }
            if s[0] != 31 || s[1] != 139 || s[2] != 8 {
                return Err(Some("not gzip"));
            }
            let f = s[3];
            if f & 0xe0 != 0 {
                return Err(Some("reserved flag"));
            }
            let mut p = 10;
            if f & 4 != 0 {
                if s.len() < p + 2 {
                    return Err(Some("truncated"));
                }
                p += 2 + u16::from_le_bytes([s[p], s[p + 1]]) as usize;
            }
            for b in [8, 16] {
                if f & b != 0 {
                    loop {
                        match s.get(p) {
                            None => return Err(Some("truncated")),
                            Some(0) => {
                                p += 1;
                                break;
                            }
                            _ => p += 1
                        }
                    }
                }
            }
            if f & 2 != 0 {
                p += 2;
            }
            if p > s.len() {
                return Err(Some("truncated"));
            }
            let crc16_ok = f & 2 == 0 || crc32(&s[..p - 2]) as u16 == u16::from_le_bytes([s[p - 2], s[p - 1]]);
            if !crc16_ok && confirm {
                return Err(Some("header crc differs"));
            }
            match df::inflate(&s[p..]) {
                Ok((v, n)) => match s.get(p + n..p + n + 8) {
                    None => Err(Some("footer missing")),
                    Some(a) if confirm && a[..4] != crc32(&v).to_le_bytes() => Err(Some("crc differs")),
                    Some(a) if a[4..] != (v.len() as u32).to_le_bytes() => Err(if confirm { Some("size differs") } else { None }),
                    _ if !crc16_ok => Err(None),
                    _ => Ok(v)
                },
                Err((b, _)) => Err(definite(b))
            }
        }
    }
}

fn check_damaged(ch: &mut Ch, kind: &str, k: Wrap, s: &[u8], lim: usize, confirm: bool, hint: usize) -> Res {
    let o = DeflateOptions::default().set_limit(lim).set_confirm_checksum(confirm).set_size_hint(hint);
    let mut d = DeflateDecoder::new_with_options(s, o);
    let r = match k {
        Wrap::Raw => d.decode_deflate(),
        Wrap::Zlib => d.decode_zlib(),
        Wrap::Gzip => d.decode_gzip()
    };
    let v = verdict(k, s, confirm);
    ch.obs(match &r {
        Ok(v) => hash_bytes(v),
        Err(e) => hash_bytes(&e.data) ^ 1
    });
    match (&r, &v) {
        (Ok(a), _) if a.len() > lim => bad(format!("{kind}:over-limit"), format!("returned {} bytes with a limit of {lim}", a.len())),
        (Ok(a), Ok(b)) => {
            if a != b {
                return bad(format!("{kind}:wrong-bytes"), format!("{} stream={}", first_diff(a, b), show(s)));
            }
            Ok(())
        }
        (Ok(a), Err(Some(m))) => bad(
            format!("{kind}:accepted:{m}"),
            format!("accepted a damaged stream ({m}), {} bytes returned, stream={}", a.len(), show(s))
        ),
        (Ok(a), Err(None)) => {
            ch.trivial();
            if k == Wrap::Zlib && confirm {
                // whatever it decoded must match the checksum somewhere at the end of the stream
                let ad = adler32(a).to_be_bytes();
                if !s.windows(4).any(|w| w == ad) {
                    return bad(format!("{kind}:checksum-ignored"), "data returned whose checksum is nowhere in the stream");
                }
            }
            Ok(())
        }
        (Err(e), Ok(b)) => {
            if b.len() > lim {
                if !matches!(e.error, DecodeErrorStatus::OutputLimitExceeded(..)) {
                    return bad(format!("{kind}:wrong-error"), format!("over limit but error is {:?}", e));
                }
                return Ok(());
            }
            bad(format!("{kind}:rejected"), format!("rejected a valid stream: {:?} {}", e, show(s)))
        }
        (Err(e), Err(x)) => {
            if x.is_none() {
                ch.trivial();
            }
            let _ = e;
            Ok(())
        }
    }
}

fn pick_wrap(ch: &mut Ch) -> Wrap {
    ch.pick(&[Wrap::Raw, Wrap::Zlib, Wrap::Gzip])
}

fn truncate(ch: &mut Ch) -> Res {
    let k = pick_wrap(ch);
    let b = ch.choose(7);
    let (d, out) = base(b);
    let s = wrap(k, &d, &out);
    let n = ch.choose(s.len() + 1);
    let hint = ch.pick(&[37000usize, 0]);
    let confirm = !ch.flag();
    ch.note(|| format!("base {b} cut to {n} of {}", s.len()));
    check_damaged(ch, "truncate", k, &s[..n], 1 << 20, confirm, hint)
}

fn bitflip(ch: &mut Ch) -> Res {
    let k = pick_wrap(ch);
    let b = ch.choose(7);
    let (d, out) = base(b);
    let mut s = wrap(k, &d, &out);
    let n = ch.choose(s.len() * 8);
    s[n / 8] ^= 1 << (n % 8);
    let second = ch.thorough() && ch.flag();
    if second {
        let m = ch.choose(s.len().min(40) * 8);
        s[m / 8] ^= 1 << (m % 8);
    }
    let confirm = !ch.flag();
    let cut = ch.pick(&[0usize, 1, 4]);
    let l = s.len().saturating_sub(cut);
    ch.note(|| format!("base {b} bit {n} flipped, {cut} bytes cut"));
    check_damaged(ch, "bitflip", k, &s[..l], 1 << 20, confirm, 37000)
}

fn limit(ch: &mut Ch) -> Res {
    let k = pick_wrap(ch);
    let b = ch.choose(9);
    let (d, out) = match b {
        7 => {
            let p = pattern(70000, 3);
            let mut w = BitW::new();
            stored(&mut w, false, &p[..65000]);
            stored(&mut w, true, &p[65000..]);
            (w.out, p)
        }
        8 => {
            let p = pattern(5000, 3);
            let mut w = BitW::new();
            let t: Vec<Tok> = p.iter().map(|x| Tok::Lit(*x)).collect();
            block(&mut w, true, &Codes::fixed(), &t);
            (w.out, p)
        }
        _ => base(b)
    };
    let s = wrap(k, &d, &out);
    let delta = ch.pick(&[0i64, 1, -1, -2, -17, 17, -3000, -66000]);
    let lim = (out.len() as i64 + delta).max(0) as usize;
    let hint = ch.pick(&[37000usize, 0]);
    ch.note(|| format!("base {b}: {} bytes with limit {lim}", out.len()));
    check_damaged(ch, "limit", k, &s, lim, true, hint)
}

/// gzip headers with optional fields, truncated anywhere
fn gziphdr(ch: &mut Ch) -> Res {
    let (d, out) = base(ch.pick(&[0usize, 6]));
    let flags = ch.choose(32) as u8 | ch.pick(&[0u8, 0x20, 0x40, 0x80, 0xC0]);
    let xlen = ch.pick(&[0u16, 3, 200, 65535]);
    let mut s = vec![31, 139, 8, flags, 1, 2, 3, 4, 2, 3];
    if flags & 4 != 0 {
        s.extend(xlen.to_le_bytes());
        s.extend(vec![7; xlen.min(200) as usize]);
    }
    if flags & 8 != 0 {
        s.extend(b"name\0");
    }
    if flags & 16 != 0 {
        s.extend(b"\0");
    }
    if flags & 2 != 0 {
        let c = crc32(&s) as u16 ^ ch.pick(&[0u16, 1, 0x8000, 0x100]);
        s.extend(c.to_le_bytes());
    }
    s.extend(&d);
    s.extend(crc32(&out).to_le_bytes());
    s.extend((out.len() as u32).to_le_bytes());
    let n = ch.choose(s.len() + 1);
    let confirm = !ch.flag();
    ch.note(|| format!("gzip flags {flags:#x} xlen {xlen} cut to {n} confirm {confirm}"));
    check_damaged(ch, "gziphdr", Wrap::Gzip, &s[..n], 1 << 20, confirm, 100)
}

/// every zlib header
fn zlibhdr(ch: &mut Ch) -> Res {
    let (d, out) = base(ch.pick(&[0usize, 6]));
    let mut s = wrap(Wrap::Zlib, &d, &out);
    s[0] = ch.choose(256) as u8;
    s[1] = ch.choose(256) as u8;
    let confirm = !ch.flag();
    // a dictionary's checksum comes before the data
    if s[1] & 32 != 0 && ch.flag() {
        s.splice(2..2, [0, 1, 2, 3]);
    }
    ch.note(|| format!("zlib header {:02x} {:02x} confirm {confirm}", s[0], s[1]));
    check_damaged(ch, "zlibhdr", Wrap::Zlib, &s, 1 << 20, confirm, 100)
}

/// streams with one mistake every decoder has to notice, after every kind of block and before every amount of data
fn wrong(ch: &mut Ch) -> Res {
    let k = pick_wrap(ch);
    let mut w = BitW::new();
    let mut out = vec![];
    // what came before
    let n = ch.pick(&[0usize, 1, 2, 7, 40, 257, 5000]);
    let before = pattern(n, 3);
    match ch.choose(3) {
        0 => {}
        1 => {
            stored(&mut w, false, &before);
            out.extend(&before);
        }
        _ => {
            let t: Vec<Tok> = before.iter().map(|x| Tok::Lit(*x)).collect();
            block(&mut w, false, &Codes::fixed(), &t);
            out.extend(&before);
        }
    }
    let after = ch.pick(&[0usize, 1, 60, 400]);
    let lits: Vec<Tok> = (0..after).map(|i| Tok::Lit((i * 5) as u8 | 1)).collect();
    let what;
    match ch.choose(5) {
        // a distance that reaches before the start of the data
        0 => {
            let codes = if ch.flag() { Codes::fixed() } else { uniform_rle() };
            let own = ch.pick(&[0usize, 1, 2, 9, 300]);
            let mut t: Vec<Tok> = (0..own).map(|i| Tok::Lit(i as u8)).collect();
            let have = out.len() + own;
            let d = ch.pick(&[have + 1, have + 2, have + 9, have * 2 + 64, 32768]);
            if d > 32768 || d <= have {
                ch.discard();
                return Ok(());
            }
            let len = ch.pick(&[3u16, 8, 20, 258]);
            t.push(Tok::Match(len, d as u16));
            t.extend(&lits);
            what = format!("distance {d} after {have} bytes, length {len}");
            block(&mut w, true, &codes, &t);
        }
        // a repeated code length without one before it
        1 => {
            let mut l = vec![0u8; 286];
            let lead = ch.pick(&[3usize, 4, 6]);
            l[lead] = 2;
            l[lead + 1] = 2;
            l[256] = 1;
            let c = Codes { lit_lens: l, dist_lens: vec![0; 30], fixed: false, rle: true, bad16: true };
            what = format!("a repetition of no length, {lead}");
            let t: Vec<Tok> = lits.iter().enumerate().map(|(i, _)| Tok::Lit((lead + i % 2) as u8)).collect();
            block(&mut w, true, &c, &t);
        }
        // a stored length and its complement that do not agree
        2 => {
            let bit = ch.choose(32);
            let m = ch.pick(&[0usize, 1, 5, 300]);
            w.put(ch.choose(2) as u64, 1);
            w.put(0, 2);
            w.align();
            let l = m as u32 | (!(m as u32) << 16);
            w.out.extend((l ^ 1 << bit).to_le_bytes());
            w.out.extend(vec![3; m + after]);
            what = format!("stored length {m} with bit {bit} changed");
        }
        // the reserved kind of block
        3 => {
            w.put(ch.choose(2) as u64, 1);
            w.put(3, 2);
            w.align();
            w.out.extend(vec![3; after + 1]);
            what = "a block of the reserved type".into();
        }
        // too many codes of one length: literals, distances or code lengths
        _ => {
            let mut l = vec![0u8; 286];
            for i in 0..4 {
                l[60 + i] = 2;
            }
            l[256] = ch.pick(&[1u8, 2, 15]);
            let mut d = vec![0u8; 30];
            if ch.flag() {
                l[61] = 0;
                l[62] = 0;
                l[63] = 0;
                l[256] = 1;
                l[257] = 2;
                for i in 0..3 {
                    d[i * 5] = 1;
                }
            }
            what = "more codes than there are bits".into();
            let c = Codes { lit_lens: l, dist_lens: d, fixed: false, rle: ch.flag(), bad16: false };
            let t: Vec<Tok> = lits.iter().map(|_| Tok::Lit(60)).collect();
            block(&mut w, true, &c, &t);
        }
    }
    w.align();
    let s = wrap(k, &w.out, &out);
    ch.note(|| format!("{what} after {n} bytes, {after} bytes follow"));
    if verdict(k, &s, true).err().flatten().is_none() {
        return bad("harness", format!("{what}: the reference takes it: {:?}", df::inflate(&w.out)));
    }
    check_damaged(ch, "wrong", k, &s, 1 << 20, true, after * 100)
}

/// every input of up to two (three) bytes, and every three-byte prefix followed by zeros
fn tiny(ch: &mut Ch) -> Res {
    let k = pick_wrap(ch);
    let n = ch.choose(if ch.thorough() { 4 } else { 3 });
    let mut s = vec![];
    for _ in 0..n {
        s.push(ch.choose(256) as u8);
    }
    if k == Wrap::Zlib && n == 2 && ch.flag() {
        s.extend([3, 0, 0, 0, 0, 1]);
    }
    let o = ch.flag();
    if o {
        s.extend([0; 20]);
    }
    check_damaged(ch, "tiny", k, &s, 1 << 20, true, 0)
}
