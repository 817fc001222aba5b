//! JPEG files built from quantised coefficients, and their ideal decoding
use crate::util::*;

pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57,
    50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63
];
#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8
}
#[derive(Clone)]
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    pub comps: Vec<Comp>,
    /// zig-zag order
    pub qt: Vec<[u16; 64]>,
    /// quantised coefficients of every component's padded block grid, zig-zag order
    pub co: Vec<Vec<[i16; 64]>>,
    /// segments written after SOI: marker, payload
    pub segs: Vec<(u8, Vec<u8>)>
}
#[derive(Clone, Debug)]
pub struct Scan {
    pub comps: Vec<usize>,
    pub ss: usize,
    pub se: usize,
    pub ah: u8,
    pub al: u8
}
#[derive(Clone, Debug)]
pub struct Coding {
    pub sof: u8,
    pub dri: usize,
    pub scans: Vec<Scan>,
    /// how Huffman codes are assigned: 0 optimal-ish, 1 equal lengths, 2 skewed, 3 one table of all 256 symbols
    pub huff: u8,
    pub max_eob: u32,
    /// fill bytes before markers
    pub fill: usize,
    /// one DHT/DQT segment per table or all in one (Huffman tables in reverse order unless `tables` is 0)
    pub joined: bool,
    pub pq16: bool,
    /// table numbers: 0 first component table 0, others 1; 1 tables 2 and 3; 2 a table for every component
    pub tables: u8,
    /// a scan's Huffman tables are sent only if they are not the ones sent before (useful with huff 3)
    pub once: bool,
    /// restart interval from the second scan on, if it changes
    pub dri2: Option<usize>,
    /// segments written before every scan's tables
    pub between: Vec<(u8, Vec<u8>)>,
    /// quantization tables: 0 all before the frame header, 1 before the first scan that uses them,
    /// 2 as 1 and all of them have number 0 (every scan one component)
    pub late: u8
}
impl Coding {
    fn table(&self, c: usize) -> usize {
        match self.tables {
            0 => (c > 0) as usize,
            1 => 2 + (c > 0) as usize,
            _ => c
        }
    }
    pub fn baseline(n: usize) -> Coding {
        Coding { sof: 0xC0, dri: 0, scans: vec![Scan { comps: (0..n).collect(), ss: 0, se: 63, ah: 0, al: 0 }], huff: 0, max_eob: 0x7fff, fill: 0, joined: false, pq16: false, tables: 0, once: false, dri2: None, between: vec![], late: 0 }
    }
}
enum Tok {
    Sym(usize, u8),
    Bits(u32, u32),
    Rst
}
fn size(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}
fn mag(v: i32) -> (u32, u32) {
    let n = size(v);
    ((if v < 0 { v - 1 } else { v } as u32) & ((1u32 << n) - 1), n)
}
impl Jpeg {
    pub fn new(w: usize, h: usize, samp: &[(usize, usize)], kind: usize, seed: u32) -> Jpeg {
        let comps: Vec<Comp> = samp.iter().enumerate().map(|(i, s)| Comp { id: i as u8 + 1, h: s.0, v: s.1, tq: (i > 0) as u8 }).collect();
        let q = |m: usize| {
            let mut t = [1u16; 64];
            for (i, x) in t.iter_mut().enumerate() {
                *x = match kind {
                    5 | 7 => 1,
                    6 => (250 + (i * m * 37) % 1300) as u16,
                    _ => (4 + (i * m) % 23) as u16
                };
            }
            t
        };
        let mut j = Jpeg { w, h, comps, qt: vec![q(3), q(5)], co: vec![], segs: vec![] };
        for c in 0..j.comps.len() {
            let (bw, bh) = j.grid(c);
            let r = pattern(bw * bh * 64 * 2, seed.wrapping_mul(31).wrapping_add(c as u32));
            let mut v = vec![];
            for b in 0..bw * bh {
                let mut k = [0i16; 64];
                let byte = |i: usize| i32::from(r[b * 128 + i]);
                let dc = match kind {
                    5 | 7 => (byte(0) - 128) * 7,
                    6 => byte(0) % 7 - 3,
                    _ => byte(0) - 128
                };
                k[0] = dc as i16;
                match kind {
                    0 => {}
                    // a few low frequencies, at most 10 coefficients
                    1 => {
                        for i in 1..10 {
                            if byte(i) & 1 == 1 {
                                k[i] = (byte(i + 64) % 9 - 4) as i16;
                            }
                        }
                    }
                    // sparse, long zero runs
                    2 => {
                        for i in [17, 18, 40, 63] {
                            if byte(i) & 3 != 0 {
                                k[i] = (byte(i + 64) % 7 - 3) as i16;
                            }
                        }
                    }
                    // dense
                    3 => {
                        for i in 1..64 {
                            k[i] = (byte(i) % 5 - 2) as i16;
                        }
                    }
                    // mostly empty blocks: long end-of-block runs
                    4 => {
                        k[0] = if byte(0) < 30 { dc as i16 } else { 3 };
                        if byte(1) < 40 {
                            let p = 1 + byte(2) as usize % 63;
                            k[p] = (byte(3) % 15 - 7) as i16;
                        }
                    }
                    // quantiser steps of more than 8 bits
                    6 => {
                        k[1 + byte(1) as usize % 63] = (byte(2) % 3 - 1) as i16;
                    }
                    // the largest magnitudes, up to the last coefficient
                    7 => {
                        for (i, p) in [63, 1, 20, 62].into_iter().enumerate() {
                            if byte(i + 1) & 3 != 0 || i == 0 {
                                let n = if byte(i + 9) & 3 == 0 { 10 } else { 7 + (byte(i + 20) & 3) };
                                k[p] = (((1 << n) - 1 - byte(i + 30) % 60) * if byte(i + 70) & 1 == 0 { 1 } else { -1 }) as i16;
                            }
                        }
                    }
                    // nothing but the last block: the longest end-of-block runs
                    8 => {
                        k[0] = (b % 3) as i16;
                        if b + 1 == bw * bh || b == 0 {
                            k[5] = 3;
                        }
                    }
                    // every magnitude category
                    _ => {
                        for i in 1..12 {
                            let n = byte(i) % 9;
                            k[i * 5] = ((byte(i + 64) & ((1 << n) - 1)) * if byte(i + 70) & 1 == 0 { 1 } else { -1 }) as i16;
                        }
                    }
                }
                v.push(k);
            }
            j.co.push(v);
        }
        j
    }
    /// a quantisation table for every component, and other component numbers
    pub fn apart(&mut self, ids: &[u8]) {
        let q = self.qt[1];
        self.qt.truncate(1);
        for (i, c) in self.comps.iter_mut().enumerate() {
            c.tq = i as u8;
            c.id = ids[i];
            if i > 0 {
                let mut t = q;
                for (k, x) in t.iter_mut().enumerate() {
                    *x = (*x + (i * (k % 5)) as u16).max(1);
                }
                self.qt.push(t);
            }
        }
    }
    pub fn hmax(&self) -> usize {
        self.comps.iter().map(|c| c.h).max().unwrap()
    }
    pub fn vmax(&self) -> usize {
        self.comps.iter().map(|c| c.v).max().unwrap()
    }
    pub fn mcus(&self) -> (usize, usize) {
        (self.w.div_ceil(8 * self.hmax()), self.h.div_ceil(8 * self.vmax()))
    }
    /// blocks of a component including padding
    pub fn grid(&self, c: usize) -> (usize, usize) {
        let (mx, my) = self.mcus();
        (mx * self.comps[c].h, my * self.comps[c].v)
    }
    /// blocks of a component in a scan of its own
    fn own(&self, c: usize) -> (usize, usize) {
        let k = &self.comps[c];
        ((self.w * k.h).div_ceil(self.hmax()).div_ceil(8), (self.h * k.v).div_ceil(self.vmax()).div_ceil(8))
    }
    /// zero the blocks that a scan of one component does not carry
    pub fn clear_padding(&mut self) {
        for c in 0..self.comps.len() {
            let (bw, _) = self.grid(c);
            let (ow, oh) = self.own(c);
            for (i, b) in self.co[c].iter_mut().enumerate() {
                if i % bw >= ow || i / bw >= oh {
                    *b = [0; 64];
                }
            }
        }
    }
    /// the blocks of a scan, unit by unit
    fn units(&self, s: &Scan) -> Vec<Vec<(usize, usize)>> {
        let mut o = vec![];
        if s.comps.len() == 1 {
            let c = s.comps[0];
            let (bw, _) = self.grid(c);
            let (ow, oh) = self.own(c);
            for y in 0..oh {
                for x in 0..ow {
                    o.push(vec![(c, y * bw + x)]);
                }
            }
        } else {
            let (mx, my) = self.mcus();
            for y in 0..my {
                for x in 0..mx {
                    let mut u = vec![];
                    for &c in &s.comps {
                        let k = &self.comps[c];
                        for v in 0..k.v {
                            for h in 0..k.h {
                                u.push((c, (y * k.v + v) * self.grid(c).0 + x * k.h + h));
                            }
                        }
                    }
                    o.push(u);
                }
            }
        }
        o
    }
    fn scan(&self, s: &Scan, cod: &Coding, dri: usize) -> Vec<Tok> {
        let mut t = vec![];
        let mut pred = vec![0i32; self.comps.len()];
        let prog = cod.sof == 0xC2;
        let mut eob = 0u32;
        let mut ebits: Vec<u8> = vec![];
        fn flush(t: &mut Vec<Tok>, eob: &mut u32, bits: &mut Vec<u8>, tab: usize) {
            if *eob > 0 {
                let n = 31 - eob.leading_zeros();
                t.push(Tok::Sym(tab, (n << 4) as u8));
                t.push(Tok::Bits(*eob & ((1 << n) - 1), n));
                *eob = 0;
            }
            for b in bits.drain(..) {
                t.push(Tok::Bits(b.into(), 1));
            }
        }
        for (n, unit) in self.units(s).into_iter().enumerate() {
            if dri > 0 && n > 0 && n % dri == 0 {
                if s.ss > 0 {
                    flush(&mut t, &mut eob, &mut ebits, 4 + cod.table(s.comps[0]));
                }
                t.push(Tok::Rst);
                pred.fill(0);
            }
            for (c, b) in unit {
                let k = &self.co[c][b];
                let (dt, at) = (cod.table(c), 4 + cod.table(c));
                if s.ss == 0 {
                    if s.ah > 0 {
                        t.push(Tok::Bits((i32::from(k[0]) >> s.al) as u32 & 1, 1));
                    } else {
                        let v = i32::from(k[0]) >> s.al;
                        let (m, n) = mag(v - pred[c]);
                        pred[c] = v;
                        t.push(Tok::Sym(dt, n as u8));
                        t.push(Tok::Bits(m, n));
                    }
                    if prog {
                        continue;
                    }
                }
                let lo = s.ss.max(1);
                if s.ah == 0 {
                    let mut r = 0;
                    for i in lo..=s.se {
                        let v = i32::from(k[i]);
                        let v = if v < 0 { -(-v >> s.al) } else { v >> s.al };
                        if v == 0 {
                            r += 1;
                            continue;
                        }
                        flush(&mut t, &mut eob, &mut ebits, at);
                        while r > 15 {
                            t.push(Tok::Sym(at, 0xF0));
                            r -= 16;
                        }
                        let (m, n) = mag(v);
                        t.push(Tok::Sym(at, (r << 4) as u8 | n as u8));
                        t.push(Tok::Bits(m, n));
                        r = 0;
                    }
                    if r > 0 {
                        if prog {
                            eob += 1;
                            if eob == cod.max_eob {
                                flush(&mut t, &mut eob, &mut ebits, at);
                            }
                        } else {
                            t.push(Tok::Sym(at, 0));
                        }
                    }
                } else {
                    let a = |i: usize| i32::from(k[i]).unsigned_abs() >> s.al;
                    let last = (lo..=s.se).rev().find(|i| a(*i) == 1).unwrap_or(0);
                    let mut r = 0;
                    let mut br: Vec<u8> = vec![];
                    for i in lo..=s.se {
                        let v = a(i);
                        if v == 0 {
                            r += 1;
                            continue;
                        }
                        while r > 15 && i <= last {
                            flush(&mut t, &mut eob, &mut ebits, at);
                            t.push(Tok::Sym(at, 0xF0));
                            r -= 16;
                            for b in br.drain(..) {
                                t.push(Tok::Bits(b.into(), 1));
                            }
                        }
                        if v > 1 {
                            br.push((v & 1) as u8);
                            continue;
                        }
                        flush(&mut t, &mut eob, &mut ebits, at);
                        t.push(Tok::Sym(at, (r << 4) as u8 | 1));
                        t.push(Tok::Bits((k[i] > 0) as u32, 1));
                        for b in br.drain(..) {
                            t.push(Tok::Bits(b.into(), 1));
                        }
                        r = 0;
                    }
                    if r > 0 || !br.is_empty() {
                        eob += 1;
                        ebits.extend(br);
                        if eob == cod.max_eob {
                            flush(&mut t, &mut eob, &mut ebits, at);
                        }
                    }
                }
            }
        }
        if s.ss > 0 {
            flush(&mut t, &mut eob, &mut ebits, 4 + cod.table(s.comps[0]));
        }
        t
    }
    pub fn file(&self, cod: &Coding) -> Vec<u8> {
        self.parts(cod).concat()
    }
    /// the file cut before every SOS, and the EOI at the end
    pub fn parts(&self, cod: &Coding) -> Vec<Vec<u8>> {
        let mut parts = vec![];
        let mut o = vec![0xFF, 0xD8];
        let seg = |o: &mut Vec<u8>, m: u8, b: &[u8]| {
            o.extend(vec![0xFF; cod.fill]);
            o.extend([0xFF, m]);
            o.extend((b.len() as u16 + 2).to_be_bytes());
            o.extend(b);
        };
        for (m, b) in &self.segs {
            seg(&mut o, *m, b);
        }
        let mut all = vec![];
        let dqt = |i: usize, number: u8| {
            let q = &self.qt[i];
            let wide = cod.pq16 || q.iter().any(|x| *x > 255);
            let mut b = vec![number | if wide { 16 } else { 0 }];
            for x in q {
                if wide {
                    b.extend(x.to_be_bytes());
                } else {
                    b.push(*x as u8);
                }
            }
            b
        };
        for i in 0..self.qt.len() {
            if cod.late > 0 {
                break;
            }
            let b = dqt(i, i as u8);
            if cod.joined {
                all.extend(b);
            } else {
                seg(&mut o, 0xDB, &b);
            }
        }
        if cod.joined && cod.late == 0 {
            seg(&mut o, 0xDB, &all);
        }
        let mut b = vec![8];
        b.extend((self.h as u16).to_be_bytes());
        b.extend((self.w as u16).to_be_bytes());
        b.push(self.comps.len() as u8);
        for c in &self.comps {
            b.extend([c.id, (c.h << 4 | c.v) as u8, if cod.late == 2 { 0 } else { c.tq }]);
        }
        seg(&mut o, cod.sof, &b);
        if cod.dri > 0 {
            seg(&mut o, 0xDD, &(cod.dri as u16).to_be_bytes());
        }
        let mut sent: Vec<Vec<u8>> = vec![];
        let mut defined: Vec<usize> = vec![];
        for (si, s) in cod.scans.iter().enumerate() {
            let dri = if si > 0 { cod.dri2.unwrap_or(cod.dri) } else { cod.dri };
            for (m, b) in &cod.between {
                seg(&mut o, *m, b);
            }
            for &c in &s.comps {
                let t = usize::from(self.comps[c].tq);
                let there = if cod.late == 2 { defined.last() == Some(&t) } else { defined.contains(&t) };
                if cod.late > 0 && !there {
                    seg(&mut o, 0xDB, &dqt(t, if cod.late == 2 { 0 } else { t as u8 }));
                    defined.push(t);
                }
            }
            if si == 1 && dri != cod.dri {
                seg(&mut o, 0xDD, &(dri as u16).to_be_bytes());
            }
            let toks = self.scan(s, cod, dri);
            let mut freq = vec![[0usize; 256]; 8];
            for t in &toks {
                if let Tok::Sym(t, s) = t {
                    freq[*t][*s as usize] += 1;
                }
            }
            // tables a scan names exist even when nothing uses them
            for &c in &s.comps {
                for t in [cod.table(c), 4 + cod.table(c)] {
                    if freq[t].iter().all(|x| *x == 0) {
                        freq[t][0] = 1;
                    }
                }
            }
            let mut codes: Vec<[(u16, u8); 256]> = vec![];
            let mut all = vec![];
            for (t, f) in freq.iter().enumerate() {
                let syms = lengths(f, cod.huff, t >= 4);
                let mut code = [(0u16, 0u8); 256];
                let mut next = 0u32;
                let mut prev = 0;
                let mut counts = [0u8; 17];
                for (s, l) in &syms {
                    next <<= *l - prev;
                    prev = *l;
                    code[*s as usize] = (next as u16, *l);
                    counts[*l as usize] += 1;
                    next += 1;
                }
                codes.push(code);
                if !syms.is_empty() {
                    let mut b = vec![(t as u8 & 3) | if t >= 4 { 16 } else { 0 }];
                    b.extend(&counts[1..]);
                    b.extend(syms.iter().map(|x| x.0));
                    if cod.once && sent.contains(&b) {
                        continue;
                    }
                    sent.retain(|x| x[0] != b[0]);
                    sent.push(b.clone());
                    if cod.joined && cod.tables > 0 {
                        all.splice(0..0, b);
                    } else if cod.joined {
                        all.extend(b);
                    } else {
                        seg(&mut o, 0xC4, &b);
                    }
                }
            }
            if cod.joined && !all.is_empty() {
                seg(&mut o, 0xC4, &all);
            }
            parts.push(std::mem::take(&mut o));
            let mut b = vec![s.comps.len() as u8];
            for &c in &s.comps {
                b.extend([self.comps[c].id, (cod.table(c) * 0x11) as u8]);
            }
            b.extend([s.ss as u8, s.se as u8, s.ah << 4 | s.al]);
            seg(&mut o, 0xDA, &b);
            let (mut acc, mut n, mut rst) = (0u64, 0u32, 0u8);
            let emit = |o: &mut Vec<u8>, acc: &mut u64, n: &mut u32, v: u32, l: u32| {
                *acc = *acc << l | u64::from(v);
                *n += l;
                while *n >= 8 {
                    let b = (*acc >> (*n - 8)) as u8;
                    o.push(b);
                    if b == 0xFF {
                        o.push(0);
                    }
                    *n -= 8;
                }
            };
            for t in toks {
                match t {
                    Tok::Sym(t, s) => {
                        let (v, l) = codes[t][s as usize];
                        assert!(l > 0);
                        emit(&mut o, &mut acc, &mut n, v.into(), l.into());
                    }
                    Tok::Bits(v, l) => {
                        if l > 0 {
                            emit(&mut o, &mut acc, &mut n, v, l)
                        }
                    }
                    Tok::Rst => {
                        if n > 0 {
                            let p = 8 - n;
                            emit(&mut o, &mut acc, &mut n, (1 << p) - 1, p);
                        }
                        o.extend(vec![0xFF; cod.fill]);
                        o.extend([0xFF, 0xD0 + rst]);
                        rst = (rst + 1) % 8;
                    }
                }
            }
            if n > 0 {
                let p = 8 - n;
                emit(&mut o, &mut acc, &mut n, (1 << p) - 1, p);
            }
        }
        o.extend(vec![0xFF; cod.fill]);
        o.extend([0xFF, 0xD9]);
        parts.push(o);
        parts
    }
    /// ideal samples of a component over its padded grid, rounded and clamped
    pub fn plane(&self, c: usize) -> (usize, usize, Vec<f64>) {
        let (bw, bh) = self.grid(c);
        let (pw, ph) = (bw * 8, bh * 8);
        let mut o = vec![0.0; pw * ph];
        let q = &self.qt[self.comps[c].tq as usize];
        let mut cs = [[0.0f64; 8]; 8];
        for (x, r) in cs.iter_mut().enumerate() {
            for (u, v) in r.iter_mut().enumerate() {
                let s = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
                *v = s / 2.0 * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos();
            }
        }
        for (b, k) in self.co[c].iter().enumerate() {
            let mut f = [0.0f64; 64];
            for i in 0..64 {
                f[ZZ[i]] = f64::from(k[i]) * f64::from(q[i]);
            }
            let mut tmp = [0.0f64; 64];
            for y in 0..8 {
                for x in 0..8 {
                    tmp[y * 8 + x] = (0..8).map(|u| cs[x][u] * f[y * 8 + u]).sum();
                }
            }
            for y in 0..8 {
                for x in 0..8 {
                    let s: f64 = (0..8).map(|v| cs[y][v] * tmp[v * 8 + x]).sum();
                    o[(b / bw * 8 + y) * pw + b % bw * 8 + x] = (s + 128.0).round().clamp(0.0, 255.0);
                }
            }
        }
        (pw, ph, o)
    }
    /// a component at image size: a factor of 2 is interpolated with weights 3:1, others repeat samples
    pub fn full(&self, c: usize) -> Vec<f64> {
        let (pw, ph, p) = self.plane(c);
        let (fh, fv) = (self.hmax() / self.comps[c].h, self.vmax() / self.comps[c].v);
        let tri = (fh, fv) == (2, 1) || (fh, fv) == (1, 2) || (fh, fv) == (2, 2);
        let near = |i: usize, f: usize, n: usize| -> (usize, usize) {
            if !tri || f == 1 {
                return (i / f, i / f);
            }
            let a = i / 2;
            (a, if i % 2 == 0 { a.saturating_sub(1) } else { (a + 1).min(n - 1) })
        };
        let mut o = vec![];
        for y in 0..self.h {
            let (y0, y1) = near(y, fv, ph);
            for x in 0..self.w {
                let (x0, x1) = near(x, fh, pw);
                let row = |x: usize| (3.0 * p[y0 * pw + x] + p[y1 * pw + x]) / 4.0;
                o.push((3.0 * row(x0) + row(x1)) / 4.0);
            }
        }
        o
    }
}
fn lengths(f: &[usize; 256], style: u8, ac: bool) -> Vec<(u8, u8)> {
    let mut s: Vec<u8> = (0..=255u8).filter(|x| f[*x as usize] > 0).collect();
    if s.is_empty() {
        return vec![];
    }
    if style == 3 {
        s = if ac { (0..=254).collect() } else { (0..=11).collect() };
    }
    s.sort_by_key(|x| (std::cmp::Reverse(f[*x as usize]), *x));
    let n = s.len();
    let l: Vec<u8> = match style {
        1 | 3 => {
            // equal lengths, the code of all ones unused
            let b = (1..=16).find(|b| (1usize << b) > n).unwrap();
            vec![b as u8; n]
        }
        2 => (0..n).map(|i| if i < 8 { i as u8 + 1 } else { 16 }).collect(),
        _ => {
            // Huffman, with a dummy symbol that takes the all ones code, limited to 16 bits
            let mut w: Vec<usize> = s.iter().map(|x| f[*x as usize]).collect();
            loop {
                let mut nodes: Vec<(usize, Vec<usize>)> = w.iter().enumerate().map(|(i, f)| (*f, vec![i])).collect();
                nodes.push((0, vec![n]));
                let mut d = vec![0u8; n + 1];
                while nodes.len() > 1 {
                    nodes.sort_by_key(|x| std::cmp::Reverse(x.0));
                    let a = nodes.pop().unwrap();
                    let b = nodes.pop().unwrap();
                    let m: Vec<usize> = a.1.into_iter().chain(b.1).collect();
                    for i in &m {
                        d[*i] += 1;
                    }
                    nodes.push((a.0 + b.0, m));
                }
                if *d.iter().max().unwrap() <= 16 {
                    let deepest = *d.iter().max().unwrap();
                    let _ = deepest;
                    d.truncate(n);
                    break d;
                }
                for x in &mut w {
                    *x = *x / 2 + 1;
                }
            }
        }
    };
    let mut o: Vec<(u8, u8)> = s.into_iter().zip(l).collect();
    o.sort_by_key(|x| x.1);
    o
}
/// A progressive script: DC scans, then the bands of every component with successive approximation
pub fn script(n: usize, dc_al: u8, dc_sep: bool, cuts: &[usize], ac_al: u8, order: usize) -> Vec<Scan> {
    let mut o = vec![];
    let dc = |ah, al| -> Vec<Scan> {
        if dc_sep {
            (0..n).map(|c| Scan { comps: vec![c], ss: 0, se: 0, ah, al }).collect()
        } else {
            vec![Scan { comps: (0..n).collect(), ss: 0, se: 0, ah, al }]
        }
    };
    o.extend(dc(0, dc_al));
    let mut bands = vec![];
    let mut at = 1;
    for c in cuts.iter().chain(&[63]) {
        bands.push((at, *c));
        at = c + 1;
    }
    let mut passes: Vec<(u8, u8)> = vec![(0, ac_al)];
    for a in (0..ac_al).rev() {
        passes.push((a + 1, a));
    }
    let dcr: Vec<Scan> = (0..dc_al).rev().flat_map(|a| dc(a + 1, a)).collect();
    let cs: Vec<usize> = if order == 1 { (0..n).rev().collect() } else { (0..n).collect() };
    let mut ac = vec![];
    match order {
        2 => {
            for &c in &cs {
                for &(ss, se) in &bands {
                    for &(ah, al) in &passes {
                        ac.push(Scan { comps: vec![c], ss, se, ah, al });
                    }
                }
            }
        }
        _ => {
            for &(ah, al) in &passes {
                for &(ss, se) in &bands {
                    for &c in &cs {
                        ac.push(Scan { comps: vec![c], ss, se, ah, al });
                    }
                }
            }
        }
    }
    if order == 1 {
        o.extend(dcr);
        o.extend(ac);
    } else {
        o.extend(ac);
        o.extend(dcr);
    }
    o
}
