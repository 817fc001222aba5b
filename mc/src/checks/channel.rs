//! C27: a channel is a typed container
use crate::engine::*;
use crate::util::*;
use crate::Check;
use bytemuck::Pod;
use std::any::TypeId;
use zune_core::bit_depth::BitType;
use zune_image::channel::Channel;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C27",
        level: "model_checking",
        rule: "every sequence of channel operations up to the depth bound from every constructor and small capacity, compared after each operation with a plain byte vector, under an allocator that checks layouts and red zones; a state is (element type, length, capacity)",
        assumptions: &["element types u8, u16 and f32, the ones the library uses"],
        scenarios: |_| vec![
            Scenario { name: "u8", f: |c| run::<u8>(c) },
            Scenario { name: "u16", f: |c| run::<u16>(c) },
            Scenario { name: "f32", f: |c| run::<f32>(c) },
            Scenario { name: "long-u8", f: |c| long::<u8>(c) },
            Scenario { name: "long-u16", f: |c| long::<u16>(c) },
            Scenario { name: "long-f32", f: |c| long::<f32>(c) }
        ]
    }]
}

trait El: Pod + Default + 'static + std::fmt::Debug + PartialEq + Copy {
    fn v(i: usize) -> Self;
    const BT: BitType;
}
impl El for u8 {
    fn v(i: usize) -> u8 {
        (i * 37 + 11) as u8
    }
    const BT: BitType = BitType::U8;
}
impl El for u16 {
    fn v(i: usize) -> u16 {
        (i * 9973 + 0x1234) as u16
    }
    const BT: BitType = BitType::U16;
}
impl El for f32 {
    fn v(i: usize) -> f32 {
        i as f32 * 0.37 + 1.5
    }
    const BT: BitType = BitType::F32;
}

fn bytes<T: Pod>(v: &[T]) -> Vec<u8> {
    bytemuck::cast_slice(v).to_vec()
}

fn compare<T: El>(c: &mut Channel, m: &[u8], hist: &str) -> Res {
    let sz = std::mem::size_of::<T>();
    if c.len() != m.len() || c.is_empty() != m.is_empty() {
        return bad("len", format!("{hist}: length {} instead of {}", c.len(), m.len()));
    }
    if c.capacity() < c.len() {
        return bad("cap", format!("{hist}: capacity {} below length {}", c.capacity(), c.len()));
    }
    if c.type_id() != TypeId::of::<T>() {
        return bad("type", format!("{hist}: type id changed"));
    }
    let a = unsafe { c.alias() };
    if a != m {
        return bad("content", format!("{hist}: {}", first_diff(a, m)));
    }
    let a = unsafe { c.alias_mut() };
    if a != m {
        return bad("content", format!("{hist}: alias_mut {}", first_diff(a, m)));
    }
    match c.reinterpret_as::<T>() {
        Ok(s) => {
            if m.len() % sz != 0 {
                return bad("uneven", format!("{hist}: {} bytes exposed as {} byte elements", m.len(), sz));
            }
            if bytes(s) != m {
                return bad("view", format!("{hist}: typed view {s:?} differs from bytes {}", show(m)));
            }
        }
        Err(e) => {
            if m.len() % sz == 0 {
                return bad("refused", format!("{hist}: typed view refused: {e:?}"));
            }
        }
    }
    let own = TypeId::of::<T>();
    macro_rules! other {
        ($t:ty) => {
            if own != TypeId::of::<$t>() && (c.reinterpret_as::<$t>().is_ok() || c.reinterpret_as_mut::<$t>().is_ok()) {
                return bad("othertype", format!("{hist}: exposed as {}", stringify!($t)));
            }
        };
    }
    other!(u8);
    other!(u16);
    other!(f32);
    other!(i8);
    other!(u32);
    Ok(())
}

#[derive(Copy, Clone, Debug)]
enum Op {
    Push,
    PushOther,
    Extend(usize),
    ExtendOther,
    Fill,
    FillOther,
    SetLast,
    SwapClone,
    DropClone
}
const OPS: &[Op] = &[
    Op::Push,
    Op::Extend(1),
    Op::Extend(0),
    Op::Extend(3),
    Op::Extend(29),
    Op::Fill,
    Op::SetLast,
    Op::SwapClone,
    Op::DropClone,
    Op::PushOther,
    Op::ExtendOther,
    Op::FillOther
];

fn run<T: El>(ch: &mut Ch) -> Res {
    let sz = std::mem::size_of::<T>();
    let mut hist = String::new();
    let ctor = ch.choose(6);
    let n = if ctor == 0 { 0 } else { ch.pick(&[0usize, 1, 2, 3, 7, 12, 64]) };
    hist.push_str(&format!("{}({n})", ["new", "with_capacity", "with_length", "length_and_type", "bit_type", "from_elm"][ctor]));
    let (mut c, mut m): (Channel, Vec<u8>) = match ctor {
        0 => (Channel::new::<T>(), vec![]),
        1 => (Channel::new_with_capacity::<T>(n), vec![]),
        2 => (Channel::new_with_length::<T>(n), vec![0; n]),
        3 => (Channel::new_with_length_and_type(n, TypeId::of::<T>()), vec![0; n]),
        4 => (Channel::new_with_bit_type(n, T::BT), vec![0; n]),
        _ => (Channel::from_elm::<T>(n, T::v(3)), bytes(&vec![T::v(3); n]))
    };
    if ctor == 1 && c.capacity() < n {
        return bad("cap", format!("{hist}: capacity {}", c.capacity()));
    }
    compare::<T>(&mut c, &m, &hist)?;
    let depth = if ch.thorough() { 5 } else { 4 };
    let mut other: Option<(Channel, Vec<u8>)> = None;
    for step in 0..depth {
        let op = ch.pick(OPS);
        hist.push_str(&format!(" {op:?}"));
        let e = T::v(step + 5);
        match op {
            Op::Push => {
                c.push(e);
                m.extend(bytes(&[e]));
            }
            Op::PushOther => {
                if sz == 2 {
                    c.push(0x77u8);
                    m.push(0x77);
                } else {
                    c.push(0xBEEFu16);
                    m.extend(bytes(&[0xBEEFu16]));
                }
            }
            Op::Extend(k) => {
                let v: Vec<T> = (0..k).map(|i| T::v(step * 40 + i)).collect();
                c.extend(&v);
                m.extend(bytes(&v));
            }
            Op::ExtendOther => {
                // documented to refuse by panicking
                let r = guard(|| {
                    if sz == 2 {
                        c.extend(&[1u8, 2])
                    } else {
                        c.extend(&[1u16, 2])
                    }
                });
                if r.is_ok() {
                    return bad("extendtype", format!("{hist}: extended with another type"));
                }
            }
            Op::Fill => {
                let r = c.fill(e);
                if r.is_ok() != (m.len() % sz == 0) {
                    return bad("fill", format!("{hist}: fill {}", if r.is_ok() { "accepted" } else { "refused" }));
                }
                if r.is_ok() {
                    m = bytes(&vec![e; m.len() / sz]);
                }
            }
            Op::FillOther => {
                let r = if sz == 2 { c.fill(1u8) } else { c.fill(1u16) };
                if r.is_ok() {
                    return bad("filltype", format!("{hist}: filled with another type"));
                }
            }
            Op::SetLast => match c.reinterpret_as_mut::<T>() {
                Ok(s) => {
                    if m.len() % sz != 0 {
                        return bad("uneven", format!("{hist}: mutable view of {} bytes", m.len()));
                    }
                    if s.len() != m.len() / sz {
                        return bad("view", format!("{hist}: mutable view of {} elements", s.len()));
                    }
                    if let Some(l) = s.last_mut() {
                        *l = e;
                        let at = m.len() - sz;
                        m[at..].copy_from_slice(&bytes(&[e]));
                    }
                }
                Err(err) => {
                    if m.len() % sz == 0 {
                        return bad("refused", format!("{hist}: mutable view refused: {err:?}"));
                    }
                }
            },
            Op::SwapClone => {
                let d = c.clone();
                if d != c {
                    return bad("eq", format!("{hist}: a clone is not equal to its source"));
                }
                let old = std::mem::replace(&mut c, d);
                other = Some((old, m.clone()));
            }
            Op::DropClone => {
                let d = c.clone();
                if d != c {
                    return bad("eq", format!("{hist}: a clone is not equal to its source"));
                }
            }
        }
        compare::<T>(&mut c, &m, &hist)?;
        if let Some((o, om)) = &mut other {
            compare::<T>(o, om, &format!("{hist} [source of the clone]"))?;
            if (*o == c) != (*om == m) {
                return bad("eq", format!("{hist}: equality does not reflect the contents"));
            }
        }
        ch.state((m.len() as u64) << 32 | (c.capacity() as u64) << 3 | sz as u64);
    }
    ch.obs_bytes(&m);
    ch.note(|| format!("{hist} -> {}", show(&m)));
    Ok(())
}

/// channels of every length up to some hundreds of bytes and some beyond 65536: built in every way,
/// equal to what holds the same and to nothing else, whatever the place of the difference
fn long<T: El>(ch: &mut Ch) -> Res {
    let sz = std::mem::size_of::<T>();
    let top = if ch.thorough() { 300 } else { 150 };
    let k = ch.choose(top + 5);
    let n = if k < top { k + 1 } else { [255, 256, 1000, 16385, 70001][k - top] };
    let how = ch.choose(4);
    let v: Vec<T> = (0..n).map(|i| T::v(i % 2111)).collect();
    let want = bytes(&v);
    let make = |how: usize| {
        let mut c;
        match how {
            0 => {
                c = Channel::new::<T>();
                v.iter().for_each(|x| c.push(*x));
            }
            1 => {
                c = Channel::new_with_capacity::<T>(n / 2);
                c.extend(&v[..n / 3]);
                c.extend(&v[n / 3..]);
            }
            2 => {
                c = Channel::new_with_length::<T>(n * sz);
                c.reinterpret_as_mut::<T>().unwrap().copy_from_slice(&v);
            }
            _ => {
                c = Channel::new_with_bit_type(n * sz, T::BT);
                c.reinterpret_as_mut::<T>().unwrap().copy_from_slice(&v);
            }
        }
        c
    };
    let mut a = make(how);
    let what = format!("{n} elements of {sz} byte(s), built in way {how}");
    ch.note(|| what.clone());
    ch.state((n * 16 + how * 4 + sz / 2) as u64);
    compare::<T>(&mut a, &want, &what)?;
    let b = a.clone();
    if a != b {
        return bad("eq", format!("{what}: a clone is not equal to its source"));
    }
    for o in 0..4 {
        if make(o) != a {
            return bad("eq", format!("{what}: not equal to the same built in way {o}"));
        }
    }
    let places: Vec<usize> = if n <= top { (0..n).collect() } else { vec![0, 1, 7, 8, 63, 64, 127, 128, n / 2, n - 65, n - 64, n - 9, n - 8, n - 2, n - 1] };
    for i in places {
        let old = v[i];
        let s = a.reinterpret_as_mut::<T>().unwrap();
        s[i] = T::v(i % 2111 + 1);
        if a == b {
            return bad("eq", format!("{what}: equal to its clone after element {i} was changed"));
        }
        a.reinterpret_as_mut::<T>().unwrap()[i] = old;
        if a != b {
            return bad("eq", format!("{what}: not equal to its clone after element {i} was restored"));
        }
    }
    // of another length
    let mut longer = b.clone();
    longer.push(T::v(5));
    if longer == b || b == longer {
        return bad("eq", format!("{what}: equal to a channel with one more element"));
    }
    ch.obs_bytes(&want);
    Ok(())
}
