//! Small helpers shared by the checks
pub fn pattern(n: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}
pub fn show(b: &[u8]) -> String {
    if b.len() <= 48 {
        format!("{b:?}")
    } else {
        format!("{:?}.. ({} bytes)", &b[..48], b.len())
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} vs {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("index {i}: {} vs {}", a[i], b[i]),
        None => "equal".into()
    }
}
