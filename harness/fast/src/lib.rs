//! What the harness does most often, in a crate of its own so that it is optimised while the harness (which is
//! rebuilt for every change of the code under test) is not. Nothing here has to resist an attack: the
//! digest only has to tell apart the inputs that occur.

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A 256-bit digest.
pub fn digest(data: &[u8]) -> [u8; 32] {
    let mut s: [u64; 4] = [0x9e3779b97f4a7c15, 0x7f4a7c159e3779b9, 0x243f6a8885a308d3, 0x13198a2e03707344];
    let mut absorb = |w: u64| {
        for (i, x) in s.iter_mut().enumerate() {
            *x = mix(*x ^ w.rotate_left(i as u32 * 16)).wrapping_add(0x9e3779b97f4a7c15);
        }
    };
    let mut chunks = data.chunks_exact(8);
    for c in &mut chunks {
        absorb(u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    last[..chunks.remainder().len()].copy_from_slice(chunks.remainder());
    absorb(u64::from_le_bytes(last));
    absorb(data.len() as u64);
    let mut out = [0u8; 32];
    for i in 0..4 {
        let w = mix(s[i] ^ s[(i + 1) % 4].rotate_left(32));
        out[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
    }
    out
}

/// Lower case hex.
pub fn hex(data: &[u8]) -> String {
    const DIGITS: &[u8; 16] = b"0123456789abcdef";
    let mut out = Vec::with_capacity(data.len() * 2);
    for b in data {
        out.push(DIGITS[(b >> 4) as usize]);
        out.push(DIGITS[(b & 15) as usize]);
    }
    String::from_utf8(out).unwrap()
}
