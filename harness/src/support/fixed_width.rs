//! Values of a given number of bytes.
#![allow(dead_code)]
use monitors::{gen, Big, Mon, Rng};

pub fn bytes_of<const N: usize>(b: &Big) -> [u8; N] {
    let v = b.low_bytes(N);
    let mut a = [0; N];
    a.copy_from_slice(&v);
    a
}

/// An unsigned value of N bytes
pub fn value<const N: usize>(m: &Mon, r: &mut Rng) -> Big {
    let d = &m.dict;
    match r.below(4) {
        0 => {
            // Byte patterns
            let w = gen::words(r, d, 8, N);
            Big::from_le_bytes(false, &w.iter().map(|&x| x as u8).collect::<Vec<_>>())
        }
        1 => {
            let k = r.below(8 * N + 1);
            Big::pow2(k).add(&Big::from_i128(r.irange(-2, 2) as i128)).modp2(8 * N)
        }
        2 => {
            // Short values: only the low bytes set
            let n = r.range(1, N);
            let w = gen::words(r, d, 8, n);
            Big::from_le_bytes(false, &w.iter().map(|&x| x as u8).collect::<Vec<_>>())
        }
        _ => gen::big(r, d, N / 8 + 1).modp2(8 * N),
    }
}

/// A second operand, often related to the first
pub fn partner<const N: usize>(m: &Mon, r: &mut Rng, a: &Big) -> Big {
    let bits = 8 * N;
    match r.below(12) {
        0 => a.clone(),
        1 => Big::pow2(bits).sub(a).modp2(bits),
        2 => Big::pow2(bits).sub(a).sub(&Big::one()).modp2(bits),
        3 => a.add(&Big::one()).modp2(bits),
        4 => a.sub(&Big::one()).modp2(bits),
        5 => a.shr(r.below(bits + 1)),
        6 => a.shl(r.below(bits)).modp2(bits),
        7 if !a.is_zero() => {
            // Product right at the limit
            Big::pow2(bits).sub(&Big::one()).divrem(a).0.add(&Big::from_i128(r.irange(-1, 1) as i128)).modp2(bits)
        }
        8 => a.add(&Big::pow2(8 * r.below(N))).modp2(bits),
        9 => {
            let mut b = a.low_bytes(N);
            let i = r.below(N);
            b[i] = r.u64() as u8;
            Big::from_le_bytes(false, &b)
        }
        _ => value::<N>(m, r),
    }
}

#[macro_export]
macro_rules! for_width {
    ($pick:expr, $f:ident, $($arg:expr),*) => {
        match $pick {
            0 => $f::<1>($($arg),*),
            1 => $f::<2>($($arg),*),
            2 => $f::<3>($($arg),*),
            3 => $f::<4>($($arg),*),
            4 => $f::<5>($($arg),*),
            5 => $f::<7>($($arg),*),
            6 => $f::<8>($($arg),*),
            7 => $f::<9>($($arg),*),
            8 => $f::<12>($($arg),*),
            9 => $f::<15>($($arg),*),
            10 => $f::<16>($($arg),*),
            11 => $f::<17>($($arg),*),
            12 => $f::<20>($($arg),*),
            13 => $f::<32>($($arg),*),
            _ => $f::<33>($($arg),*),
        }
    };
}
pub const WIDTHS: usize = 15;

/// Widths tried now and then: what is left below 16, and some that are much wider
macro_rules! for_rare_width {
    ($pick:expr, $f:ident, $($arg:expr),*) => {
        match $pick {
            0 => $f::<6>($($arg),*),
            1 => $f::<10>($($arg),*),
            2 => $f::<11>($($arg),*),
            3 => $f::<13>($($arg),*),
            4 => $f::<14>($($arg),*),
            5 => $f::<24>($($arg),*),
            6 => $f::<31>($($arg),*),
            7 => $f::<64>($($arg),*),
            8 => $f::<65>($($arg),*),
            9 => $f::<130>($($arg),*),
            10 => $f::<18>($($arg),*),
            11 => $f::<28>($($arg),*),
            12 => $f::<40>($($arg),*),
            13 => $f::<48>($($arg),*),
            14 => $f::<63>($($arg),*),
            15 => $f::<96>($($arg),*),
            16 => $f::<128>($($arg),*),
            17 => $f::<255>($($arg),*),
            18 => $f::<256>($($arg),*),
            _ => $f::<257>($($arg),*),
        }
    };
}

/// Which of them: the widest ones take long and come up less often
pub fn rare_width(r: &mut Rng) -> usize {
    if r.chance(1, 8) {
        r.range(14, 19)
    } else {
        r.below(14)
    }
}
