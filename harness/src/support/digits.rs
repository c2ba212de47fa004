//! Digit slices of every unsigned type, and the numbers they stand for.
#![allow(dead_code)]
use monitors::{gen, Big, Mon, Rng};
use numeric_bits::bit_slice::BitLike;

pub trait Digit: BitLike + std::fmt::Debug + std::hash::Hash + Send + 'static {
    const W: usize;
    const NAME: &'static str;
    fn of(v: u128) -> Self;
    fn u(self) -> u128;
}

macro_rules! digit {
    ($($t:ident)*) => {$(
        impl Digit for $t {
            const W: usize = $t::BITS as usize;
            const NAME: &'static str = stringify!($t);
            fn of(v: u128) -> Self { v as $t }
            fn u(self) -> u128 { self as u128 }
        }
    )*};
}
digit!(u8 u16 u32 u64 u128 usize);

pub fn value<D: Digit>(s: &[D]) -> Big {
    let mut bytes = vec![];
    for d in s {
        bytes.extend_from_slice(&d.u().to_le_bytes()[..D::W / 8]);
    }
    Big::from_le_bytes(false, &bytes)
}

/// The low `n` digits of a non-negative number
pub fn digits<D: Digit>(b: &Big, n: usize) -> Vec<D> {
    let bytes = b.low_bytes(n * D::W / 8);
    bytes
        .chunks(D::W / 8)
        .map(|c| {
            let mut a = [0u8; 16];
            a[..c.len()].copy_from_slice(c);
            D::of(u128::from_le_bytes(a))
        })
        .collect()
}

pub fn slice<D: Digit>(m: &Mon, r: &mut Rng, max: usize) -> Vec<D> {
    let n = gen::len(r, &m.dict, max);
    let mut v: Vec<D> = gen::words(r, &m.dict, D::W as u32, n).into_iter().map(D::of).collect();
    if r.chance(1, 6) {
        // Leading zero digits
        v.extend((0..r.range(1, 3)).map(|_| D::of(0)));
    }
    v
}

/// A second operand, often related to the first, often of another length
pub fn partner<D: Digit>(m: &Mon, r: &mut Rng, a: &[D], max: usize) -> Vec<D> {
    let (v, n) = (value(a), a.len());
    match r.below(14) {
        0 => a.to_vec(),
        1 => digits(&Big::pow2(n * D::W).sub(&v), n),
        2 => digits(&Big::pow2(n * D::W).sub(&v).sub(&Big::one()), n),
        3 => digits(&v.add(&Big::one()), n + 1),
        4 if !v.is_zero() => digits(&v.sub(&Big::one()), n),
        5 => {
            let mut b = a.to_vec();
            let i = r.below(n);
            b[i] = D::of(gen::word(r, &m.dict, D::W as u32));
            b
        }
        6 => {
            // The same number with another length
            let mut b = a.to_vec();
            b.extend((0..r.range(1, 3)).map(|_| D::of(0)));
            b
        }
        7 => a[..r.range(1, n)].to_vec(),
        8 => digits(&v.shl(r.below(2 * D::W)), n + 2),
        9 => {
            let k = r.below(v.bits() + 1);
            digits(&v.shr(k), n)
        }
        10 if !v.is_zero() => {
            // A product right at the limit of the length of `a`
            let q = Big::pow2(n * D::W).sub(&Big::one()).divrem(&v).0;
            digits(&q.add(&Big::from_u128(r.below(2) as u128)), n + 1)
        }
        _ => slice(m, r, max),
    }
}

pub fn show<D: Digit>(s: &[D]) -> String {
    format!("[{}]{}", s.iter().map(|d| format!("{:#x}", d.u())).collect::<Vec<_>>().join(", "), D::NAME)
}

#[macro_export]
macro_rules! for_digit {
    ($pick:expr, $f:ident, $($arg:expr),*) => {
        match $pick {
            0 => $f::<u8>($($arg),*),
            1 => $f::<u16>($($arg),*),
            2 => $f::<u32>($($arg),*),
            3 => $f::<u64>($($arg),*),
            4 => $f::<u128>($($arg),*),
            _ => $f::<usize>($($arg),*),
        }
    };
}
pub const DIGITS: usize = 6;
