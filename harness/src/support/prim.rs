//! Primitive integers as numbers.
#![allow(dead_code)]
use monitors::{gen, Big, Mon, Rng};

pub trait Prim: Copy + std::fmt::Debug + std::hash::Hash + PartialEq + 'static {
    const BITS: usize;
    const SIGNED: bool;
    const NAME: &'static str;
    fn of(v: &Big) -> Self;
    fn big(self) -> Big;
}

macro_rules! prims {
    ($($t:ident $s:literal)*) => {
        $(
            impl Prim for $t {
                const BITS: usize = $t::BITS as usize;
                const SIGNED: bool = $s;
                const NAME: &'static str = stringify!($t);
                fn of(v: &Big) -> Self {
                    let mut a = [0u8; 16];
                    a.copy_from_slice(&v.low_bytes(16));
                    u128::from_le_bytes(a) as $t
                }
                fn big(self) -> Big { if $s { Big::from_i128(self as i128) } else { Big::from_u128(self as u128) } }
            }
        )*
    };
}
prims!(u8 false u16 false u32 false u64 false u128 false usize false i8 true i16 true i32 true i64 true i128 true isize true);

pub fn limits<T: Prim>() -> (Big, Big) {
    if T::SIGNED {
        (Big::pow2(T::BITS - 1).neg(), Big::pow2(T::BITS - 1).sub(&Big::one()))
    } else {
        (Big::zero(), Big::pow2(T::BITS).sub(&Big::one()))
    }
}

pub fn fits<T: Prim>(v: &Big) -> bool {
    let (lo, hi) = limits::<T>();
    lo <= *v && *v <= hi
}

/// A value of `T` (signed types get both signs)
pub fn number<T: Prim>(m: &Mon, r: &mut Rng) -> Big {
    T::of(&Big::from_u128(gen::word(r, &m.dict, T::BITS as u32))).big()
}

/// A value whose magnitude has at most `bits` bits
pub fn short<T: Prim>(m: &Mon, r: &mut Rng, bits: usize) -> Big {
    let bits = bits.clamp(1, T::BITS - usize::from(T::SIGNED));
    let v = Big::from_u128(gen::word(r, &m.dict, (bits as u32).max(3))).modp2(bits);
    if T::SIGNED && r.bool() {
        v.neg()
    } else {
        v
    }
}
