//! C20: casts between primitives, and their bytes.
use monitors::{gen, run, Big, Mon, Rng};
use numeric_traits::bytes::ConvertBytes;
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating, IntoChecked, IntoSaturating, IntoTruncating};

/// Bytes of a `usize` on the platform the monitor runs on
const WORD: usize = core::mem::size_of::<usize>();

trait Prim: Copy + std::fmt::Debug + std::hash::Hash + PartialEq + 'static {
    const BITS: usize;
    const SIGNED: bool;
    const NAME: &'static str;
    fn of(v: &Big) -> Self;
    fn big(self) -> Big;
}

fn wrap<T: Prim>(v: &Big) -> Big {
    if T::SIGNED {
        v.wrap_signed(T::BITS)
    } else {
        v.modp2(T::BITS)
    }
}

fn limits<T: Prim>() -> (Big, Big) {
    if T::SIGNED {
        (Big::pow2(T::BITS - 1).neg(), Big::pow2(T::BITS - 1).sub(&Big::one()))
    } else {
        (Big::zero(), Big::pow2(T::BITS).sub(&Big::one()))
    }
}

fn clamp<T: Prim>(v: &Big) -> Big {
    let (lo, hi) = limits::<T>();
    v.clone().clamp(lo, hi)
}

macro_rules! prims {
    ($($t:ident $s:literal)*) => {
        $(
            impl Prim for $t {
                const BITS: usize = $t::BITS as usize;
                const SIGNED: bool = $s;
                const NAME: &'static str = stringify!($t);
                fn of(v: &Big) -> Self {
                    let mut a = [0u8; 16];
                    a.copy_from_slice(&v.low_bytes(16));
                    u128::from_le_bytes(a) as $t
                }
                fn big(self) -> Big { if $s { Big::from_i128(self as i128) } else { Big::from_u128(self as u128) } }
            }
        )*
    };
}
prims!(u8 false u16 false u32 false u64 false u128 false usize false i8 true i16 true i32 true i64 true i128 true isize true);

fn checked<A: Prim + IntoChecked<B> + IntoTruncating<B>, B: Prim + FromChecked<A> + FromTruncating<A>>(m: &mut Mon, a: A) {
    let v = a.big();
    let name = || format!("{} {a:?} as {}", A::NAME, B::NAME);
    let fits = wrap::<B>(&v) == v;
    let got = m.run("checked", name, || (B::from_checked(a), IntoChecked::<B>::into_checked(a)));
    if let Some((g, h)) = got {
        let want = fits.then(|| v.clone());
        m.check("checked", g.map(B::big) == want && h == g, || format!("{}: got {g:?} / {h:?}", name()));
    }
    let got = m.run("truncating", name, || (B::truncate_from(a), IntoTruncating::<B>::truncate(a)));
    if let Some((g, h)) = got {
        m.check("truncating", g.big() == wrap::<B>(&v) && h == g, || format!("{}: got {g:?} / {h:?}", name()));
    }
}

fn saturating<A: Prim + IntoSaturating<B>, B: Prim + FromSaturating<A>>(m: &mut Mon, a: A) {
    let name = || format!("{} {a:?} saturated to {}", A::NAME, B::NAME);
    let got = m.run("saturating", name, || (B::saturate_from(a), IntoSaturating::<B>::saturate(a)));
    if let Some((g, h)) = got {
        m.check("saturating", g.big() == clamp::<B>(&a.big()) && h == g, || format!("{}: got {g:?} / {h:?}", name()));
    }
}

macro_rules! from {
    ($m:expr, $a:expr, $t:ident => $($u:ident)*) => {
        $( checked::<$t, $u>($m, $a); saturating::<$t, $u>($m, $a); )*
    };
}

macro_rules! all_from {
    ($name:ident, $t:ident) => {
        fn $name(m: &mut Mon, a: $t) {
            m.seen(&(stringify!($t), a));
            from!(m, a, $t => u8 u16 u32 u64 u128 usize i16 i32 i64 i128 isize);
            checked::<$t, i8>(m, a);
            to_float(m, a, a as f32, a as f64, <f32 as FromSaturating<$t>>::saturate_from, <f64 as FromSaturating<$t>>::saturate_from);
        }
    };
}
all_from!(from_u8, u8);
all_from!(from_u16, u16);
all_from!(from_u32, u32);
all_from!(from_u64, u64);
all_from!(from_u128, u128);
all_from!(from_usize, usize);
all_from!(from_i8, i8);
all_from!(from_i16, i16);
all_from!(from_i32, i32);
all_from!(from_i64, i64);
all_from!(from_i128, i128);
all_from!(from_isize, isize);

fn to_float<A: Prim>(m: &mut Mon, a: A, w32: f32, w64: f64, f: impl FnOnce(A) -> f32, g: impl FnOnce(A) -> f64) {
    let got = m.run("to float", || format!("{} {a:?}", A::NAME), || (f(a), g(a)));
    m.check("to float", got == Some((w32, w64)), || format!("{} {a:?} to floats: expected {w32:?} {w64:?}, got {got:?}", A::NAME));
}

/// A whole-numbered or out-of-range float is clamped; between two integers either neighbour may be chosen
fn of_float<B: Prim>(m: &mut Mon, x: f64, what: &'static str, f: impl FnOnce() -> B) {
    let name = || format!("{what} {x:?} to {}", B::NAME);
    let Some(got) = m.run("from float", name, f) else { return };
    if x.is_nan() {
        return;
    }
    let (lo, hi) = limits::<B>();
    let exact = |y: f64| -> Big {
        // y is whole
        let bits = y.abs().to_bits();
        let e = (bits >> 52) as i32 - 1075;
        let man = (bits & ((1 << 52) - 1)) | (1 << 52);
        let v = if y == 0.0 { Big::zero() } else if e >= 0 { Big::from_u128(u128::from(man)).shl(e as usize) } else { Big::from_u128(u128::from(man)).shr(-e as usize) };
        if y < 0.0 { v.neg() } else { v }
    };
    let (d, u) = if x.is_infinite() {
        if x > 0.0 { (hi.clone(), hi.clone()) } else { (lo.clone(), lo.clone()) }
    } else {
        (exact(x.floor()), exact(x.ceil()))
    };
    let c = |v: Big| v.clamp(lo.clone(), hi.clone());
    let g = got.big();
    m.check("from float", g == c(d) || g == c(u), || format!("{}: got {got:?}", name()));
}

fn floats(m: &mut Mon, r: &mut Rng) {
    let x = match r.below(8) {
        0 => f64::from_bits(r.u64()),
        1 => *r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, -0.9, 0.9, 255.0, 256.0, -1.0, -128.0, -129.0, 65535.9]),
        2 => (2f64).powi(r.irange(0, 130) as i32) * if r.bool() { 1.0 } else { -1.0 },
        3 => (2f64).powi(r.irange(0, 50) as i32) - 1.0,
        4 => r.irange(-300, 300) as f64 / 4.0,
        5 => -(2f64).powi(r.irange(0, 50) as i32) - 1.0,
        _ => r.u64() as i64 as f64 / (1 + r.below(1 << 20)) as f64,
    };
    m.seen(&("float", x.to_bits()));
    let y = x as f32;
    macro_rules! go { ($($t:ident)*) => { $(
        of_float::<$t>(m, x, "f64", || <$t as FromSaturating<f64>>::saturate_from(x));
        of_float::<$t>(m, f64::from(y), "f32", || <$t as FromSaturating<f32>>::saturate_from(y));
    )* } }
    go!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
}

fn bytes<T: Copy + ConvertBytes<N>, const N: usize>(m: &mut Mon, r: &mut Rng, name: &'static str, raw: impl Fn(T) -> u128, make: impl Fn(u128) -> T) {
    let v = gen::word(r, &m.dict, 8 * N as u32);
    let le: [u8; N] = v.to_le_bytes()[..N].try_into().unwrap();
    let mut be = le;
    be.reverse();
    let ne = if cfg!(target_endian = "little") { le } else { be };
    let t = make(v);
    m.seen(&("bytes", name, v));
    let got = m.run("bytes out", || format!("{name} {v:#x}"), || (t.to_le_bytes(), t.to_be_bytes(), t.to_ne_bytes()));
    m.check("bytes out", got == Some((le, be, ne)), || format!("{name} {v:#x} le, be, ne: {got:?}"));
    let got = m.run("bytes in", || format!("{name} {v:#x}"), || [T::from_le_bytes(le), T::from_be_bytes(be), T::from_ne_bytes(ne)].map(&raw));
    m.check("bytes in", got == Some([v; 3]), || format!("{name} from the bytes of {v:#x}: {got:x?}"));
}

/// A user's number, with the byte orders every implementor has to give and nothing else
#[derive(Clone, Copy)]
struct Own<const N: usize>(u128);

impl<const N: usize> ConvertBytes<N> for Own<N> {
    fn from_le_bytes(bytes: [u8; N]) -> Self {
        Own(bytes.iter().rev().fold(0, |a, b| a << 8 | u128::from(*b)))
    }

    fn from_be_bytes(bytes: [u8; N]) -> Self {
        Own(bytes.iter().fold(0, |a, b| a << 8 | u128::from(*b)))
    }

    fn to_le_bytes(self) -> [u8; N] {
        core::array::from_fn(|i| (self.0 >> (8 * i)) as u8)
    }

    fn to_be_bytes(self) -> [u8; N] {
        core::array::from_fn(|i| (self.0 >> (8 * (N - 1 - i))) as u8)
    }
}

fn main() {
    run("C20", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for a in 0..256usize {
            if m.mine(a) {
                from_u8(m, a as u8);
                from_i8(m, a as u8 as i8);
                saturating::<u8, i8>(m, a as u8);
                saturating::<i8, i8>(m, a as u8 as i8);
            }
        }
        for a in 0..65536usize {
            if m.mine(a) && m.go_until(60) {
                from_u16(m, a as u16);
                from_i16(m, a as u16 as i16);
                saturating::<u16, i8>(m, a as u16);
                saturating::<i16, i8>(m, a as u16 as i16);
                m.count("16-bit values done", 1);
            }
        }
        while m.go() {
            // Values around the limits of every type
            let w = *r.pick(&[8usize, 16, 32, 64, 128]);
            let near = Big::pow2(w - r.below(2)).add(&Big::from_i128(r.irange(-2, 2) as i128));
            let near = if r.bool() { near } else { near.neg() };
            for pick in 0..3 {
                macro_rules! go { ($($f:ident $t:ident)*) => { $(
                    let v: $t = if pick == 0 { <$t>::of(&near.modp2(128)) } else { gen::word(r, &m.dict, <$t>::BITS) as $t };
                    $f(m, v);
                )* } }
                go!(from_u32 u32 from_u64 u64 from_u128 u128 from_usize usize from_i32 i32 from_i64 i64 from_i128 i128 from_isize isize);
                macro_rules! i8s { ($($t:ident)*) => { $(
                    let v: $t = if pick == 0 { <$t>::of(&near.modp2(128)) } else { gen::word(r, &m.dict, <$t>::BITS) as $t };
                    saturating::<$t, i8>(m, v);
                )* } }
                i8s!(u32 u64 u128 usize i32 i64 i128);
            }
            floats(m, r);
            macro_rules! by { ($($t:ident $n:tt)*) => { $( bytes::<$t, $n>(m, r, stringify!($t), |t| (t as u128) & (u128::MAX >> (128 - 8 * $n)), |v| v as $t); )* } }
            by!(u8 1 u16 2 u32 4 u64 8 u128 16 usize { WORD } i8 1 i16 2 i32 4 i64 8 i128 16 isize { WORD });
            bytes::<f32, 4>(m, r, "f32", |t| u128::from(t.to_bits()), |v| f32::from_bits(v as u32));
            bytes::<f64, 8>(m, r, "f64", |t| u128::from(t.to_bits()), |v| f64::from_bits(v as u64));
            bytes::<Own<3>, 3>(m, r, "a user's type of 3 bytes", |t| t.0, Own);
            bytes::<Own<12>, 12>(m, r, "a user's type of 12 bytes", |t| t.0, Own);
            m.sample(|| format!("casts around {}", near.to_radix(10)));
        }
    });
}
