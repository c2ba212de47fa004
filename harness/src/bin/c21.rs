//! C21: fixed-point numbers. A value is observed by comparing it with the value built from the expected raw integer;
//! the comparison itself is judged first.
#[path = "../support/bi.rs"]
mod bi;
#[path = "../support/prim.rs"]
mod prim;
use monitors::{run, Big, Mon, Rng};
use numeric_ints::{BigInt, U};
use numeric_reals::Fixed;
use numeric_traits::cast::FromTruncating;
use numeric_traits::class::{Bounded, BoundedSigned, Integral, Real, Signed};
use numeric_traits::identity::{One, Zero};
use prim::*;
use std::ops::Neg;

trait Base: Prim + Integral + Ord + Bounded + FromTruncating<usize> {}
impl<T: Prim + Integral + Ord + Bounded + FromTruncating<usize>> Base for T {}

fn fx<T: Base, const N: usize>(v: &Big) -> Fixed<T, N> {
    Fixed::from_raw(T::of(v))
}

fn name<T: Prim, const N: usize>(op: &str, a: &Big, b: &Big) -> String {
    format!("Fixed<{}, {N}> {op}(raw {}, raw {})", T::NAME, a.to_radix(10), b.to_radix(10))
}

fn judge<T: Base, const N: usize>(m: &mut Mon, rule: &'static str, a: &Big, b: &Big, want: &Big, f: impl FnOnce() -> Fixed<T, N>) {
    let Some(got) = m.run(rule, || name::<T, N>(rule, a, b), f) else { return };
    m.check(rule, got == fx::<T, N>(want), || {
        // Find out what it was, for the report
        let near = (-300..300).map(|d| want.add(&Big::from_i128(d))).filter(|v| fits::<T>(v)).find(|v| fx::<T, N>(v) == got);
        format!("{}: expected raw {}, got {}", name::<T, N>(rule, a, b), want.to_radix(10), near.map_or("something else".into(), |v| format!("raw {}", v.to_radix(10))))
    });
}

fn pair<T: Base, const N: usize>(m: &mut Mon, a: &Big, b: &Big) {
    let (x, y) = (fx::<T, N>(a), fx::<T, N>(b));
    m.seen(&(T::NAME, N, a, b));
    let w = a.cmp(b);
    let got = m.run("compare", || name::<T, N>("cmp", a, b), || (x.cmp(&y), x.partial_cmp(&y), x == y, x != y, x < y, x > y, x <= y, x >= y));
    m.check("compare", got == Some((w, Some(w), w.is_eq(), w.is_ne(), w.is_lt(), w.is_gt(), w.is_le(), w.is_ge())), || format!("{}: {got:?}", name::<T, N>("cmp", a, b)));
    let sum = a.add(b);
    if fits::<T>(&sum) {
        m.count("sums in range", 1);
        judge::<T, N>(m, "add", a, b, &sum, || x + y);
    }
    let dif = a.sub(b);
    if fits::<T>(&dif) {
        judge::<T, N>(m, "sub", a, b, &dif, || x - y);
    }
    let pro = a.mul(b);
    if fits::<T>(&pro) {
        m.count("products in range", 1);
        judge::<T, N>(m, "mul", a, b, &pro.div_floor(&Big::pow2(N)), || x * y);
    }
    if b.is_zero() {
        let p = m.attempt("division by zero panics", || x / y).is_err() && m.attempt("division by zero panics", || x % y).is_err();
        m.check("division by zero panics", p, || name::<T, N>("div returned:", a, b));
        return;
    }
    let scaled = a.shl(N);
    let quo = scaled.divrem(b).0;
    if fits::<T>(&scaled) && fits::<T>(&quo) {
        m.count("quotients in range", 1);
        m.event(53, || format!("div {} {} {}", scaled.hex(), b.hex(), quo.hex()));
        judge::<T, N>(m, "div", a, b, &quo, || x / y);
    }
    // MIN % -1 overflows in the underlying type
    if fits::<T>(&a.divrem(b).0) {
        judge::<T, N>(m, "rem", a, b, &a.divrem(b).1, || x % y);
    }
}

fn single<T: Base, const N: usize>(m: &mut Mon, a: &Big) {
    let x = fx::<T, N>(a);
    let one = Big::pow2(N);
    let z = Big::zero();
    m.seen(&(T::NAME, N, a));
    let up = a.shl(N);
    if fits::<T>(&up) {
        judge::<T, N>(m, "from_val", a, &z, &up, || Fixed::from_val(T::of(a)));
    }
    // The rounding operations work with one and two units
    if fits::<T>(&one.add(&one)) {
        let floor = a.div_floor(&one).mul(&one);
        let ceil = if floor == *a { floor.clone() } else { floor.add(&one) };
        let fract = a.divrem(&one).1;
        judge::<T, N>(m, "floor", a, &z, &floor, || x.floor());
        if fits::<T>(&ceil) {
            judge::<T, N>(m, "ceil", a, &z, &ceil, || x.ceil());
            // Nearest whole number; exactly halfway, the lower one
            let twice = a.sub(&floor).shl(1);
            let round = if twice > one { ceil } else { floor };
            judge::<T, N>(m, "round", a, &z, &round, || x.round());
        }
        judge::<T, N>(m, "trunc", a, &z, &a.sub(&fract), || x.trunc());
        judge::<T, N>(m, "fract", a, &z, &fract, || x.fract());
        let got = m.run("identities", || name::<T, N>("is_one", a, &z), || (x.is_zero(), x.is_one(), Fixed::<T, N>::zero() == fx(&z), Fixed::<T, N>::one() == fx(&one), Fixed::<T, N>::new() == fx(&z), Fixed::<T, N>::default() == fx(&z)));
        m.check("identities", got == Some((a.is_zero(), *a == one, true, true, true, true)), || format!("{}: {got:?}", name::<T, N>("is_zero, is_one, zero, one, new, default", a, &z)));
    }
    // Printing: exact decimal digits, the whole part left out if zero
    let ten = Big::from_u128(10).pow(N as u64);
    let scaled = a.mul(&ten);
    if N > 0 && fits::<T>(&scaled) && fits::<T>(&scaled.abs()) && fits::<T>(&ten) {
        let digits = scaled.abs().divrem(&one).0.to_radix(10);
        let digits = format!("{digits:0>N$}");
        let (w, f) = digits.split_at(digits.len() - N);
        let want = format!("{}{w}.{f}", if a.neg && scaled.abs() >= one { "-" } else { "" });
        let got = m.run("debug text", || name::<T, N>("text", a, &z), || format!("{x:?}"));
        m.count("values printed", 1);
        m.check("debug text", got.as_ref() == Some(&want), || format!("{}: expected {want}, got {got:?}", name::<T, N>("text", a, &z)));
    }
}

fn signed<T: Base + Signed + Neg<Output = T>, const N: usize>(m: &mut Mon, a: &Big) {
    let x = fx::<T, N>(a);
    let z = Big::zero();
    let got = m.run("signs", || name::<T, N>("signs", a, &z), || (x.is_positive(), x.is_negative()));
    m.check("signs", got == Some((!a.neg, a.neg)), || format!("{}: {got:?}", name::<T, N>("is_positive, is_negative", a, &z)));
    if fits::<T>(&a.neg()) {
        judge::<T, N>(m, "neg", a, &z, &a.neg(), || -x);
        judge::<T, N>(m, "abs", a, &z, &a.abs(), || x.abs());
    }
    let one = Big::one();
    let got = m.run("signed limits", String::new, || Fixed::<T, N>::min_positive() == fx(&one) && Fixed::<T, N>::max_negative() == fx(&one.neg()));
    m.check("signed limits", got == Some(true), || format!("Fixed<{}, {N}> smallest positive and largest negative", T::NAME));
}

fn limit<T: Base, const N: usize>(m: &mut Mon) {
    let (lo, hi) = limits::<T>();
    let got = m.run("limits", String::new, || Fixed::<T, N>::min_value() == fx(&lo) && Fixed::<T, N>::max_value() == fx(&hi));
    m.check("limits", got == Some(true), || format!("Fixed<{}, {N}> limits", T::NAME));
}

/// Raw values: anything, around whole and half numbers, or short enough for products
fn raw<T: Prim, const N: usize>(m: &Mon, r: &mut Rng) -> Big {
    let v = match r.below(5) {
        0 => number::<T>(m, r),
        1 => {
            let off = Big::from_i128(r.irange(-2, 2) as i128);
            short::<T>(m, r, T::BITS - N).shl(N).add(&off)
        }
        2 if N > 0 => {
            let off = Big::from_i128(r.irange(-1, 1) as i128);
            short::<T>(m, r, T::BITS.saturating_sub(N + 1)).shl(N).add(&Big::pow2(N - 1)).add(&off)
        }
        3 => short::<T>(m, r, N + 3),
        _ => short::<T>(m, r, T::BITS / 2),
    };
    if fits::<T>(&v) {
        v
    } else {
        short::<T>(m, r, T::BITS - 1)
    }
}

fn random<T: Base, const N: usize>(m: &mut Mon, r: &mut Rng) -> Big {
    let a = raw::<T, N>(m, r);
    let b = match r.below(6) {
        0 => a.clone(),
        1 if fits::<T>(&a.neg()) => a.neg(),
        2 if fits::<T>(&a.add(&Big::one())) => a.add(&Big::one()),
        3 => short::<T>(m, r, N + 1),
        _ => raw::<T, N>(m, r),
    };
    pair::<T, N>(m, &a, &b);
    single::<T, N>(m, &a);
    limit::<T, N>(m);
    m.sample(|| name::<T, N>("ops", &a, &b));
    a
}

fn random_s<T: Base + Signed + Neg<Output = T>, const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a = random::<T, N>(m, r);
    signed::<T, N>(m, &a);
}

/// Over the library's own integers: `U<W>` of `width` bits, or BigInt (no width; there, a negative value is
/// only added, subtracted, divided and compared, as its right shift is not that of two's complement)
#[allow(clippy::too_many_arguments)]
fn own<T: Integral, const N: usize>(m: &mut Mon, what: &'static str, width: Option<usize>, make: &dyn Fn(&Big) -> T, a: &Big, b: &Big) {
    let fits = |v: &Big| width.is_none_or(|w| !v.neg && v.bits() <= w);
    let fx = |v: &Big| Fixed::<T, N>::from_raw(make(v));
    let say = |op: &str| format!("Fixed<{what}, {N}> {op}(raw {}, raw {})", a.to_radix(10), b.to_radix(10));
    let mut judge = |m: &mut Mon, rule: &'static str, want: &Big, f: &dyn Fn() -> Fixed<T, N>| {
        let Some(got) = m.run(rule, || say(rule), f) else { return };
        m.check(rule, got == fx(want), || format!("{}: expected raw {}, got something else", say(rule), want.to_radix(10)));
    };
    m.seen(&(what, N, a, b));
    let one = Big::pow2(N);
    let (pos, w) = (!a.neg && !b.neg, a.cmp(b));
    let got = m.run("own integers: compare", || say("compare"), || (fx(a).partial_cmp(&fx(b)), fx(a) == fx(b), fx(a) < fx(b), fx(a) >= fx(b)));
    m.check("own integers: compare", got == Some((Some(w), w.is_eq(), w.is_lt(), w.is_ge())), || format!("{}: {got:?}", say("compare")));
    let got = m.run("own integers: identities", || say("identities"), || (fx(a).is_zero(), fx(a).is_one(), Fixed::<T, N>::one() == fx(&one), Fixed::<T, N>::zero() == fx(&Big::zero())));
    m.check("own integers: identities", got == Some((a.is_zero(), *a == one, true, true)), || format!("{}: {got:?}", say("identities")));
    if fits(&a.add(b)) {
        judge(m, "own integers: add", &a.add(b), &|| fx(a) + fx(b));
    }
    if fits(&a.sub(b)) {
        judge(m, "own integers: sub", &a.sub(b), &|| fx(a) - fx(b));
    }
    if pos && fits(&a.mul(b)) {
        judge(m, "own integers: mul", &a.mul(b).div_floor(&one), &|| fx(a) * fx(b));
    }
    if fits(&a.shl(N)) {
        judge(m, "own integers: from_val", &a.shl(N), &|| Fixed::from_val(make(a)));
        if !b.is_zero() {
            judge(m, "own integers: div", &a.shl(N).divrem(b).0, &|| fx(a) / fx(b));
        }
    }
    if !b.is_zero() {
        judge(m, "own integers: rem", &a.divrem(b).1, &|| fx(a) % fx(b));
    }
    if !fits(&one.add(&one)) {
        return;
    }
    let fract = a.divrem(&one).1;
    judge(m, "own integers: fract", &fract, &|| fx(a).fract());
    judge(m, "own integers: trunc", &a.sub(&fract), &|| fx(a).trunc());
    if !a.neg {
        let floor = a.sub(&fract);
        let ceil = if fract.is_zero() { floor.clone() } else { floor.add(&one) };
        judge(m, "own integers: floor", &floor, &|| fx(a).floor());
        if fits(&ceil) {
            judge(m, "own integers: ceil", &ceil, &|| fx(a).ceil());
            let round = if fract.shl(1) > one { &ceil } else { &floor };
            judge(m, "own integers: round", round, &|| fx(a).round());
        }
    }
}

fn own_raw(r: &mut Rng, bits: usize, n: usize, sign: bool) -> Big {
    let k = match r.below(4) {
        0 => bits,
        1 => bits / 2,
        2 => n + 2,
        _ => r.below(bits + 1),
    };
    let limbs: Vec<u64> = (0..k.div_ceil(64)).map(|_| *r.pick(&[0, 1, u64::MAX, 1 << 63]) ^ if r.bool() { r.u64() } else { 0 }).collect();
    let mut v = Big::from_limbs(false, &limbs);
    v = v.divrem(&Big::pow2(k)).1;
    if r.bool() {
        // A whole number, or next to one
        v = v.divrem(&Big::pow2(n)).0.shl(n);
        if r.bool() && !v.is_zero() {
            v = v.sub(&Big::one());
        }
    }
    if sign && r.chance(1, 3) {
        v.neg()
    } else {
        v
    }
}

fn own_u<const W: usize, const N: usize>(m: &mut Mon, r: &mut Rng) {
    let make = |v: &Big| {
        let mut bytes = [0u8; W];
        for (i, b) in bytes.iter_mut().enumerate() {
            *b = (0..8).fold(0, |acc, j| acc | u8::from(v.bit(8 * i + j)) << j);
        }
        U::<W>::from_le_bytes(bytes)
    };
    let a = own_raw(r, 8 * W, N, false);
    let b = match r.below(4) {
        0 => a.clone(),
        _ => own_raw(r, 8 * W, N, false),
    };
    own::<U<W>, N>(m, std::any::type_name::<U<W>>(), Some(8 * W), &make, &a, &b);
    m.count("values over the library's own integers", 1);
}

fn own_big<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let bits = *r.pick(&[60, 64, 130, 200, 700]);
    let a = own_raw(r, bits, N, true);
    let b = match r.below(4) {
        0 => a.clone(),
        1 => a.neg(),
        _ => own_raw(r, bits, N, true),
    };
    own::<BigInt, N>(m, "BigInt", None, &|v| bi::make(v, 0), &a, &b);
    m.count("values over the library's own integers", 1);
}

fn grid<T: Base, const N: usize>(m: &mut Mon) {
    let (lo, _) = limits::<T>();
    for i in 0..256 {
        let a = lo.add(&Big::from_u128(i));
        single::<T, N>(m, &a);
        for j in 0..256 {
            if (i * 7 + j) % 5 == 0 || j < 4 {
                pair::<T, N>(m, &a, &lo.add(&Big::from_u128(j)));
            }
        }
    }
    m.count("8-bit formats done completely", 1);
}

fn main() {
    run("C21", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let mut i = 0;
        macro_rules! grids { ($($t:ident $($n:literal)*;)*) => { $($( if m.mine(i) && m.go_until(70) { grid::<$t, $n>(m); } i += 1; )*)* } }
        grids!(i8 0 1 2 3 4 5 6; u8 0 1 3 4 6 7;);
        let _ = i;
        while m.go() {
            own_u::<1, 3>(m, r);
            own_u::<2, 5>(m, r);
            own_u::<3, 8>(m, r);
            own_u::<8, 20>(m, r);
            own_u::<9, 64>(m, r);
            own_u::<17, 33>(m, r);
            own_big::<1>(m, r);
            own_big::<8>(m, r);
            own_big::<63>(m, r);
            own_big::<64>(m, r);
            own_big::<65>(m, r);
            own_big::<150>(m, r);
            macro_rules! go { ($f:ident $($t:ident $($n:literal)*;)*) => { $($( $f::<$t, $n>(m, r); )*)* } }
            go!(random_s i16 1 4 8 14; i32 1 5 8 16 30; i64 2 7 16 32 62; i128 1 9 16 20 64 126; isize 4 24; i8 3;);
            go!(random u16 1 5 8 15; u32 4 8 16; u64 3 16 32; u128 8 31 64; usize 12;);
        }
    });
}
