//! C12: U<N> comparison, bits, shifts, limits, powers.
#[path = "../support/fixed_width.rs"]
#[macro_use]
mod fw;
use fw::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::U;
use numeric_traits::class::Bounded;
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;

fn val<const N: usize>(u: U<N>) -> Big {
    Big::from_le_bytes(false, &u.to_le_bytes())
}

fn mk<const N: usize>(b: &Big) -> U<N> {
    U::from_le_bytes(bytes_of(b))
}

const STRICT: bool = cfg!(debug_assertions);

fn what<const N: usize>(op: &str, a: &Big, b: &Big) -> String {
    format!("U<{N}> {op}(0x{}, 0x{})", a.hex(), b.hex())
}

fn plain<const N: usize>(m: &mut Mon, rule: &'static str, a: &Big, b: &Big, want: &Big, f: impl FnOnce() -> U<N>) {
    let Some(got) = m.run(rule, || what::<N>(rule, a, b), f) else { return };
    let got = val(got);
    m.check(rule, got == *want, || format!("{}: expected {}, got {}", what::<N>(rule, a, b), want.hex(), got.hex()));
}

fn pair<const N: usize>(m: &mut Mon, a: &Big, b: &Big) {
    let (x, y) = (mk::<N>(a), mk::<N>(b));
    m.seen(&(N, a, b));
    let want = a.cmp(b);
    let got = m.run("compare", || what::<N>("cmp", a, b), || (x.cmp(&y), x.partial_cmp(&y), x == y, x != y, x < y, x <= y, x > y, x >= y, val(x.max(y)), val(x.min(y))));
    let want = (
        want, Some(want), want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(),
        a.max(b).clone(), a.min(b).clone(),
    );
    if let Some(got) = got {
        m.event(97, || format!("cmp {} {} {}", a.hex(), b.hex(), got.0 as i8));
        m.check("compare", got == want, || format!("{}: got {:?}", what::<N>("cmp", a, b), (got.0, got.2, got.4, got.6)));
    }
    plain::<N>(m, "and", a, b, &a.bitop(b, |p, q| p & q), || x & y);
    plain::<N>(m, "or", a, b, &a.bitop(b, |p, q| p | q), || x | y);
    plain::<N>(m, "xor", a, b, &a.bitop(b, |p, q| p ^ q), || x ^ y);
    let max = Big::pow2(8 * N).sub(&Big::one());
    plain::<N>(m, "not", a, a, &max.sub(a), || !x);
    let got = m.run("identities", || what::<N>("is_zero/is_one", a, a), || (x.is_zero(), x.is_one()));
    m.check("identities", got == Some((a.is_zero(), *a == Big::one())), || format!("{}: {got:?}", what::<N>("is_zero/is_one", a, a)));
}

fn shift<const N: usize>(m: &mut Mon, a: &Big, k: usize, by_u: bool) {
    let x = mk::<N>(a);
    let kb = Big::from_u128(k as u128);
    m.seen(&(N, "shift", a, k, by_u));
    // The amount must itself fit the type when it is given as one
    let by_u = by_u && kb.bits() <= 8 * N;
    let n = mk::<N>(&kb);
    if k < 8 * N {
        plain::<N>(m, "shl", a, &kb, &a.shl(k).modp2(8 * N), || if by_u { x << n } else { x << k });
        plain::<N>(m, "shr", a, &kb, &a.shr(k), || if by_u { x >> n } else { x >> k });
    } else if k > 8 * N && STRICT {
        let got = m.attempt("shl past the width", || if by_u { x << n } else { x << k }).is_err();
        m.check("shl past the width", got, || what::<N>("shl returned a value:", a, &kb));
        let got = m.attempt("shr past the width", || if by_u { x >> n } else { x >> k }).is_err();
        m.check("shr past the width", got, || what::<N>("shr returned a value:", a, &kb));
    }
}

/// Amounts far beyond the width, whose low bits alone would be a proper amount
fn far_shift<const N: usize>(m: &mut Mon, r: &mut Rng, a: &Big) {
    let x = mk::<N>(a);
    let k = gen::far(r, 8 * N);
    let kb = Big::from_u128(k as u128);
    refused::<N>(m, a, &kb, "usize", || x << k, || x >> k);
    let j = *r.pick(&[8, 16, 31, 32, 63, 64, 65, 96, 127, 128, 8 * N - 1, 8 * N - 2]);
    let kb = Big::pow2(j).add(&Big::from_u128(r.below(8 * N) as u128));
    if kb.bits() <= 8 * N && kb > Big::from_u128(8 * N as u128) {
        let n = mk::<N>(&kb);
        refused::<N>(m, a, &kb, "U", || x << n, || x >> n);
    }
}

fn refused<const N: usize>(m: &mut Mon, a: &Big, k: &Big, form: &str, shl: impl FnOnce() -> U<N>, shr: impl FnOnce() -> U<N>) {
    m.seen(&(N, "far shift", a, k, form.len()));
    let low = k.divrem(&Big::from_u128(8 * N as u128)).1.to_u128().unwrap() as usize;
    let mut one = |rule: &'static str, want: Big, got: Result<U<N>, String>| {
        // Development builds panic; others may, and otherwise reduce the amount
        let ok = got.as_ref().map_or(true, |g| !STRICT && val(*g) == want);
        m.check(rule, ok, || format!("{} [{form}]: got {:?}", what::<N>(rule, a, k), got.map(|g| val(g).hex())));
    };
    let l = std::panic::catch_unwind(std::panic::AssertUnwindSafe(shl)).map_err(|_| String::new());
    one("shl far past the width", a.shl(low).modp2(8 * N), l);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(shr)).map_err(|_| String::new());
    one("shr far past the width", a.shr(low), r);
}

/// Exponents that no value from two on can be raised to within the width
fn far_power<const N: usize>(m: &mut Mon, r: &mut Rng, a: &Big) {
    let j = *r.pick(&[8, 16, 32, 64, 65, 128, 8 * N - 1]);
    let e = Big::pow2(j).add(&Big::from_u128(r.below(5) as u128));
    if !STRICT || a.bits() < 2 || e.bits() > 8 * N || e < Big::from_u128(8 * N as u128) {
        return;
    }
    let (x, y) = (mk::<N>(a), mk::<N>(&e));
    m.seen(&(N, "far pow", a, &e));
    let got = m.attempt("pow far past the width", || x.pow(y)).map(|g| val(g).hex());
    m.check("pow far past the width", got.is_err(), || format!("{}: got {got:?}", what::<N>("pow", a, &e)));
}

fn power<const N: usize>(m: &mut Mon, a: &Big, e: u64) {
    let eb = Big::from_u128(u128::from(e));
    if eb.bits() > 8 * N {
        return;
    }
    let (x, y) = (mk::<N>(a), mk::<N>(&eb));
    m.seen(&(N, "pow", a, e));
    let exact = a.pow(e);
    let wrapped = exact.modp2(8 * N);
    let fits = exact == wrapped;
    let got = m.attempt("pow", || x.pow(y)).map(val);
    let ok = match &got {
        Ok(g) => *g == wrapped && (fits || !STRICT),
        Err(_) => !fits && STRICT,
    };
    if fits {
        m.count("powers that fit", 1);
    }
    m.check("pow", ok, || format!("{}: exact {}, got {:?}", what::<N>("pow", a, &eb), exact.hex(), got.map(|g| g.hex())));
}

fn limits<const N: usize>(m: &mut Mon, _r: &mut Rng) {
    let max = Big::pow2(8 * N).sub(&Big::one());
    let got = m.run("limits", || format!("U<{N}>"), || {
        [U::<N>::zero(), U::one(), U::min_value(), U::max_value(), U::new(), U::default()].map(val)
    });
    let want = [Big::zero(), Big::one(), Big::zero(), max, Big::zero(), Big::zero()];
    m.check("limits", got.as_ref() == Some(&want), || format!("U<{N}> zero, one, min, max, new, default: {got:?}"));
    // Every shift amount of this width
    for k in 0..8 * N + 20 {
        for a in [Big::one(), Big::pow2(8 * N).sub(&Big::one()), Big::pow2(8 * N - 1).add(&Big::one())] {
            shift::<N>(m, &a, k, k % 2 == 0);
        }
    }
}

fn random<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a = value::<N>(m, r);
    let b = partner::<N>(m, r, &a);
    pair::<N>(m, &a, &b);
    pair::<N>(m, &b, &a);
    let k = if r.chance(1, 10) { r.below(8 * N + 40) } else { r.below(8 * N) };
    let bu = r.bool();
    shift::<N>(m, &a, k, bu);
    if r.chance(1, 6) {
        far_shift::<N>(m, r, &a);
        far_power::<N>(m, r, &a);
    }
    // Powers: pick the exponent so that fitting and overflowing results both occur
    let e = r.below(40) as u64;
    let a = if r.chance(1, 8) { a } else { value::<N>(m, r).modp2(r.range(1, (8 * N) / (e as usize + 1) + 2)) };
    power::<N>(m, &a, e);
    match r.below(12) {
        // Small bases with exponents around the largest that fits
        0 => {
            let base = r.range(2, 7) as u64;
            let top = (8.0 * N as f64 / (base as f64).log2()) as usize;
            let e = (top + 2).saturating_sub(r.below(5)).min(600) as u64;
            power::<N>(m, &Big::from_u128(base.into()), e);
        }
        // Zero and one stay what they are under any exponent
        1 => {
            let e = value::<N>(m, r);
            let base = if r.bool() { Big::zero() } else { Big::one() };
            let want = if e.is_zero() { Big::one() } else { base.clone() };
            plain::<N>(m, "pow of zero and one", &base, &e, &want, || mk::<N>(&base).pow(mk::<N>(&e)));
        }
        // Products of several factors
        2 => {
            let n = r.below(6);
            let list: Vec<Big> = (0..n).map(|_| value::<N>(m, r).modp2(r.range(1, 8 * N / (n + 1) + 3))).collect();
            let mut exact = Big::one();
            let mut fits = true;
            for f in &list {
                exact = exact.mul(f);
                // A product that overflows on the way and is multiplied by zero later is not judged
                fits &= exact.bits() <= 8 * N;
            }
            if fits || !exact.is_zero() {
                let got = m.attempt("product", || list.iter().map(mk::<N>).product::<U<N>>()).map(val);
                let wrapped = exact.modp2(8 * N);
                let ok = match &got {
                    Ok(g) => *g == wrapped && (fits || !STRICT),
                    Err(_) => !fits && STRICT,
                };
                m.seen(&(N, "product", &list));
                m.check("product", ok, || format!("U<{N}> product of {list:?}: exact {}, got {:?}", exact.hex(), got.map(|g| g.hex())));
            }
        }
        _ => (),
    }
    m.sample(|| what::<N>("compare/bits", &a, &b));
}

fn main() {
    run("C12", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for a in 0..256usize {
            if m.mine(a) && m.go_until(60) {
                let ab = Big::from_u128(a as u128);
                for b in 0..256u128 {
                    pair::<1>(m, &ab, &Big::from_u128(b));
                    if b < 12 {
                        shift::<1>(m, &ab, b as usize, a % 2 == 0);
                        power::<1>(m, &ab, b as u64);
                    }
                }
                m.count("one-byte rows done completely", 1);
            }
        }
        for w in 0..WIDTHS {
            if m.mine(w) {
                for_width!(w, limits, m, r);
            }
        }
        while m.go() {
            for w in 1..WIDTHS {
                for_width!(w, random, m, r);
            }
            if r.chance(1, 4) && !m.kind_slow() {
                let w = rare_width(r);
                for_rare_width!(w, random, m, r);
            }
        }
    });
}
