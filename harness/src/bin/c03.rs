//! C03: BigInt ordering and equality agree with the integers, also against primitives, and a value
//! has one representation however it was reached.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::identity::{One, Zero};
use std::cmp::Ordering;

fn pair(m: &mut Mon, r: &mut Rng, a: &Big, b: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    let Some((y, b)) = operand(m, r, b) else { return };
    compare(m, &x, &y, &a, &b);
    if r.chance(1, 4) {
        compare(m, &x, &x.clone(), &a, &a);
    }
}

fn compare(m: &mut Mon, x: &BigInt, y: &BigInt, a: &Big, b: &Big) {
    m.seen(&(a, b));
    let want = a.cmp(b);
    let Some(got) = m.run("cmp", || show2("cmp", a, b), || x.cmp(y)) else { return };
    m.event(151, || format!("cmp {} {} {}", a.hex(), b.hex(), got as i8));
    m.check("cmp", got == want, || format!("{}: expected {want:?}, got {got:?}", show2("cmp", a, b)));
    let Some(got) = m.run("operators", || show2("compare", a, b), || {
        (x == y, x != y, x < y, x <= y, x > y, x >= y, x.partial_cmp(y))
    }) else {
        return;
    };
    let want = (
        want == Ordering::Equal,
        want != Ordering::Equal,
        want == Ordering::Less,
        want != Ordering::Greater,
        want == Ordering::Greater,
        want != Ordering::Less,
        Some(want),
    );
    m.check("operators", got == want, || {
        format!("{}: (==,!=,<,<=,>,>=,partial_cmp) = {got:?}, expected {want:?}", show2("compare", a, b))
    });
    let Some(mm) = m.run("max/min", || show2("max/min", a, b), || (x.clone().max(y.clone()), x.clone().min(y.clone()))) else {
        return;
    };
    let (hi, lo) = (observe(&mm.0), observe(&mm.1));
    m.check("max/min", hi.as_ref() == Some(a.max(b)) && lo.as_ref() == Some(a.min(b)), || {
        format!("{}: max {} min {}", show2("max/min", a, b), show_res(&hi), show_res(&lo))
    });
}

/// The same value reached by different routes
fn routes(m: &mut Mon, r: &mut Rng, a: &Big, noise: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    let Some((n, nv)) = operand(m, r, noise) else { return };
    let k = r.range(1, 200);
    let alts: Option<Vec<(&'static str, BigInt)>> = m.run("routes", || show2("routes", &a, &nv), || {
        let mut v = vec![
            ("clone", x.clone()),
            ("x+n-n", x.clone() + &n - &n),
            ("x-n+n", x.clone() - &n + &n),
            ("--x", -(-x.clone())),
            ("(x<<k)>>k", (x.clone() << k) >> k),
            ("x*1", x.clone() * BigInt::one()),
            ("x+0", x.clone() + BigInt::zero()),
            ("0-(-x)", BigInt::zero() - (-x.clone())),
        ];
        if !nv.is_zero() {
            v.push(("x*n/n", x.clone() * &n / &n));
        }
        v
    });
    let Some(alts) = alts else { return };
    for (how, y) in alts {
        // Judged only where the route really leads to the same number
        let Some(o) = observe(&y) else { continue };
        if o != a {
            m.count("routes that changed the value (not judged here)", 1);
            continue;
        }
        m.seen(&("route", how, &a));
        m.check("same value, same object", x == y && y == x && x.cmp(&y) == Ordering::Equal, || {
            format!("{} reached by {how} does not compare equal to itself", show(&a))
        });
        m.check("same value, same storage kind", x.is_inline() == y.is_inline() && y.is_inline() != y.is_interned(), || {
            format!("{} reached by {how}: inline {} vs {}", show(&a), x.is_inline(), y.is_inline())
        });
        m.check("zero/one predicates", y.is_zero() == a.is_zero() && y.is_one() == (a == Big::one()), || {
            format!("{} reached by {how}: is_zero {}, is_one {}", show(&a), y.is_zero(), y.is_one())
        });
    }
}

/// x - x and friends must be the one and only zero
fn zeros(m: &mut Mon, r: &mut Rng, a: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    let zs: Option<Vec<(&'static str, BigInt)>> = m.run("zero", || show(&a), || {
        let mut v = vec![
            ("x-x", x.clone() - &x),
            ("x+(-x)", x.clone() + (-x.clone())),
            ("x*0", x.clone() * 0),
            ("-x*0", -x.clone() * BigInt::zero()),
            ("-0", -BigInt::zero()),
            ("0*-1", BigInt::zero() * -1),
            ("x>>all", x.clone() >> (a.bits() + r.below(70))),
        ];
        if !a.is_zero() {
            v.push(("x%x", x.clone() % &x));
            v.push(("-x%x", -x.clone() % &x));
            v.push(("0/x", BigInt::zero() / &x));
            v.push(("0%-x", BigInt::zero() % (-x.clone())));
        }
        v
    });
    let Some(zs) = zs else { return };
    for (how, z) in zs {
        let Some(o) = observe(&z) else { continue };
        if !o.is_zero() {
            m.count("routes that changed the value (not judged here)", 1);
            continue;
        }
        m.seen(&("zero", how, &a));
        let facts = (
            z == BigInt::zero(),
            z == 0i32,
            z.is_zero(),
            z < 0,
            z > 0,
            z.cmp(&BigInt::new()) == Ordering::Equal,
            z.to_string(),
        );
        let want = (true, true, true, false, false, true, "0".to_string());
        m.check("one zero", facts == want, || format!("{how} with x={}: {facts:?}", show(&a)));
    }
}

/// Sorting a list of values
fn sorting(m: &mut Mon, r: &mut Rng, base: &Big) {
    let d = m.dict.clone();
    let mut vs = vec![];
    for _ in 0..r.range(3, 14) {
        let b = gen::related(r, &d, base, 12);
        if let Some(o) = operand(m, r, &b) {
            vs.push(o);
        }
    }
    let Some(sorted) = m.run("sort", || show(base), || {
        let mut s: Vec<BigInt> = vs.iter().map(|(x, _)| x.clone()).collect();
        s.sort();
        s
    }) else {
        return;
    };
    let mut want: Vec<Big> = vs.iter().map(|(_, b)| b.clone()).collect();
    want.sort();
    let got: Vec<Option<Big>> = sorted.iter().map(observe).collect();
    m.check("sort", got.iter().map(|o| o.as_ref()).eq(want.iter().map(Some)), || {
        format!("sorting {:?} gave {:?}", want.iter().map(show).collect::<Vec<_>>(), got.iter().map(show_res).collect::<Vec<_>>())
    });
}

macro_rules! prim {
    ($m:ident, $r:ident, $a:ident, $($t:ty),*) => {{
        let which = $r.below(12);
        let mut k = 0;
        $(
            if k == which {
                let d = $m.dict.clone();
                let raw = gen::word($r, &d, <$t>::BITS) as $t;
                let b = if <$t>::MIN == 0 { Big::from_u128(raw as u128) } else { Big::from_i128(raw as i128) };
                // Left side: unrelated, equal, negated, or equal in the low bits only
                let a = match $r.below(8) {
                    0 | 1 => b.clone(),
                    2 => b.neg(),
                    3 => b.add(&Big::pow2(<$t>::BITS as usize)),
                    4 => b.sub(&Big::pow2(<$t>::BITS as usize)),
                    5 => b.add(&Big::pow2(64 * $r.range(1, 3))),
                    6 => b.add(&Big::from_i128($r.irange(-1, 1) as i128)),
                    _ => $a.clone(),
                };
                if let Some((x, a)) = operand($m, $r, &a) {
                    let tn = stringify!($t);
                    $m.seen(&("prim", tn, &a, &b));
                    let want = a.cmp(&b);
                    let got = $m.run("prim", || show2(tn, &a, &b), || (x == raw, x != raw, x < raw, x <= raw, x > raw, x >= raw, x.partial_cmp(&raw)));
                    let want = (want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(), Some(want));
                    if let Some(got) = got {
                        $m.check("prim", got == want, || format!("{} vs {tn} {raw}: (==,!=,<,<=,>,>=,partial_cmp) = {got:?}, expected {want:?}", show(&a)));
                    }
                }
            }
            k += 1;
        )*
        let _ = k;
    }};
}

fn prims(m: &mut Mon, r: &mut Rng, a: &Big) {
    prim!(m, r, a, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}

fn main() {
    run("C03", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let d = m.dict.clone();
        let mut edge: Vec<Big> = vec![];
        for k in [0usize, 1, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192] {
            for delta in [-1i128, 0, 1] {
                let v = Big::pow2(k).add(&Big::from_i128(delta));
                edge.push(v.neg());
                edge.push(v);
            }
        }
        edge.sort();
        edge.dedup();
        let n = edge.len();
        for i in 0..n * n {
            if m.mine(i) && m.go_until(60) {
                pair(m, r, &edge[i / n], &edge[i % n]);
            }
        }
        while m.go() {
            let max = gen::reach(r, 16, 80, 700);
            let a = gen::big(r, &d, max);
            let b = gen::related(r, &d, &a, max);
            pair(m, r, &a, &b);
            pair(m, r, &b, &a);
            for _ in 0..3 {
                prims(m, r, &a);
            }
            if r.chance(1, 3) {
                let noise = if a.limbs().len() > 12 { Big::from_limbs(r.bool(), &[gen::limb(r, &d)]) } else { b.clone() };
                let noise = if noise.bits() > 700 { Big::one() } else { noise };
                routes(m, r, &a, &noise);
                zeros(m, r, &a);
            }
            if r.chance(1, 10) {
                sorting(m, r, &a);
            }
            m.sample(|| show2("cmp", &a, &b));
        }
    });
}
