//! C02: BigInt division and remainder: exact truncated quotient, remainder with the dividend's sign,
//! zero divisors refused.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::BigInt;

fn div(form: usize, x: &BigInt, y: &BigInt) -> BigInt {
    match form {
        0 => x.clone() / y.clone(),
        1 => x.clone() / y,
        2 => x / y.clone(),
        3 => x / y,
        4 => {
            let mut z = x.clone();
            z /= y.clone();
            z
        }
        _ => {
            let mut z = x.clone();
            z /= y;
            z
        }
    }
}

fn rem(form: usize, x: &BigInt, y: &BigInt) -> BigInt {
    match form {
        0 => x.clone() % y.clone(),
        1 => x.clone() % y,
        2 => x % y.clone(),
        3 => x % y,
        4 => {
            let mut z = x.clone();
            z %= y.clone();
            z
        }
        _ => {
            let mut z = x.clone();
            z %= y;
            z
        }
    }
}

const FORMS: [&str; 6] = ["val-val", "val-ref", "ref-val", "ref-ref", "assign-val", "assign-ref"];

fn judge(m: &mut Mon, rule: &'static str, got: Option<BigInt>, want: &Big, form: &str, a: &Big, b: &Big) {
    let Some(got) = got else { return };
    let obs = observe(&got);
    m.check(rule, obs.as_ref() == Some(want), || {
        format!("{} [{form}]: expected {}, got {}", show2(rule, a, b), show(want), show_res(&obs))
    });
}

fn pair(m: &mut Mon, r: &mut Rng, a: &Big, b: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    let Some((y, b)) = operand(m, r, b) else { return };
    let form = r.below(6);
    if b.is_zero() {
        m.seen(&(&a, &b, form));
        let q = m.attempt("div by zero", || div(form, &x, &y));
        m.check("div by zero", q.is_err(), || format!("{} [{}] returned a value", show2("div", &a, &b), FORMS[form]));
        let q = m.attempt("rem by zero", || rem(form, &x, &y));
        m.check("rem by zero", q.is_err(), || format!("{} [{}] returned a value", show2("rem", &a, &b), FORMS[form]));
        // In place as well: the variable that was to be divided keeps its value
        let mut z = x.clone();
        for k in 0..4 {
            let q = m.attempt("in place by zero", || match k {
                0 => z /= y.clone(),
                1 => z /= &y,
                2 => z %= y.clone(),
                _ => z %= &y,
            });
            let oz = observe(&z);
            m.check("operands survive a refused division", q.is_err() && oz.as_ref() == Some(&a), || {
                format!("{} divided in place by zero (form {k}) became {}", show(&a), show_res(&oz))
            });
        }
        let (ox, oy) = (observe(&x), observe(&y));
        m.check("operands survive a refused division", ox.as_ref() == Some(&a) && oy.as_ref() == Some(&b), || {
            format!("operands {} and {} became {} and {}", show(&a), show(&b), show_res(&ox), show_res(&oy))
        });
        return;
    }
    let (q, w) = a.divrem(&b);
    m.seen(&(&a, &b, form));
    m.max("largest quotient in bits", q.bits() as u64);
    m.max("largest divisor in bits", b.bits() as u64);
    let gq = m.run("div", || show2("div", &a, &b), || div(form, &x, &y));
    if let Some(g) = &gq {
        m.event(101, || format!("div {} {} {}", a.hex(), b.hex(), observe(g).map_or("?".into(), |o| o.hex())));
    }
    let gr = m.run("rem", || show2("rem", &a, &b), || rem(form, &x, &y));
    if let Some(g) = &gr {
        m.event(101, || format!("rem {} {} {}", a.hex(), b.hex(), observe(g).map_or("?".into(), |o| o.hex())));
    }
    // The identity as a user would write it
    if r.chance(1, 4) {
        if let (Some(gq), Some(gr)) = (&gq, &gr) {
            if let Some(back) = m.run("q*b+r == a", || show2("identity", &a, &b), || gq * &y + gr) {
                m.check("q*b+r == a", back == x, || {
                    format!("{}: q*b+r is {} ", show2("identity", &a, &b), show_res(&observe(&back)))
                });
            }
        }
        let (ox, oy) = (observe(&x), observe(&y));
        m.check("operands unchanged", ox.as_ref() == Some(&a) && oy.as_ref() == Some(&b), || {
            format!("operands {} and {} became {} and {}", show(&a), show(&b), show_res(&ox), show_res(&oy))
        });
    }
    judge(m, "div", gq, &q, FORMS[form], &a, &b);
    judge(m, "rem", gr, &w, FORMS[form], &a, &b);
}

macro_rules! prim_forms {
    ($m:ident, $r:ident, $x:ident, $a:ident, $($t:ty),*) => {{
        let which = $r.below(12);
        let mut k = 0;
        $(
            if k == which {
                let raw = gen::word($r, &$m.dict.clone(), <$t>::BITS) as $t;
                let b = if <$t>::MIN == 0 { Big::from_u128(raw as u128) } else { Big::from_i128(raw as i128) };
                let tn = stringify!($t);
                let asg = $r.bool();
                $m.seen(&("prim", &$a, &b, tn, asg));
                let dv = || if asg { let mut z = $x.clone(); z /= raw; z } else { $x.clone() / raw };
                let rm = || if asg { let mut z = $x.clone(); z %= raw; z } else { $x.clone() % raw };
                if b.is_zero() {
                    let q = $m.attempt("prim div by zero", dv);
                    $m.check("prim div by zero", q.is_err(), || format!("{} returned a value", show2("div", &$a, &b)));
                    let q = $m.attempt("prim rem by zero", rm);
                    $m.check("prim rem by zero", q.is_err(), || format!("{} returned a value", show2("rem", &$a, &b)));
                    let mut z = $x.clone();
                    let q = ($m.attempt("prim in place by zero", || z /= raw).is_err(), $m.attempt("prim in place by zero", || z %= raw).is_err());
                    let oz = observe(&z);
                    $m.check("operands survive a refused division", q == (true, true) && oz.as_ref() == Some(&$a), || {
                        format!("{} divided in place by zero {tn} became {}", show(&$a), show_res(&oz))
                    });
                } else {
                    let (q, w) = $a.divrem(&b);
                    let got = $m.run("prim div", || show2("div", &$a, &b), dv);
                    judge($m, "prim div", got, &q, tn, &$a, &b);
                    let got = $m.run("prim rem", || show2("rem", &$a, &b), rm);
                    judge($m, "prim rem", got, &w, tn, &$a, &b);
                }
            }
            k += 1;
        )*
        let _ = k;
    }};
}

fn prims(m: &mut Mon, r: &mut Rng, a: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    prim_forms!(m, r, x, a, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}

fn main() {
    run("C02", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let d = m.dict.clone();
        let mut edge: Vec<Big> = vec![];
        for k in [0usize, 1, 3, 32, 61, 62, 63, 64, 65, 127, 128, 129] {
            for delta in [-1i128, 0, 1] {
                let v = Big::pow2(k).add(&Big::from_i128(delta));
                edge.push(v.neg());
                edge.push(v);
            }
        }
        edge.sort();
        edge.dedup();
        let n = edge.len();
        for i in 0..n * n {
            if m.mine(i) && m.go_until(60) {
                pair(m, r, &edge[i / n], &edge[i % n]);
            }
        }
        let mut rare = 0;
        while m.go() {
            rare += 1;
            if rare % 500 == 50 && !m.kind_slow() {
                // Hundreds of words, next to an exact multiple
                let n = if r.bool() { r.range(257, 280) } else { gen::vast(r, &d, 280) };
                let b = Big::pow2(64 * n).add(&gen::big(r, &d, n)).sub(&gen::big(r, &d, n));
                let q = gen::big(r, &d, 2);
                let off = [Big::one().neg(), Big::zero(), Big::one(), b.sub(&Big::one())][r.below(4)].clone();
                pair(m, r, &b.mul(&q).add(&off), &b);
                m.count("divisions of hundreds of words", 1);
            }
            let max = gen::reach(r, 7, 24, 90);
            match r.below(4) {
                // Quotient and divisor chosen: exact multiples, and one off them
                0 | 1 => {
                    let b = gen::big(r, &d, max / 2 + 1);
                    let q = gen::related(r, &d, &b, max / 2 + 1);
                    let a = b.mul(&q);
                    let a = match r.below(5) {
                        0 => a,
                        1 => a.add(&Big::one()),
                        2 => a.sub(&Big::one()),
                        3 => a.add(&b).sub(&Big::one()),
                        _ => a.add(&gen::big(r, &d, max / 2 + 1)),
                    };
                    pair(m, r, &a, &b);
                }
                2 => {
                    let a = gen::big(r, &d, max);
                    let b = gen::related(r, &d, &a, max);
                    pair(m, r, &a, &b);
                    prims(m, r, &a);
                    m.sample(|| show2("div/rem", &a, &b));
                }
                _ => {
                    let a = gen::big(r, &d, max);
                    let b = gen::related(r, &d, &a, max);
                    pair(m, r, &b, &a);
                    prims(m, r, &b);
                }
            }
        }
    });
}
