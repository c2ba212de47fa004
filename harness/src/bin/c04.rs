//! C04: BigInt shifts scale by powers of two, bitwise operations act on the binary digits, powers are
//! repeated products.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::ops::Pow;

fn judge(m: &mut Mon, rule: &'static str, got: Option<BigInt>, want: &Big, form: &str, what: impl Fn() -> String) {
    let Some(got) = got else { return };
    let obs = observe(&got);
    m.check(rule, obs.as_ref() == Some(want), || {
        format!("{} [{form}]: expected {}, got {}", what(), show(want), show_res(&obs))
    });
}

fn shift_amount(m: &Mon, r: &mut Rng, a: &Big) -> usize {
    if r.chance(1, 60) {
        // Far: past every plausible width of an index
        return match r.below(4) {
            0 => (1usize << r.range(9, 17)) + r.below(3) - 1,
            1 => m.dict.num(r).min(70_000) as usize,
            2 => r.below(70_000),
            _ => 64 * r.below(1100) + r.below(2),
        };
    }
    match r.below(8) {
        0 => r.below(4),
        1 => 64 * r.below(5),
        2 => (64 * r.range(1, 5)) - 1,
        3 => 64 * r.range(1, 5) + 1,
        4 => r.below(a.bits() + 3),
        5 => a.bits(),
        6 => m.dict.small(r, 700),
        _ => r.below(400),
    }
}

fn with_form(op: &'static str, form: usize, x: &BigInt, k: usize) -> BigInt {
    macro_rules! go {
        ($op:tt) => {
            match form {
                0 => x.clone() $op BigInt::from(k),
                1 => x.clone() $op &BigInt::from(k),
                2 => x $op BigInt::from(k),
                3 => x $op &BigInt::from(k),
                4 => x.clone() $op k,
                5 => x.clone() $op (k as u16),
                6 => x.clone() $op (k as i32),
                7 => x.clone() $op (k as u64),
                8 => x.clone() $op (k as i128),
                9 => x.clone() $op (k as u8),
                10 => x.clone() $op (k as i8),
                11 => x.clone() $op (k as i16),
                12 => x.clone() $op (k as u32),
                13 => x.clone() $op (k as i64),
                14 => x.clone() $op (k as u128),
                _ => x.clone() $op (k as isize),
            }
        };
    }
    if op == "shl" {
        go!(<<)
    } else {
        go!(>>)
    }
}

const FORMS: [&str; 16] = [
    "val-val", "val-ref", "ref-val", "ref-ref", "usize", "u16", "i32", "u64", "i128", "u8", "i8", "i16", "u32", "i64", "u128", "isize",
];

fn shifts(m: &mut Mon, r: &mut Rng, a: &Big, k: usize) {
    let Some((x, a)) = operand(m, r, a) else { return };
    let mut form = r.below(16);
    if (form == 9 && k > 255) || (form == 10 && k > 127) || (form == 5 && k > 65535) || (form == 11 && k > 32767) {
        form = 4;
    }
    m.seen(&("shift", &a, k, form));
    let got = m.run("shl", || format!("{} << {k}", show(&a)), || with_form("shl", form, &x, k));
    if let Some(g) = &got {
        m.event(101, || format!("shl {} {k:x} {}", a.hex(), observe(g).map_or("?".into(), |o| o.hex())));
    }
    judge(m, "shl", got, &a.shl(k), FORMS[form], || format!("{} << {k}", show(&a)));
    if !a.neg {
        let got = m.run("shr", || format!("{} >> {k}", show(&a)), || with_form("shr", form, &x, k));
        if let Some(g) = &got {
            m.event(101, || format!("shr {} {k:x} {}", a.hex(), observe(g).map_or("?".into(), |o| o.hex())));
        }
        judge(m, "shr", got, &a.shr(k), FORMS[form], || format!("{} >> {k}", show(&a)));
        if r.chance(1, 4) {
            let got = m.run("shl then shr", || format!("{} << {k} >> {k}", show(&a)), || (x.clone() << k) >> k);
            judge(m, "shl then shr", got, &a, "usize", || format!("{} << {k} >> {k}", show(&a)));
        }
    }
}

/// Amounts no value reaches: what remains after a right shift is nothing, in every form the amount fits
fn far(m: &mut Mon, r: &mut Rng, a: &Big) {
    let Some((x, a)) = operand(m, r, &a.abs()) else { return };
    if a.neg {
        return;
    }
    let k = if r.bool() { gen::far(r, a.bits() + 70) } else { (1usize << r.range(15, usize::BITS as usize - 1)) + r.below(a.bits() + 70) };
    if k <= a.bits() {
        return;
    }
    let mut form = r.below(16);
    let w = usize::BITS;
    let room = [w, w, w, w, w, 16, 31, 64, 127, 8, 7, 15, 32, 63, 128, w - 1][form];
    if room < w && k >> room != 0 {
        form = 4;
    }
    m.seen(&("far shift", &a, k, form));
    let got = m.run("shr far past the end", || format!("{} >> {k}", show(&a)), || with_form("shr", form, &x, k));
    judge(m, "shr far past the end", got, &Big::zero(), FORMS[form], || format!("{} >> {k}", show(&a)));
    // Amounts that no index holds may be refused, but never give anything else
    let j = *r.pick(&[64, 65, 80, 95, 96, 126, 127]);
    let low = r.below(a.bits() + 70) as u128;
    let k = (1u128 << j) + low;
    let form = r.below(if j < 127 { 3 } else { 2 });
    let got = m.attempt("shr by more than an index", || match form {
        0 => x.clone() >> BigInt::from(k),
        1 => x.clone() >> k,
        _ => x.clone() >> k as i128,
    });
    let obs = got.map(|g| observe(&g));
    let ok = obs.as_ref().map_or(true, |g| g.as_ref() == Some(&Big::zero()));
    m.check("shr by more than an index", ok, || format!("{} >> {k}: got {obs:?}", show(&a)));
    if !a.is_zero() {
        let got = m.attempt("shl by more than an index", || match form {
            0 => x.clone() << BigInt::from(k),
            1 => x.clone() << k,
            _ => x.clone() << k as i128,
        });
        let obs = got.map(|g| observe(&g));
        m.check("shl by more than an index", obs.is_err(), || format!("{} << {k}: got {obs:?}", show(&a)));
    }
}

fn bitwise(m: &mut Mon, r: &mut Rng, a: &Big, b: &Big) {
    let Some((x, a)) = operand(m, r, &a.abs()) else { return };
    let Some((y, b)) = operand(m, r, &b.abs()) else { return };
    if a.neg || b.neg {
        return;
    }
    let form = r.below(4);
    m.seen(&("bits", &a, &b, form));
    macro_rules! one {
        ($name:literal, $op:tt, $f:expr) => {
            let want = a.bitop(&b, $f);
            let got = m.run($name, || show2($name, &a, &b), || match form {
                0 => x.clone() $op y.clone(),
                1 => x.clone() $op &y,
                2 => &x $op y.clone(),
                _ => &x $op &y,
            });
            if let Some(g) = &got {
                m.event(101, || format!("{} {} {} {}", $name, a.hex(), b.hex(), observe(g).map_or("?".into(), |o| o.hex())));
            }
            judge(m, $name, got, &want, FORMS[form], || show2($name, &a, &b));
        };
    }
    one!("and", &, |p, q| p & q);
    one!("or", |, |p, q| p | q);
    one!("xor", ^, |p, q| p ^ q);
    // The complement has the zeros of the value set up to some width, and nothing in common with it
    let got = m.run("not", || format!("!{}", show(&a)), || !x.clone());
    if let Some(g) = got {
        let obs = observe(&g);
        let ok = obs.as_ref().is_some_and(|g| {
            let full = a.bitop(&g.abs(), |p, q| p ^ q);
            !g.neg && a.bitop(g, |p, q| p & q).is_zero() && full.add(&Big::one()) == Big::pow2(full.bits()) && full.bits() >= a.bits()
        });
        m.check("not", ok, || format!("!{}: got {}, not the complement within a width", show(&a), show_res(&obs)));
    }
}

fn power(m: &mut Mon, r: &mut Rng, a: &Big, e: u64) {
    let Some((x, a)) = operand(m, r, a) else { return };
    m.seen(&("pow", &a, e));
    let want = a.pow(e);
    let got = m.run("pow", || format!("{} ^ {e}", show(&a)), || x.clone().pow(BigInt::from(e)));
    if let Some(g) = &got {
        m.event(11, || format!("pow {} {e:x} {}", a.hex(), observe(g).map_or("?".into(), |o| o.hex())));
    }
    m.max("largest power in bits", want.bits() as u64);
    judge(m, "pow", got, &want, "value", || format!("{} ^ {e}", show(&a)));
}

fn main() {
    run("C04", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let d = m.dict.clone();
        // Every shift amount over a few words, on a few patterns
        let pats = [
            Big::one(),
            Big::pow2(64).sub(&Big::one()),
            Big::pow2(62).sub(&Big::one()),
            Big::from_u128(0x8000_0000_0000_0001_8000_0000_0000_0001),
            Big::pow2(192).sub(&Big::one()),
            Big::from_i128(-5),
            Big::zero(),
        ];
        let mut i = 0;
        for p in &pats {
            for k in 0..270 {
                i += 1;
                if m.mine(i) && m.go_until(40) {
                    shifts(m, r, p, k);
                }
            }
        }
        for (j, e) in (0..40u64).enumerate() {
            if m.mine(j) && m.go_until(50) {
                for b in [0i128, 1, -1, 2, -2, 3, 10, -7] {
                    power(m, r, &Big::from_i128(b), e);
                }
            }
        }
        while m.go() {
            let max = gen::reach(r, 14, 60, 500);
            let a = gen::big(r, &d, max);
            let k = shift_amount(m, r, &a);
            shifts(m, r, &a, k);
            let b = gen::related(r, &d, &a, max);
            bitwise(m, r, &a, &b);
            bitwise(m, r, &b, &a);
            if r.chance(1, 10) {
                let a = gen::big(r, &d, 3);
                let e = if r.chance(1, 20) { r.below(120) as u64 } else { r.below(14) as u64 };
                power(m, r, &a, e);
            }
            if r.chance(1, 12) {
                far(m, r, &a);
            }
            if r.chance(1, 600) && !m.kind_slow() {
                // Thousands of words: made by the shift, or taken away by it
                let k = 64 * gen::vast(r, &d, 9000) + r.below(65) - 1;
                let a = gen::big(r, &d, 3);
                shifts(m, r, &a, k);
                // Where the value shifted away was itself made by a shift
                let (hi, lo) = (gen::big(r, &d, 4).abs(), gen::big(r, &d, 2).abs());
                let j = (k + r.below(130)).saturating_sub(64);
                let w = || format!("(({} << {k}) + {}) >> {j}", show(&hi), show(&lo));
                let got = m.run("shr of a vast value", w, || ((make(&hi, 0) << k) + make(&lo, 0)) >> j);
                judge(m, "shr of a vast value", got, &hi.shl(k).add(&lo).shr(j), "usize", w);
                m.max("largest shift", k as u64);
            }
            if r.chance(1, 400) && !m.kind_slow() {
                // Bases that stay small under large exponents
                let (b, e) = match r.below(3) {
                    0 => (r.range(2, 5) as i128, r.below(1100)),
                    _ => (r.below(3) as i128 - 1, (1usize << r.below(17)) + r.below(3) - 1),
                };
                power(m, r, &Big::from_i128(b), e as u64);
            }
            m.sample(|| format!("{} << {k}", show(&a)));
        }
    });
}
