//! C01: BigInt addition, subtraction, multiplication, negation and absolute value are exact.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::class::Signed;
use numeric_traits::identity::{One, Zero};

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Add,
    Sub,
    Mul,
}

fn expect(op: Op, a: &Big, b: &Big) -> Big {
    match op {
        Op::Add => a.add(b),
        Op::Sub => a.sub(b),
        Op::Mul => a.mul(b),
    }
}

fn name(op: Op) -> &'static str {
    match op {
        Op::Add => "add",
        Op::Sub => "sub",
        Op::Mul => "mul",
    }
}

fn apply(op: Op, form: usize, x: &BigInt, y: &BigInt) -> BigInt {
    macro_rules! go {
        ($op:tt, $as:tt) => {
            match form {
                0 => x.clone() $op y.clone(),
                1 => x.clone() $op y,
                2 => x $op y.clone(),
                3 => x $op y,
                4 => { let mut z = x.clone(); z $as y.clone(); z }
                _ => { let mut z = x.clone(); z $as y; z }
            }
        };
    }
    match op {
        Op::Add => go!(+, +=),
        Op::Sub => go!(-, -=),
        Op::Mul => go!(*, *=),
    }
}

const FORMS: [&str; 6] = ["val-val", "val-ref", "ref-val", "ref-ref", "assign-val", "assign-ref"];

fn judge(m: &mut Mon, rule: &'static str, got: Option<BigInt>, want: &Big, form: &str, what: impl Fn() -> String) {
    let Some(got) = got else { return };
    let obs = observe(&got);
    m.check(rule, obs.as_ref() == Some(want), || {
        format!("{} [{form}]: expected {}, got {}", what(), show(want), show_res(&obs))
    });
}

fn binary(m: &mut Mon, r: &mut Rng, a: &Big, b: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    let Some((y, b)) = operand(m, r, b) else { return };
    for op in [Op::Add, Op::Sub, Op::Mul] {
        let want = expect(op, &a, &b);
        let form = r.below(6);
        m.seen(&(name(op), &a, &b, form));
        let rule = name(op);
        let got = m.run(rule, || show2(rule, &a, &b), || apply(op, form, &x, &y));
        if let Some(g) = &got {
            m.event(199, || format!("{rule} {} {} {}", a.hex(), b.hex(), observe(g).map_or("?".into(), |o| o.hex())));
            m.max("largest result in bits", want.bits() as u64);
            if g.is_interned() {
                m.count("results in shared storage", 1);
            }
        }
        judge(m, rule, got, &want, FORMS[form], || show2(rule, &a, &b));
    }
    // Aliased operands
    if r.chance(1, 4) {
        let form = r.below(6);
        let op = *r.pick(&[Op::Add, Op::Sub, Op::Mul]);
        let got = m.run("aliased", || show2(name(op), &a, &a), || apply(op, form, &x, &x));
        judge(m, "aliased", got, &expect(op, &a, &a), FORMS[form], || show2(name(op), &a, &a));
    }
    // Operands are left alone
    if r.chance(1, 4) {
        let (ox, oy) = (observe(&x), observe(&y));
        m.check("operands unchanged", ox.as_ref() == Some(&a) && oy.as_ref() == Some(&b), || {
            format!("operands {} and {} became {} and {}", show(&a), show(&b), show_res(&ox), show_res(&oy))
        });
    }
    if r.chance(1, 2) {
        unary(m, &x, &a);
    }
    // A short chain of operations on the same variable
    if r.chance(1, 8) {
        let mut acc = x.clone();
        let mut want = a.clone();
        for _ in 0..r.range(2, 6) {
            let op = *r.pick(&[Op::Add, Op::Sub, Op::Mul]);
            if op == Op::Mul && want.bits() > 2000 {
                continue;
            }
            want = expect(op, &want, &b);
            let form = r.below(6);
            let cur = acc.clone();
            let Some(g) = m.run("chain", || show2(name(op), &a, &b), || apply(op, form, &cur, &y)) else { return };
            acc = g;
        }
        judge(m, "chain", Some(acc), &want, "chain", || show2("chain", &a, &b));
    }
}

fn unary(m: &mut Mon, x: &BigInt, a: &Big) {
    let got = m.run("neg", || format!("neg {}", show(a)), || -x.clone());
    judge(m, "neg", got, &a.neg(), "value", || format!("neg {}", show(a)));
    let got = m.run("neg", || format!("neg {}", show(a)), || -x);
    judge(m, "neg", got, &a.neg(), "ref", || format!("neg {}", show(a)));
    let got = m.run("abs", || format!("abs {}", show(a)), || x.clone().abs());
    judge(m, "abs", got, &a.abs(), "value", || format!("abs {}", show(a)));
    let flags = m.run("sign predicates", || show(a), || (x.is_negative(), x.is_positive(), x.is_zero(), x.is_one()));
    if let Some(f) = flags {
        let want = (a.neg, !a.neg, a.is_zero(), *a == Big::one());
        m.check("sign predicates", f == want, || format!("{}: (negative, positive, zero, one) = {f:?}, expected {want:?}", show(a)));
    }
}

macro_rules! prim_forms {
    ($m:ident, $r:ident, $x:ident, $a:ident, $($t:ty),*) => {{
        let which = $r.below(12);
        let mut k = 0;
        $(
            if k == which {
                let raw = gen::word($r, &$m.dict.clone(), <$t>::BITS) as $t;
                let b = if <$t>::MIN == 0 { Big::from_u128(raw as u128) } else { Big::from_i128(raw as i128) };
                let tn = stringify!($t);
                let asg = $r.bool();
                $m.seen(&("prim", &$a, &b, tn, asg));
                let got = $m.run("prim add", || show2("add", &$a, &b), || if asg { let mut z = $x.clone(); z += raw; z } else { $x.clone() + raw });
                judge($m, "prim add", got, &$a.add(&b), tn, || show2("add", &$a, &b));
                let got = $m.run("prim sub", || show2("sub", &$a, &b), || if asg { let mut z = $x.clone(); z -= raw; z } else { $x.clone() - raw });
                judge($m, "prim sub", got, &$a.sub(&b), tn, || show2("sub", &$a, &b));
                let got = $m.run("prim mul", || show2("mul", &$a, &b), || if asg { let mut z = $x.clone(); z *= raw; z } else { $x.clone() * raw });
                judge($m, "prim mul", got, &$a.mul(&b), tn, || show2("mul", &$a, &b));
            }
            k += 1;
        )*
        let _ = k;
    }};
}

fn prims(m: &mut Mon, r: &mut Rng, a: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    prim_forms!(m, r, x, a, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}

fn main() {
    run("C01", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let d = m.dict.clone();
        // Identities of the type
        let z = [
            ("new", BigInt::new(), Big::zero()),
            ("default", BigInt::default(), Big::zero()),
            ("zero", BigInt::zero(), Big::zero()),
            ("one", BigInt::one(), Big::one()),
        ];
        for (n, v, want) in z {
            judge(m, "identity", Some(v), &want, n, || n.into());
        }
        // All pairs of boundary values around the inline/stored and the word boundaries
        let mut edge: Vec<Big> = vec![];
        for k in [0usize, 1, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192] {
            for delta in [-2i128, -1, 0, 1, 2] {
                let v = Big::pow2(k).add(&Big::from_i128(delta));
                edge.push(v.neg());
                edge.push(v);
            }
        }
        edge.sort();
        edge.dedup();
        let n = edge.len();
        for i in 0..n * n {
            if m.mine(i) && m.go_until(60) {
                binary(m, r, &edge[i / n], &edge[i % n]);
            }
        }
        m.count("boundary pairs", (n * n / m.shards) as u64);
        while m.go() {
            let max = gen::reach(r, 24, 80, 700);
            let a = gen::big(r, &d, max);
            let b = gen::related(r, &d, &a, max);
            if r.bool() {
                binary(m, r, &a, &b);
            } else {
                binary(m, r, &b, &a);
            }
            prims(m, r, &a);
            m.sample(|| show2("add/sub/mul", &a, &b));
        }
    });
}
