//! C15: addition, subtraction and multiplication of digit slices.
#[path = "../support/digits.rs"]
#[macro_use]
mod dg;
use dg::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_bits::algos::{BitwiseAdd, BitwiseMul, BitwiseSub, ElementAdd, ElementMul, ElementSub};

fn what<D: Digit>(op: &str, a: &[D], b: &[D]) -> String {
    format!("{op}({}, {})", show(a), show(b))
}

/// A freshly allocated result
fn alloc<D: Digit>(m: &mut Mon, rule: &'static str, a: &[D], b: &[D], want: &Big, f: impl FnOnce() -> Vec<D>) {
    let Some(got) = m.run(rule, || what(rule, a, b), f) else { return };
    let v = value(&got);
    m.check(rule, v == *want, || format!("{}: expected 0x{}, got {}", what(rule, a, b), want.hex(), show(&got)));
}

/// A result in the left slice: (expected digits, expected flag if there is one)
fn placed<D: Digit>(m: &mut Mon, rule: &'static str, a: &[D], b: &[D], want: (&[D], Option<bool>), f: impl FnOnce(&mut Vec<D>) -> (Vec<D>, Option<bool>)) {
    let mut left = a.to_vec();
    let Some((ret, flag)) = m.run(rule, || what(rule, a, b), || f(&mut left)) else { return };
    let ok = flag == want.1 && ret == want.0 && left == want.0;
    m.check(rule, ok, || {
        format!("{}: expected {} flag {:?}, got {} flag {flag:?} (slice now {})", what(rule, a, b), show(want.0), want.1, show(&ret), show(&left))
    });
}

fn refusing<D: Digit>(m: &mut Mon, rule: &'static str, a: &[D], b: &[D], want: Option<&[D]>, f: impl FnOnce(&mut Vec<D>) -> Option<Vec<D>>) {
    let mut left = a.to_vec();
    let Some(got) = m.run(rule, || what(rule, a, b), || f(&mut left)) else { return };
    let ok = match (&got, want) {
        (Some(g), Some(w)) => g == w && left == w,
        (None, None) => true,
        _ => false,
    };
    m.check(rule, ok, || {
        format!("{}: expected {:?}, got {:?}", what(rule, a, b), want.map(show), got.as_deref().map(show))
    });
}

/// The operations on arrays, which are `Sized` and of a fixed length
fn arrays<D: Digit, const N: usize>(m: &mut Mon, a: &[D], b: &[D]) {
    if a.len() != N {
        return;
    }
    let bits = N * D::W;
    let (va, vb) = (value(a), value(b));
    let mut arr: [D; N] = a.try_into().unwrap();
    let b = b.to_vec();
    for (rule, exact) in [("array add", va.add(&vb)), ("array sub", va.sub(&vb)), ("array mul", va.mul(&vb))] {
        let mut x = arr;
        let got = m.run(rule, || what(rule, a, &b), || match rule {
            "array add" => ElementAdd::add_overflowing(&mut x, &b).1,
            "array sub" => ElementSub::sub_overflowing(&mut x, &b).1,
            _ => ElementMul::mul_overflowing(&mut x, &b).1,
        });
        let want = exact.modp2(bits);
        let flag = exact != want;
        m.check(rule, got == Some(flag) && value(&x) == want, || format!("{}: got {} {got:?}", what(rule, a, &b), show(&x)));
    }
    let want = va.add(&vb).modp2(bits);
    let got = m.run("array add_in_place", || what("add_in_place", a, &b), || value(BitwiseAdd::add_in_place(&mut arr, &b)));
    m.check("array add_in_place", got.as_ref() == Some(&want), || format!("{}: {got:?}", what("add_in_place", a, &b)));
}

fn pair<D: Digit>(m: &mut Mon, a: &[D], b: &[D]) {
    let bits = a.len() * D::W;
    let (va, vb) = (value(a), value(b));
    let bv = b.to_vec();
    m.seen(&(D::NAME, a, b));
    m.max("longest slice", a.len() as u64);

    // Addition
    let sum = va.add(&vb);
    m.event(211, || format!("add {} {} {}", va.hex(), vb.hex(), value(&ElementAdd::add(a, b)).hex()));
    alloc(m, "element add", a, b, &sum, || ElementAdd::add(a, b));
    alloc(m, "bitwise add", a, b, &sum, || BitwiseAdd::add(a, b));
    let w = digits::<D>(&sum.modp2(bits), a.len());
    let over = sum.bits() > bits;
    if over {
        m.count("sums that overflow", 1);
    }
    placed(m, "add_overflowing", a, b, (&w, Some(over)), |l| {
        let (s, f) = ElementAdd::add_overflowing(&mut l[..], b);
        (s.to_vec(), Some(f))
    });
    placed(m, "add_wrapping", a, b, (&w, None), |l| (ElementAdd::add_wrapping(&mut l[..], b).to_vec(), None));
    placed(m, "add_in_place", a, b, (&w, None), |l| (BitwiseAdd::add_in_place(&mut l[..], &bv).to_vec(), None));
    refusing(m, "add_checked", a, b, (!over).then_some(&w[..]), |l| ElementAdd::add_checked(&mut l[..], b).map(|s| s.to_vec()));

    // Subtraction
    let diff = va.sub(&vb);
    let neg = va < vb;
    for (rule, e) in [("element sub", true), ("bitwise sub", false)] {
        let got = m.run(rule, || what(rule, a, b), || if e { ElementSub::sub(a, b) } else { BitwiseSub::sub(a, b) });
        if let Some((d, s)) = got {
            let ok = value(&d) == diff.abs() && s == neg;
            m.check(rule, ok, || format!("{}: expected {}{}, got {} sign {s}", what(rule, a, b), if neg { "-" } else { "" }, diff.abs().hex(), show(&d)));
        }
    }
    let w = digits::<D>(&diff.modp2(bits), a.len());
    placed(m, "sub_overflowing", a, b, (&w, Some(neg)), |l| {
        let (s, f) = ElementSub::sub_overflowing(&mut l[..], b);
        (s.to_vec(), Some(f))
    });
    placed(m, "sub_wrapping", a, b, (&w, None), |l| (ElementSub::sub_wrapping(&mut l[..], b).to_vec(), None));
    refusing(m, "sub_checked", a, b, (!neg).then_some(&w[..]), |l| ElementSub::sub_checked(&mut l[..], b).map(|s| s.to_vec()));

    // Multiplication
    if a.len() * b.len() > 40_000 {
        return;
    }
    let prod = va.mul(&vb);
    alloc(m, "element mul", a, b, &prod, || ElementMul::mul(a, b));
    if bits + b.len() * D::W <= 600 {
        alloc(m, "bitwise mul", a, b, &prod, || BitwiseMul::mul(a, &bv));
    }
    let w = digits::<D>(&prod.modp2(bits), a.len());
    let over = prod.bits() > bits;
    if over {
        m.count("products that overflow", 1);
    } else {
        m.count("products that fit", 1);
    }
    placed(m, "mul_overflowing", a, b, (&w, Some(over)), |l| {
        let (s, f) = ElementMul::mul_overflowing(&mut l[..], &bv);
        (s.to_vec(), Some(f))
    });
    placed(m, "mul_wrapping", a, b, (&w, None), |l| (ElementMul::mul_wrapping(&mut l[..], &bv).to_vec(), None));
    refusing(m, "mul_checked", a, b, (!over).then_some(&w[..]), |l| ElementMul::mul_checked(&mut l[..], &bv).map(|s| s.to_vec()));

    arrays::<D, 1>(m, a, b);
    arrays::<D, 2>(m, a, b);
    arrays::<D, 3>(m, a, b);
    arrays::<D, 5>(m, a, b);
}

/// Whole carry chains: a = 111..1 pattern of one length, b = 1 in any position
fn chains<D: Digit>(m: &mut Mon, max: usize) {
    for n in 1..=max {
        for ones in 0..=n {
            let a: Vec<D> = (0..n).map(|i| if i < ones { D::max_value() } else { D::of(0) }).collect();
            for pos in 0..max {
                let mut b = vec![D::of(0); pos + 1];
                b[pos] = D::of(1);
                pair(m, &a, &b);
                pair(m, &b, &a);
            }
            let c: Vec<D> = (0..n).map(|i| if i < ones { D::of(0) } else { D::max_value() }).collect();
            pair(m, &a, &c);
            pair(m, &c, &a);
            pair(m, &c, &c);
        }
    }
}

/// Slices of thousands of digits: sums and differences with long carries, products with short slices
fn vast<D: Digit>(m: &mut Mon, r: &mut Rng) {
    if m.kind_slow() {
        return;
    }
    let n = gen::vast(r, &m.dict, 2600);
    let a: Vec<D> = gen::words(r, &m.dict, D::W as u32, n).into_iter().map(D::of).collect();
    let b = partner(m, r, &a, n);
    pair(m, &a, &b);
    pair(m, &b, &a);
    let mut one = vec![D::of(0); r.range(1, n)];
    *one.last_mut().unwrap() = D::of(1);
    // Carries and borrows that start anywhere and run to the end
    pair(m, &vec![D::max_value(); n], &one);
    let mut top = vec![D::of(0); n + 1];
    top[n] = D::of(1);
    pair(m, &top, &one);
    let c = slice::<D>(m, r, 4);
    pair(m, &a, &c);
    pair(m, &c, &a);
    m.count("pairs of vast slices", 6);
}

fn random<D: Digit>(m: &mut Mon, r: &mut Rng) {
    let max = monitors::gen::reach(r, 8, 40, 300);
    let a = slice::<D>(m, r, max);
    let b = partner(m, r, &a, max);
    pair(m, &a, &b);
    pair(m, &b, &a);
    m.sample(|| what("add/sub/mul", &a, &b));
}

fn main() {
    run("C15", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for i in 0..DIGITS {
            if m.mine(i) {
                for_digit!(i, chains, m, 5);
            }
        }
        // One byte against one and two bytes
        for a in 0..256usize {
            if m.mine(a) && m.go_until(50) {
                for b in 0..256u16 {
                    pair::<u8>(m, &[a as u8], &[b as u8]);
                    pair::<u8>(m, &[b as u8, a as u8], &[a as u8 ^ 0x55]);
                }
                m.count("one-byte rows done completely", 1);
            }
        }
        for d in 0..DIGITS {
            for_digit!(d, vast, m, r);
        }
        while m.go() {
            if r.chance(1, 60) {
                for_digit!(r.below(DIGITS), vast, m, r);
            }
            for d in 0..DIGITS {
                for_digit!(d, random, m, r);
            }
        }
    });
}
