//! C17: shifts, bitwise operations and comparison of digit slices.
#[path = "../support/digits.rs"]
#[macro_use]
mod dg;
use dg::*;
use monitors::{run, Big, Mon, Rng};
use numeric_bits::algos::{BitwiseShl, BitwiseShr, ElementBitand, ElementBitor, ElementBitxor, ElementCmp, ElementNot, ElementShl, ElementShr};

fn what<D: Digit>(op: &str, a: &[D], b: &[D]) -> String {
    format!("{op}({}, {})", show(a), show(b))
}

fn alloc<D: Digit>(m: &mut Mon, rule: &'static str, input: &dyn Fn() -> String, want: &Big, f: impl FnOnce() -> Vec<D>) {
    let Some(got) = m.run(rule, input, f) else { return };
    let v = value(&got);
    m.check(rule, v == *want, || format!("{}: expected 0x{}, got {}", input(), want.hex(), show(&got)));
}

fn shift<D: Digit>(m: &mut Mon, a: &[D], k: usize) {
    let va = value(a);
    let bits = a.len() * D::W;
    m.seen(&(D::NAME, "shift", a, k));
    m.max("largest shift", k as u64);
    let name = |op: &str| format!("{op}({}, {k})", show(a));
    let (l, r) = (va.shl(k), va.shr(k));
    m.event(211, || format!("shr {} {k:x} {}", va.hex(), value(&ElementShr::shr(a, k)).hex()));
    alloc::<D>(m, "element shl", &|| name("element shl"), &l, || ElementShl::shl(a, k));
    alloc::<D>(m, "element shr", &|| name("element shr"), &r, || ElementShr::shr(a, k));
    alloc::<D>(m, "bitwise shl", &|| name("bitwise shl"), &l, || BitwiseShl::shl(a, k));
    alloc::<D>(m, "bitwise shr", &|| name("bitwise shr"), &r, || BitwiseShr::shr(a, k));

    // In place: amounts past the width are refused, or reduced
    for (rule, left, want) in [("shl_checked", true, l.modp2(bits)), ("shr_checked", false, r.clone())] {
        let mut x = a.to_vec();
        let got = m.run(rule, || name(rule), || {
            let o = if left { ElementShl::shl_checked(&mut x[..], k) } else { ElementShr::shr_checked(&mut x[..], k) };
            o.map(|s| s.to_vec())
        });
        let Some(got) = got else { continue };
        let w = digits::<D>(&want, a.len());
        let ok = if k > bits { got.is_none() } else { got.as_deref() == Some(&w[..]) && x == w };
        m.check(rule, ok, || format!("{}: expected {} (None past {bits} bits), got {got:?}", name(rule), show(&w)));
    }
    if k != bits {
        let j = k % bits;
        for (rule, left, want) in [("shl_wrapping", true, va.shl(j).modp2(bits)), ("shr_wrapping", false, va.shr(j))] {
            let mut x = a.to_vec();
            let got = m.run(rule, || name(rule), || {
                let o = if left { ElementShl::shl_wrapping(&mut x[..], k) } else { ElementShr::shr_wrapping(&mut x[..], k) };
                o.to_vec()
            });
            let Some(got) = got else { continue };
            let w = digits::<D>(&want, a.len());
            m.check(rule, got == w && x == w, || format!("{}: expected {}, got {} (slice now {})", name(rule), show(&w), show(&got), show(&x)));
        }
    }
}

/// Amounts far beyond the slice: only the forms that need no memory for the result
fn far<D: Digit>(m: &mut Mon, r: &mut Rng, a: &[D]) {
    let va = value(a);
    let bits = a.len() * D::W;
    let k = monitors::gen::far(r, bits + 1);
    m.seen(&(D::NAME, "far", a, k));
    let name = |op: &str| format!("{op}({}, {k})", show(a));
    alloc::<D>(m, "element shr far", &|| name("element shr"), &Big::zero(), || ElementShr::shr(a, k));
    alloc::<D>(m, "bitwise shr far", &|| name("bitwise shr"), &Big::zero(), || BitwiseShr::shr(a, k));
    for (rule, left) in [("shl_checked far", true), ("shr_checked far", false)] {
        let mut x = a.to_vec();
        let got = m.run(rule, || name(rule), || {
            if left { ElementShl::shl_checked(&mut x[..], k).is_none() } else { ElementShr::shr_checked(&mut x[..], k).is_none() }
        });
        m.check(rule, got == Some(true), || format!("{}: was not refused", name(rule)));
    }
    let j = k % bits;
    for (rule, left, want) in [("shl_wrapping far", true, va.shl(j).modp2(bits)), ("shr_wrapping far", false, va.shr(j))] {
        let mut x = a.to_vec();
        let got = m.run(rule, || name(rule), || {
            let o = if left { ElementShl::shl_wrapping(&mut x[..], k) } else { ElementShr::shr_wrapping(&mut x[..], k) };
            o.to_vec()
        });
        let Some(got) = got else { continue };
        let w = digits::<D>(&want, a.len());
        m.check(rule, got == w, || format!("{}: expected {}, got {}", name(rule), show(&w), show(&got)));
    }
}

fn pair<D: Digit>(m: &mut Mon, a: &[D], b: &[D]) {
    let (va, vb) = (value(a), value(b));
    m.seen(&(D::NAME, a, b));
    alloc::<D>(m, "and", &|| what("and", a, b), &va.bitop(&vb, |p, q| p & q), || ElementBitand::bitand(a, b));
    alloc::<D>(m, "or", &|| what("or", a, b), &va.bitop(&vb, |p, q| p | q), || ElementBitor::bitor(a, b));
    alloc::<D>(m, "xor", &|| what("xor", a, b), &va.bitop(&vb, |p, q| p ^ q), || ElementBitxor::bitxor(a, b));
    let got = m.run("compare", || what("cmp", a, b), || (ElementCmp::cmp(a, b), ElementCmp::cmp(b, a), ElementCmp::cmp(&a.to_vec(), b)));
    let w = va.cmp(&vb);
    m.check("compare", got == Some((w, w.reverse(), w)), || format!("{}: expected {w:?}, got {got:?}", what("cmp", a, b)));
    if let Some(g) = got {
        m.event(101, || format!("cmp {} {} {}", va.hex(), vb.hex(), g.0 as i8));
    }
    let mut x = a.to_vec();
    m.run("not", || what("not", a, a), || ElementNot::not(&mut x[..]));
    let w = digits::<D>(&Big::pow2(a.len() * D::W).sub(&Big::one()).sub(&va), a.len());
    m.check("not", x == w, || format!("{}: expected {}, got {}", what("not", a, a), show(&w), show(&x)));
}

/// Every shift amount, over slices with a bit in each place
fn grid<D: Digit>(m: &mut Mon, max: usize) {
    for n in 1..=max {
        let bits = n * D::W;
        let pats: Vec<Vec<D>> = vec![
            vec![D::max_value(); n],
            digits(&Big::pow2(bits - 1).add(&Big::one()), n),
            (0..n).map(|i| D::of(0x0123_4567_89ab_cdef_0fed_cba9_8765_4321_u128.rotate_left(i as u32 * 13))).collect(),
        ];
        for p in &pats {
            for k in 0..=bits + D::W + 3 {
                shift(m, p, k);
            }
            for k in [2 * bits, 2 * bits + 1, 3 * bits - 1] {
                shift(m, p, k);
            }
        }
        m.count("slice lengths with every shift amount done", 1);
    }
}

fn random<D: Digit>(m: &mut Mon, r: &mut Rng) {
    let max = monitors::gen::reach(r, 8, 40, if m.kind_slow() { 40 } else { 2600 });
    let a = slice::<D>(m, r, max);
    let b = partner(m, r, &a, max);
    pair(m, &a, &b);
    let k = match r.below(8) {
        0 => r.below(4 * a.len() * D::W),
        1 => D::W * r.below(a.len() + 3),
        2 => D::W * r.range(1, a.len() + 1) - 1,
        3 => D::W * r.below(a.len() + 1) + 1,
        4 => m.dict.small(r, 2 * a.len() * D::W),
        _ => r.below(a.len() * D::W),
    };
    shift(m, &a, k);
    if r.chance(1, 6) {
        far(m, r, &a);
    }
    m.sample(|| format!("shift({}, {k})", show(&a)));
}

fn main() {
    run("C17", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for i in 0..DIGITS {
            if m.mine(i) {
                for_digit!(i, grid, m, 4);
            }
        }
        for a in 0..256usize {
            if m.mine(a) && m.go_until(40) {
                for b in 0..256u16 {
                    pair::<u8>(m, &[a as u8], &[b as u8]);
                    if b < 20 {
                        shift::<u8>(m, &[a as u8], b as usize);
                        shift::<u8>(m, &[!(a as u8), a as u8], b as usize);
                    }
                }
                m.count("one-byte rows done completely", 1);
            }
        }
        while m.go() {
            for d in 0..DIGITS {
                for_digit!(d, random, m, r);
            }
        }
    });
}
