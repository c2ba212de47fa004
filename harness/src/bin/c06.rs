//! C06: conversions between BigInt and primitive integers, and the float approximation.
#[path = "../support/bi.rs"]
mod bi;
use bi::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::BigInt;
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating, IntoChecked, IntoSaturating, IntoTruncating};

macro_rules! per_type {
    ($m:ident, $r:ident, $a:ident, $($t:ty),*) => {{
        let which = $r.below(12);
        let mut k = 0;
        $(
            if k == which {
                let tn = stringify!($t);
                let bits = <$t>::BITS as usize;
                let signed = <$t>::MIN != 0;
                let (lo, hi) = if signed {
                    (Big::pow2(bits - 1).neg(), Big::pow2(bits - 1).sub(&Big::one()))
                } else {
                    (Big::zero(), Big::pow2(bits).sub(&Big::one()))
                };
                let conv = |v: $t| if signed { Big::from_i128(v as i128) } else { Big::from_u128(v as u128) };
                // Into BigInt
                let d = $m.dict.clone();
                let raw = gen::word($r, &d, bits as u32) as $t;
                $m.seen(&("from", tn, conv(raw)));
                if let Some(x) = $m.run("from primitive", || format!("{tn} {raw}"), || BigInt::from(raw)) {
                    let obs = observe(&x);
                    $m.check("from primitive", obs.as_ref() == Some(&conv(raw)), || format!("BigInt::from({raw}{tn}) is {}", show_res(&obs)));
                    let back = $m.run("there and back", || format!("{tn} {raw}"), || <$t>::try_from(x).ok());
                    $m.check("there and back", back == Some(Some(raw)), || format!("BigInt::from({raw}{tn}) converts back to {back:?}"));
                }
                // Out of BigInt: around the limits of the type
                let target = match $r.below(8) {
                    0 => lo.clone(),
                    1 => hi.clone(),
                    2 => lo.sub(&Big::one()),
                    3 => hi.add(&Big::one()),
                    4 => hi.add(&Big::from_i128($r.irange(-3, 300) as i128)),
                    5 => lo.sub(&Big::from_i128($r.irange(-3, 300) as i128)),
                    6 => conv(gen::word($r, &d, bits as u32) as $t),
                    _ => $a.clone(),
                };
                if let Some((x, v)) = operand($m, $r, &target) {
                    $m.seen(&("to", tn, &v));
                    let fits = v >= lo && v <= hi;
                    let low = if signed { v.wrap_signed(bits) } else { v.modp2(bits) };
                    let sat = if v < lo { lo.clone() } else if v > hi { hi.clone() } else { v.clone() };
                    let byref = $r.bool();
                    let got = $m.run("checked", || format!("{} to {tn}", show(&v)), || {
                        let a = if byref { <$t>::try_from(&x).ok() } else { <$t>::try_from(x.clone()).ok() };
                        let b = if byref { <$t>::from_checked(x.clone()) } else { x.clone().into_checked() };
                        (a, b)
                    });
                    if let Some((a, b)) = got {
                        let want = fits.then(|| v.clone());
                        $m.check("checked", a.map(conv) == want && b.map(conv) == want, || {
                            format!("{} to {tn}: try_from {a:?}, checked {b:?}", show(&v))
                        });
                    }
                    let got = $m.run("truncating", || format!("{} to {tn}", show(&v)), || {
                        if byref { <$t>::truncate_from(x.clone()) } else { x.clone().truncate() }
                    });
                    if let Some(g) = got {
                        $m.check("truncating", conv(g) == low, || format!("{} truncated to {tn}: {g}, expected {}", show(&v), show(&low)));
                    }
                    let got = $m.run("saturating", || format!("{} to {tn}", show(&v)), || {
                        if byref { <$t>::saturate_from(x.clone()) } else { x.clone().saturate() }
                    });
                    if let Some(g) = got {
                        $m.check("saturating", conv(g) == sat, || format!("{} saturated to {tn}: {g}, expected {}", show(&v), show(&sat)));
                    }
                }
            }
            k += 1;
        )*
        let _ = k;
    }};
}

fn prims(m: &mut Mon, r: &mut Rng, a: &Big) {
    per_type!(m, r, a, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}

fn float(m: &mut Mon, r: &mut Rng, a: &Big) {
    let Some((x, a)) = operand(m, r, a) else { return };
    m.seen(&("float", &a));
    let Some(f) = m.run("float", || show(&a), || x.approx_float()) else { return };
    let want = a.to_f64();
    // "An approximation": far looser than what any sensible summation loses
    let bits = a.bits();
    let ok = if f.is_nan() {
        false
    } else if bits <= 53 {
        f == want
    } else if bits < 1020 {
        ((f - want) / want).abs() < 1e-9
    } else if bits > 1030 {
        f.is_infinite() && (f < 0.0) == a.neg
    } else {
        (f < 0.0) == a.neg && f.abs() > 1e300
    };
    m.check("float", ok, || format!("approx_float({}) = {f:e}, expected about {want:e}", show(&a)));
}

fn main() {
    run("C06", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let d = m.dict.clone();
        for k in 0..1200usize {
            if m.mine(k) && m.go_until(30) {
                let p = Big::pow2(k);
                float(m, r, &p);
                float(m, r, &p.neg());
                float(m, r, &p.sub(&Big::one()));
            }
        }
        while m.go() {
            let max = if r.chance(1, 50) { 24 } else { 4 };
            let a = gen::big(r, &d, max);
            for _ in 0..4 {
                prims(m, r, &a);
            }
            float(m, r, &a);
            m.sample(|| show(&a));
        }
    });
}
