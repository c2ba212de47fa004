//! C18: bit access, bit iteration, growing, shrinking, repacking.
#[path = "../support/digits.rs"]
#[macro_use]
mod dg;
use dg::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_bits::bit_slice::{BitSliceExt, BitVecExt};
use numeric_bits::utils::{arr_to_int, const_reverse, int_to_arr, IntSlice};

/// The bits of a slice, as seen by the model
fn bits<D: Digit>(s: &[D]) -> Vec<bool> {
    s.iter().flat_map(|d| (0..D::W).map(move |i| d.u() >> i & 1 == 1)).collect()
}

fn reading<D: Digit>(m: &mut Mon, r: &mut Rng, a: &[D]) {
    let model = bits(a);
    m.seen(&(D::NAME, "read", a));
    let v = a.to_vec();
    let got = m.run("lengths", || show(a), || {
        (BitSliceExt::len(a), a.bit_len(), BitSliceExt::is_empty(a), BitSliceExt::len(&v), v.bit_len(), a.slice() == a)
    });
    let want = (a.len(), model.len(), false, a.len(), model.len(), true);
    m.check("lengths", got == Some(want), || format!("{}: {got:?}", show(a)));

    let n = model.len();
    let spots = [0, D::W - 1, D::W, n - 1, n, n + 1, n + D::W, r.below(n), r.below(n + 9), r.below(n), gen::far(r, n), usize::MAX];
    for i in spots {
        let got = m.run("get_bit_opt", || format!("{} bit {i}", show(a)), || a.get_bit_opt(i));
        m.check("get_bit_opt", got == Some(model.get(i).copied()), || format!("{} bit {i}: {got:?}", show(a)));
        let got = m.attempt("get_bit", || a.get_bit(i)).ok();
        m.check("get_bit", got == model.get(i).copied(), || format!("{} bit {i}: {got:?}", show(a)));
        let d = i / D::W;
        let got = m.attempt("get", || (a.get_opt(d), BitSliceExt::get(a, d)));
        let ok = match (&got, a.get(d)) {
            (Ok((o, g)), Some(x)) => *o == Some(*x) && g == x,
            (Err(_), None) => true,
            _ => false,
        };
        m.check("get", ok, || format!("{} digit {d}: {got:?}", show(a)));
        let got = m.run("get_opt", || format!("{} digit {d}", show(a)), || a.get_opt(d));
        m.check("get_opt", got == Some(a.get(d).copied()), || format!("{} digit {d}: {got:?}", show(a)));
    }

    // Iteration with exact lengths at every step
    let stop = if r.bool() { n } else { r.below(n + 1) };
    let got = m.run("bit iteration", || format!("{} first {stop} bits", show(a)), || {
        let mut it = a.iter_bits();
        let mut out = vec![];
        let mut lens = vec![(it.len(), it.size_hint())];
        for _ in 0..stop {
            out.push(it.next());
            lens.push((it.len(), it.size_hint()));
        }
        let rest: Vec<bool> = it.by_ref().collect();
        (out, lens, rest, it.next(), it.next(), it.len())
    });
    if let Some((out, lens, rest, e1, e2, left)) = got {
        let ok = out.iter().enumerate().all(|(i, b)| *b == Some(model[i]))
            && lens.iter().enumerate().all(|(i, l)| *l == (n - i, (n - i, Some(n - i))))
            && rest == model[stop..]
            && e1.is_none()
            && e2.is_none()
            && left == 0;
        m.check("bit iteration", ok, || {
            format!("{} stopping after {stop}: {} then {}, lengths {:?}, after the end {e1:?} {e2:?} len {left}", show(a), out.len(), rest.len(), &lens[..lens.len().min(5)])
        });
    }
    let got = m.run("bit iteration count", || show(a), || (a.iter_bits().count(), a.iter_bits().filter(|b| *b).count(), a.iter_bits().last(), a.iter_bits().nth(stop)));
    let want = (n, model.iter().filter(|b| **b).count(), model.last().copied(), model.get(stop).copied());
    m.check("bit iteration count", got == Some(want), || format!("{}: {got:?}", show(a)));

    // Jumping ahead from any position: what follows, and how much, is right after every jump
    let steps: Vec<(usize, usize)> = (0..r.range(1, 6)).map(|_| (r.below(5), if r.chance(1, 12) { gen::far(r, n) } else if r.chance(1, 5) { r.below(n + 3) } else { r.below(16 * std::mem::size_of::<D>() + 2) })).collect();
    let w = || format!("{} jumps {steps:?}", show(a));
    let got = m.run("bit iteration with jumps", w, || {
        let mut it = a.iter_bits();
        let mut seen = vec![];
        for &(kind, k) in &steps {
            let b: Vec<Option<bool>> = match kind {
                0 => vec![it.next()],
                1 => vec![it.nth(k)],
                2 => it.by_ref().take(k).map(Some).collect(),
                3 => vec![it.by_ref().skip(k).next()],
                _ => it.by_ref().step_by(k % 9 + 1).take(2).map(Some).collect(),
            };
            seen.push((b, it.len(), it.size_hint()));
        }
        (seen, it.fold(vec![], |mut v, b| { v.push(b); v }))
    });
    let mut it = model.iter().copied();
    let mut seen = vec![];
    for &(kind, k) in &steps {
        let b: Vec<Option<bool>> = match kind {
            0 => vec![it.next()],
            1 => vec![it.nth(k)],
            2 => it.by_ref().take(k).map(Some).collect(),
            3 => vec![it.by_ref().skip(k).next()],
            _ => it.by_ref().step_by(k % 9 + 1).take(2).map(Some).collect(),
        };
        seen.push((b, it.len(), it.size_hint()));
    }
    let want = (seen, it.collect::<Vec<bool>>());
    m.check("bit iteration with jumps", got.as_ref() == Some(&want), || format!("{}: {got:?}, expected {want:?}", w()));
}

/// A history of writes against a model
fn writing<D: Digit>(m: &mut Mon, r: &mut Rng, a: &[D]) {
    let mut v = a.to_vec();
    let mut model = a.to_vec();
    let mut log = vec![];
    for _ in 0..r.range(1, 24) {
        let n = model.len();
        let fits = r.chance(3, 4);
        let d = if fits { r.below(n) } else { n + r.below(3) };
        let bit = d * D::W + *r.pick(&[0, 1, D::W / 2, D::W - 2, D::W - 1]);
        let (val, on) = (D::of(gen::word(r, &m.dict, D::W as u32)), r.bool());
        let op = r.below(8);
        // Far outside, where growing is no option
        let (d, bit) = if op < 6 && r.chance(1, 12) {
            let bit = gen::far(r, n * D::W);
            (if op < 3 { bit } else { bit / D::W }, bit)
        } else {
            (d, bit)
        };
        log.push(format!("{op}:{d}/{bit}={:#x}/{on}", val.u()));
        let mask = 1u128 << (bit % D::W);
        let with = |old: D| D::of(if on { old.u() | mask } else { old.u() & !mask });
        let got: Result<Option<()>, String> = m.attempt("write", || match op {
            0 => {
                v.set(d, val);
                Some(())
            }
            1 => v.set_opt(d, val),
            2 => {
                v.set_ignore(d, val);
                Some(())
            }
            3 => {
                v.set_bit(bit, on);
                Some(())
            }
            4 => v.set_bit_opt(bit, on),
            5 => {
                v.set_bit_ignore(bit, on);
                Some(())
            }
            6 => {
                BitVecExt::set_push(&mut v, d, val);
                Some(())
            }
            _ => {
                v.set_bit_push(bit, on);
                Some(())
            }
        });
        // What should have happened
        let inside = d < n;
        let expect: Result<Option<()>, ()> = match op {
            0 | 3 if !inside => Err(()),
            1 | 4 if !inside => Ok(None),
            _ => Ok(Some(())),
        };
        if op >= 6 && !inside {
            model.resize(d + 1, D::of(0));
        }
        if d < model.len() {
            match op {
                0..=2 | 6 => model[d] = val,
                _ => model[d] = with(model[d]),
            }
        }
        let ok = match (&got, &expect) {
            (Ok(g), Ok(e)) => g == e,
            (Err(_), Err(())) => true,
            _ => false,
        };
        let s = |v: &[D]| show(v);
        if !m.check("write", ok && v == model, || {
            format!("from {}, writes {log:?}: expected {} {expect:?}, got {} {got:?}", s(a), s(&model), s(&v))
        }) {
            return;
        }
    }
    // Growing never shortens and keeps what is there
    let len = r.below(model.len() + 5);
    m.run("extend", || show(a), || BitVecExt::extend(&mut v, len, D::of(7)));
    if len > model.len() {
        model.resize(len, D::of(7));
    }
    m.check("extend", v == model, || format!("extend to {len}: expected {}, got {}", show(&model), show(&v)));
}

fn shrinking<D: Digit>(m: &mut Mon, a: &[D]) {
    let keep = a.iter().rposition(|d| d.u() != 0).map_or(1, |i| i + 1);
    let got = m.run("shrink", || show(a), || (IntSlice::shrink(a).to_vec(), IntSlice::shrink(a.to_vec())));
    m.check("shrink", got.as_ref().is_some_and(|(s, v)| s == &a[..keep] && v == &a[..keep]), || format!("{}: {got:?}", show(a)));
}

macro_rules! repack {
    ($m:expr, $v:expr, $from:ident, $to:ident, $n:literal) => {{
        let v: $from = $v;
        let name = || format!("int_to_arr::<{}, {}, {}>({v:#x})", stringify!($from), stringify!($to), $n);
        let got = $m.run("int to digits", name, || int_to_arr::<$from, $to, $n>(v));
        if let Some(arr) = got {
            let want = digits::<$to>(&Big::from_u128(v as u128), $n);
            $m.check("int to digits", arr[..] == want[..], || format!("{}: {arr:x?}", name()));
            $m.seen(&("repack", stringify!($from), stringify!($to), $n, v as u128));
            // And back, if nothing was cut off
            if value(&arr[..]) == Big::from_u128(v as u128) {
                let back = $m.run("digits to int", name, || arr_to_int::<$to, $from>(&arr));
                $m.check("digits to int", back == Some(Some(v)), || format!("{} and back: {back:x?}", name()));
            }
        }
    }};
}

macro_rules! pack {
    ($m:expr, $r:expr, $from:ident: $($to:ident)*) => {$({
        let a: Vec<$from> = slice($m, $r, 20);
        let v = value(&a);
        let want = v.to_u128().filter(|v| *v <= <$to>::MAX as u128).map(|v| v as $to);
        let got = $m.run("pack", || format!("{} as {}", show(&a), stringify!($to)), || arr_to_int::<$from, $to>(&a));
        if want.is_some() {
            $m.count("slices that fit an integer", 1);
        }
        $m.check("pack", got == Some(want), || format!("{} as {}: expected {want:x?}, got {got:x?}", show(&a), stringify!($to)));
        $m.seen(&("pack", stringify!($from), stringify!($to), &a));
    })*};
}

macro_rules! all_repack {
    ($m:expr, $r:expr, $($from:ident)*) => {$({
        let v = gen::word($r, &$m.dict, <$from>::BITS) as $from;
        repack!($m, v, $from, u8, 1);
        repack!($m, v, $from, u8, 2);
        repack!($m, v, $from, u8, 3);
        repack!($m, v, $from, u8, 8);
        repack!($m, v, $from, u8, 16);
        repack!($m, v, $from, u8, 17);
        repack!($m, v, $from, u16, 1);
        repack!($m, v, $from, u16, 4);
        repack!($m, v, $from, u16, 8);
        repack!($m, v, $from, u32, 1);
        repack!($m, v, $from, u32, 2);
        repack!($m, v, $from, u32, 4);
        repack!($m, v, $from, u64, 1);
        repack!($m, v, $from, u64, 2);
        repack!($m, v, $from, usize, 1);
        repack!($m, v, $from, usize, 2);
        repack!($m, v, $from, u128, 1);
        repack!($m, v, $from, u128, 2);
        pack!($m, $r, $from: u8 u16 u32 u64 usize u128);
    })*};
}

fn reverse<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let mut a = [0u8; N];
    a.iter_mut().for_each(|b| *b = r.u64() as u8);
    let mut w = a;
    w.reverse();
    let got = m.run("const_reverse", || format!("{a:?}"), || const_reverse(a));
    m.check("const_reverse", got == Some(w), || format!("{a:?}: {got:?}"));
}

/// Slices of tens of thousands of bits, looked at and written in some places
fn vast<D: Digit>(m: &mut Mon, r: &mut Rng) {
    if m.kind_slow() {
        return;
    }
    let n = gen::vast(r, &m.dict, 20_000);
    let mut v: Vec<D> = gen::words(r, &m.dict, D::W as u32, n).into_iter().map(D::of).collect();
    let mut model = v.clone();
    let tag = |i: usize| format!("bit {i} of {n} digits of {}", D::NAME);
    m.max("longest slice", n as u64);
    for _ in 0..200 {
        let len = model.len() * D::W;
        let i = match r.below(4) {
            0 => gen::vast(r, &m.dict, len) - 1,
            1 => len - 1 - r.below(D::W),
            _ => r.below(len),
        };
        let want = model[i / D::W].u() >> (i % D::W) & 1 == 1;
        let got = m.run("vast read", || tag(i), || (v.get_bit_opt(i), v[..].get_bit(i), v.get_opt(i / D::W)));
        m.check("vast read", got == Some((Some(want), want, Some(model[i / D::W]))), || format!("{}: {got:?}, expected {want}", tag(i)));
        let on = r.bool();
        let mask = 1u128 << (i % D::W);
        let old = model[i / D::W].u();
        model[i / D::W] = D::of(if on { old | mask } else { old & !mask });
        m.run("vast write", || tag(i), || match r.below(4) {
            0 => v.set_bit(i, on),
            1 => v.set_bit_opt(i, on).unwrap(),
            2 => v.set_bit_ignore(i, on),
            _ => v.set_bit_push(i, on),
        });
        m.check("vast write", v[i / D::W] == model[i / D::W], || tag(i));
        if r.chance(1, 20) {
            let d = r.below(model.len() + 3);
            let val = D::of(gen::word(r, &m.dict, D::W as u32));
            m.run("vast write", || tag(d * D::W), || BitVecExt::set_push(&mut v, d, val));
            model.resize(model.len().max(d + 1), D::of(0));
            model[d] = val;
        }
    }
    m.check("vast write", v == model, || format!("{n} digits of {} after 200 writes", D::NAME));
    let out = m.run("vast iteration", || tag(0), || v.iter_bits().len());
    m.check("vast iteration", out == Some(v.len() * D::W), || format!("{n} digits of {}: {out:?}", D::NAME));
    let bad = m.run("vast iteration", || tag(0), || {
        let mut it = v.iter_bits();
        for (i, d) in model.iter().enumerate() {
            for k in 0..D::W {
                if it.next() != Some(d.u() >> k & 1 == 1) || it.len() != (model.len() - i) * D::W - k - 1 {
                    return Some(i * D::W + k);
                }
            }
        }
        it.next().map(|_| usize::MAX)
    });
    m.check("vast iteration", bad == Some(None), || format!("{n} digits of {}: {bad:?}", D::NAME));
    let longer = v.len() + r.below(3000);
    v.resize(longer, D::of(0));
    let keep = v.iter().rposition(|d| d.u() != 0).map_or(1, |i| i + 1);
    let got = m.run("vast shrink", || tag(0), || (IntSlice::shrink(&v[..]).len(), IntSlice::shrink(v.clone()).len()));
    m.check("vast shrink", got == Some((keep, keep)), || format!("{n} digits of {}: {got:?}, expected {keep}", D::NAME));
    m.count("vast slices", 1);
}

fn random<D: Digit>(m: &mut Mon, r: &mut Rng) {
    let max = monitors::gen::reach(r, 6, 24, 140);
    let a = slice::<D>(m, r, max);
    reading(m, r, &a);
    writing(m, r, &a);
    shrinking(m, &a);
    m.sample(|| format!("bits of {}", show(&a)));
}

fn main() {
    run("C18", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for a in 0..256u16 {
            if m.mine(a as usize) {
                reading(m, r, &[a as u8]);
                reading(m, r, &[a as u8, !(a as u8)]);
                shrinking(m, &[a as u8]);
                shrinking(m, &[a as u8, 0]);
                shrinking(m, &[0, a as u8]);
                shrinking(m, &[0, a as u8, 0, 0]);
            }
        }
        for d in 0..DIGITS {
            for_digit!(d, vast, m, r);
        }
        while m.go() {
            if r.chance(1, 60) {
                for_digit!(r.below(DIGITS), vast, m, r);
            }
            for d in 0..DIGITS {
                for_digit!(d, random, m, r);
            }
            all_repack!(m, r, u8 u16 u32 u64 usize u128);
            reverse::<0>(m, r);
            reverse::<1>(m, r);
            reverse::<2>(m, r);
            reverse::<5>(m, r);
            reverse::<8>(m, r);
            reverse::<33>(m, r);
        }
    });
}
