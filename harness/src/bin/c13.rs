//! C13: U<N> conversions, bytes and text.
#[path = "../support/fixed_width.rs"]
#[macro_use]
mod fw;
use fw::*;
use monitors::{gen, run, Big, Mon, Rng};
use numeric_ints::U;
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating};

fn val<const N: usize>(u: U<N>) -> Big {
    Big::from_le_bytes(false, &u.to_le_bytes())
}

fn bytes<const N: usize>(m: &mut Mon, a: &Big) {
    let le: [u8; N] = bytes_of(a);
    let mut be = le;
    be.reverse();
    let ne = if cfg!(target_endian = "little") { le } else { be };
    m.seen(&(N, "bytes", a));
    let got = m.run("bytes out", || format!("U<{N}> 0x{}", a.hex()), || {
        let x = U::<N>::from_le_bytes(le);
        (x.to_le_bytes(), x.to_be_bytes(), x.to_ne_bytes())
    });
    m.check("bytes out", got == Some((le, be, ne)), || format!("U<{N}> from le bytes {le:x?}: le, be, ne bytes are {got:x?}"));
    let got = m.run("bytes in", || format!("U<{N}> 0x{}", a.hex()), || {
        (U::<N>::from_be_bytes(be).to_le_bytes(), U::<N>::from_ne_bytes(ne).to_le_bytes())
    });
    m.check("bytes in", got == Some((le, le)), || format!("U<{N}> 0x{} through be and ne bytes: {got:x?}", a.hex()));
    let got = m.run("bytes and equality", || format!("U<{N}>"), || U::<N>::from_be_bytes(be) == U::from_le_bytes(le));
    m.check("bytes and equality", got == Some(true), || format!("U<{N}> 0x{}: be and le construction differ", a.hex()));
}

macro_rules! prim {
    ($m:ident, $r:ident, $n:tt, $a:ident, $which:ident, $($t:ty),*) => {{
        let mut k = 0;
        $(
            if k == $which {
                let tn = stringify!($t);
                let bits = <$t>::BITS as usize;
                // Out of U<N>
                let a = match $r.below(5) {
                    0 => $a.modp2(bits),
                    1 => Big::pow2(bits).add(&Big::from_i128($r.irange(-2, 2) as i128)).modp2(8 * $n),
                    2 => $a.modp2(bits).add(&Big::pow2(8 * $r.below($n))).modp2(8 * $n),
                    _ => $a.clone(),
                };
                let x = U::<$n>::from_le_bytes(bytes_of(&a));
                $m.seen(&($n, tn, &a));
                let max = Big::pow2(bits).sub(&Big::one());
                let w = || format!("U<{}> 0x{} to {tn}", $n, a.hex());
                let got = $m.run("checked out", w, || <$t>::from_checked(x).map(|v| Big::from_u128(v as u128)));
                let want = (a <= max).then(|| a.clone());
                $m.check("checked out", got.as_ref() == Some(&want), || format!("{}: got {:?}, expected {:?}", w(), got.flatten().map(|g| g.hex()), want.map(|g| g.hex())));
                let got = $m.run("saturating out", w, || Big::from_u128(<$t>::saturate_from(x) as u128));
                let want = a.clone().min(max.clone());
                $m.check("saturating out", got.as_ref() == Some(&want), || format!("{}: got {:?}, expected {:?}", w(), got.map(|g| g.hex()), want.hex()));
                let got = $m.run("truncating out", w, || Big::from_u128(<$t>::truncate_from(x) as u128));
                let want = a.modp2(bits);
                $m.check("truncating out", got.as_ref() == Some(&want), || format!("{}: got {:?}, expected {:?}", w(), got.map(|g| g.hex()), want.hex()));
                // Into U<N>
                let d = $m.dict.clone();
                let v = match $r.below(3) {
                    0 => (Big::pow2(8 * $n).add(&Big::from_i128($r.irange(-2, 2) as i128)).modp2(bits)).to_u128().unwrap_or(0) as $t,
                    1 => a.modp2(bits).to_u128().unwrap_or(0) as $t,
                    _ => gen::word($r, &d, bits as u32) as $t,
                };
                let vb = Big::from_u128(v as u128);
                $m.seen(&($n, tn, "in", &vb));
                let w = || format!("{tn} {v:#x} to U<{}>", $n);
                let got = $m.run("checked in", w, || U::<$n>::from_checked(v).map(val));
                let want = (vb.bits() <= 8 * $n).then(|| vb.clone());
                $m.check("checked in", got.as_ref() == Some(&want), || format!("{}: got {:?}, expected {:?}", w(), got.flatten().map(|g| g.hex()), want.map(|g| g.hex())));
            }
            k += 1;
        )*
        let _ = k;
    }};
}

fn text<const N: usize>(m: &mut Mon, a: &Big) {
    let x = U::<N>::from_le_bytes(bytes_of(a));
    m.seen(&(N, "text", a));
    let want = a.to_radix(10);
    let got = m.run("text", || format!("U<{N}> 0x{}", a.hex()), || (x.to_string(), format!("{x:?}")));
    if let Some(g) = &got {
        m.event(7, || format!("radix 10 {} {}", g.0, a.hex()));
    }
    m.check("text", got.as_ref().map(|g| (&g.0, &g.1)) == Some((&want, &want)), || format!("U<{N}> 0x{}: printed {got:?}, expected {want}", a.hex()));
}

fn random<const N: usize>(m: &mut Mon, r: &mut Rng) {
    let a = value::<N>(m, r);
    bytes::<N>(m, &a);
    for _ in 0..3 {
        let which = r.below(6);
        prim!(m, r, N, a, which, u8, u16, u32, u64, u128, usize);
    }
    // Printing divides bit by bit: hours when interpreted
    if r.chance(1, 12) && (N <= 4 || !m.kind_slow()) && (N <= 33 || r.chance(1, 12)) {
        let t = match r.below(4) {
            0 => Big::from_u128(10).pow(r.below(N * 8 * 3 / 10 + 1) as u64).add(&Big::from_i128(r.irange(-1, 1) as i128)).modp2(8 * N),
            1 => a.modp2(r.range(1, 8 * N)),
            _ => a.clone(),
        };
        text::<N>(m, &t);
    }
    m.sample(|| format!("U<{N}> 0x{}", a.hex()));
}

/// Bytes of a `usize` on the platform the monitor runs on
const WORD: usize = core::mem::size_of::<usize>();

macro_rules! lossless {
    ($m:ident, $r:ident, $($n:tt $t:ty, $as:ident, $from:ident);*) => {$(
        let d = $m.dict.clone();
        let v = gen::word($r, &d, <$t>::BITS) as $t;
        $m.seen(&($n, "lossless", v as u128));
        let got = $m.run("lossless", || format!("{v} {}", stringify!($t)), || {
            let u = U::<$n>::$from(v);
            (u.$as(), u.to_le_bytes() == v.to_le_bytes(), U::<$n>::from_le_bytes(v.to_le_bytes()).$as())
        });
        $m.check("lossless", got == Some((v, true, v)), || format!("{} {v}: {got:?}", stringify!($t)));
    )*};
}

fn main() {
    run("C13", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for a in 0..65536usize {
            if m.mine(a / 64) && m.go_until(40) {
                let b = Big::from_u128(a as u128);
                if a < 256 {
                    bytes::<1>(m, &b);
                    text::<1>(m, &b);
                    for which in 0..6 {
                        prim!(m, r, 1, b, which, u8, u16, u32, u64, u128, usize);
                    }
                } else if a % 16 == 3 {
                    bytes::<2>(m, &b);
                    text::<2>(m, &b);
                }
            }
        }
        while m.go() {
            for w in 0..WIDTHS {
                for_width!(w, random, m, r);
            }
            if r.chance(1, 4) && !m.kind_slow() {
                let w = rare_width(r);
                for_rare_width!(w, random, m, r);
            }
            lossless!(m, r, 1 u8, as_u8, from_u8; 2 u16, as_u16, from_u16; 4 u32, as_u32, from_u32; 8 u64, as_u64, from_u64; 16 u128, as_u128, from_u128; { WORD } usize, as_usize, from_usize);
        }
    });
}
