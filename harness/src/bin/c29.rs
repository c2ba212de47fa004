//! C29: mixed workload of the whole safe API, hostile arguments included, watched by Miri, AddressSanitizer,
//! LeakSanitizer and an allocation balance. Results are not judged here (other monitors do), only read in full.
#[path = "../support/alloc.rs"]
mod alloc;
use monitors::{run, Rng};
use numeric_bits::algos::*;
use numeric_bits::bit_slice::{BitSliceExt, BitVecExt};
use numeric_bits::utils::{arr_to_int, int_to_arr, IntSlice};
use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
use numeric_compounds::vector::Vector;
use numeric_ints::{BigInt, I, U};
use numeric_reals::rat::Rat;
use numeric_static_iter::{IntoStaticIter, StaticIter};
use numeric_traits::cast::FromStrRadix;
use numeric_traits::class::{Bounded, Signed};
use numeric_traits::identity::Zero;
use numeric_traits::ops::Pow;
use numeric_utils::intern::{InternId, Interner};
use std::fmt::{Debug, Write};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x100_0000_01B3);
            if self.0 == 1 {
                // Decides on every byte, so that a read of uninitialised memory is noticed
                return Err(std::fmt::Error);
            }
        }
        Ok(())
    }
}

static NTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Read every byte of a result
fn read(v: &impl Debug) -> u64 {
    if cfg!(miri) && NTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 6 != 0 {
        // Formatting is slow to interpret, and the interpreter checks values when they are moved
        std::hint::black_box(v);
        return 0;
    }
    let mut s = Sink(0xcbf2_9ce4_8422_2325);
    let _ = write!(s, "{v:?}");
    s.0
}

// ---- big integers -------------------------------------------------------------------------------

fn bigint(r: &mut Rng, pool: &mut Vec<BigInt>, hostile: bool) {
    let pick = |r: &mut Rng, p: &Vec<BigInt>| p[r.below(p.len())].clone();
    let a = pick(r, pool);
    let b = pick(r, pool);
    let slow = cfg!(miri);
    let out = match r.below(24) {
        0 => a + b,
        1 => &a + &b,
        2 => a - &b,
        3 => &a - b,
        4 => a * b,
        5 => &a * &b,
        6 => {
            if b == 0 && !hostile {
                b
            } else {
                a / b
            }
        }
        7 => {
            if b == 0 && !hostile {
                b
            } else {
                &a % &b
            }
        }
        8 => a << r.below(if slow { 130 } else { 400 }) as u32,
        9 => a.abs() >> r.below(400) as u64,
        10 => -a,
        11 => {
            let mut x = a;
            x += r.u64();
            x -= r.u64() as i8;
            x *= r.u64() as u16;
            x
        }
        12 => {
            let mut x = a;
            x += &b;
            x -= b;
            x
        }
        13 => BigInt::from(r.u64() as i128 * 7 - 3),
        14 => {
            let s = format!("{a:x}");
            let t = s.trim_start_matches('-').trim_start_matches("0x");
            BigInt::from_str_radix(t, 16).unwrap_or(b)
        }
        15 => {
            let junk = ["", "-", "12z", "é", "0x", "--1", "1 "][r.below(7)];
            read(&BigInt::from_str_radix(junk, [1, 2, 10, 36, 37][r.below(5)]).is_ok());
            a
        }
        16 => a.abs() & b.abs(),
        17 => a.abs() | b.abs(),
        18 => a.abs() ^ b.abs(),
        19 => {
            read(&(a.cmp(&b), a == b, a.is_inline(), i64::try_from(&a).ok(), u128::try_from(&b).ok()));
            let v = i128::try_from(a);
            BigInt::from(v.unwrap_or(5))
        }
        20 => {
            let mut v = vec![a, b, pick(r, pool)];
            v.sort();
            v.remove(r.below(3))
        }
        21 => {
            if !slow || a.clone().abs() + b.clone().abs() < 2000 {
                read(&(format!("{a}"), format!("{b:b}")));
            }
            a
        }
        22 => {
            // Huge, shared by clones in different places
            let c = a.clone();
            let d = Box::new([a.clone(), c.clone(), a]);
            drop(c);
            let [_, y, _] = *d;
            y
        }
        _ => {
            if a.clone().abs() < 50 {
                a.pow(BigInt::from(r.below(6) as u64))
            } else {
                BigInt::from(0)
            }
        }
    };
    let keep = out.clone().abs() < (BigInt::from(1) << if slow { 260u32 } else { 700 });
    let i = r.below(pool.len());
    pool[i] = if keep { out } else { BigInt::from(r.u64()) };
}

/// Hands out chosen bytes
struct Script(Vec<u8>, usize);
impl rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for d in dst {
            *d = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
}

// ---- fixed width --------------------------------------------------------------------------------

fn fixed_width<const N: usize>(r: &mut Rng, hostile: bool) {
    let mut b = || std::array::from_fn::<u8, N, _>(|_| if r.chance(1, 3) { [0, 255, 1, 128][r.below(4)] } else { r.u64() as u8 });
    let (x, y) = (U::<N>::from_le_bytes(b()), U::<N>::from_be_bytes(b()));
    let mut int = || {
        let mut v = I::<N>::zero();
        rand::Fill::fill(&mut v, &mut Script(b().to_vec(), 0));
        v
    };
    let (p, q) = (int(), int());
    let small = U::<N>::from_le_bytes(std::array::from_fn(|i| if i == 0 { r.below(8 * N).min(200) as u8 } else { 0 }));
    // Division is bit by bit
    let long = N > 3 && cfg!(miri);
    let raw = |v: U<N>| v.to_le_bytes();
    let op = r.below(if hostile { 22 } else { 10 });
    match op {
        0 => drop(read(&[x & y, x | y, x ^ y, !x].map(raw))),
        1 => drop(read(&(x.cmp(&y), x == y))),
        2 => drop(read(&(x.to_le_bytes(), x.to_be_bytes(), p, q))),
        3 => drop(read(&(p.cmp(&q), p == q, raw(U::<N>::max_value()), raw(U::<N>::min_value())))),
        4 => drop(read(&(raw(x << small), raw(y >> small)))),
        5 => {
            use numeric_traits::ops::checked::*;
            read(&[CheckedAdd::checked_add(x, y), CheckedSub::checked_sub(x, y), CheckedMul::checked_mul(x, y)].map(|v| v.map(raw)));
        }
        6 => {
            use numeric_traits::ops::wrapping::*;
            read(&[WrappingAdd::wrapping_add(x, y), WrappingSub::wrapping_sub(x, y)].map(raw));
        }
        7 => {
            use numeric_traits::ops::saturating::*;
            read(&[SaturatingAdd::saturating_add(x, y), SaturatingSub::saturating_sub(x, y), SaturatingMul::saturating_mul(x, y)].map(raw));
        }
        8 => {
            if N <= 2 || !cfg!(miri) {
                read(&format!("{x}"));
            }
        }
        9 => {
            use numeric_traits::ops::checked::*;
            if !long {
                read(&CheckedDiv::checked_div(x, y).map(raw));
            }
        }
        // Those may panic
        10 => drop(read(&raw(x + y))),
        11 => drop(read(&raw(x - y))),
        12 => drop(read(&raw(x * y))),
        13 if !long => drop(read(&raw(x / (y >> small)))),
        14 if !long => drop(read(&raw(x % (y >> small)))),
        15 => drop(read(&(p + q))),
        16 => drop(read(&(p - q))),
        17 => drop(read(&(p * q))),
        18 if !long => drop(read(&(p / q))),
        19 if !long => drop(read(&(p % q))),
        20 => drop(read(&(-p))),
        _ => drop(read(&(raw(x << y), raw(x >> y)))),
    }
}

// ---- digit slices -------------------------------------------------------------------------------

macro_rules! slices {
    ($name:ident, $t:ident) => {
        fn $name(r: &mut Rng, hostile: bool) {
            let len = |r: &mut Rng| if hostile && r.chance(1, 8) { 0 } else { r.range(1, 4) };
            let mk = |r: &mut Rng, n: usize| -> Vec<$t> {
                (0..n).map(|_| if r.chance(1, 3) { [0, 1, $t::MAX, 1 << ($t::BITS - 1)][r.below(4)] } else { r.u64() as $t }).collect()
            };
            let (n, k) = (len(r), len(r));
            let (mut a, b) = (mk(r, n), mk(r, k));
            let w = $t::BITS as usize;
            let sh = match r.below(6) {
                0 => 0,
                1 => w * r.below(n + 3),
                2 if hostile => usize::MAX - r.below(2 * w),
                3 => n * w,
                _ => r.below((n + 1) * w),
            };
            let wide = matches!(sh, 0..=4096);
            let mut s = mk(r, n);
            match r.below(26) {
                0 => drop(read(&(ElementAdd::add(&a[..], &b), BitwiseAdd::add(&a[..], &b)))),
                1 => drop(read(&ElementAdd::add_overflowing(&mut a[..], &b))),
                2 => drop(read(&ElementAdd::add_wrapping(&mut a[..], &b))),
                3 => drop(read(&ElementAdd::add_checked(&mut a[..], &b))),
                4 => drop(read(&ElementSub::sub_overflowing(&mut a[..], &b))),
                5 => drop(read(&ElementSub::sub_checked(&mut a[..], &b))),
                6 => drop(read(&ElementSub::sub_wrapping(&mut a[..], &b))),
                7 => drop(read(&(ElementMul::mul(&a[..], &b), BitwiseMul::mul(&a[..], &b)))),
                8 => drop(read(&ElementMul::mul_overflowing(&mut a[..], &b))),
                9 => drop(read(&ElementMul::mul_checked(&mut a[..], &b))),
                10 if hostile || b.iter().any(|d| *d != 0) => drop(read(&BitwiseDiv::div_long(&a[..], &b))),
                11 => drop(read(&BitwiseDiv::div_long_checked(&mut a[..], &b, &mut s))),
                12 => drop(read(&BitwiseDiv::rem_long_checked(&mut a[..], &b, &mut s))),
                13 if wide => drop(read(&ElementShl::shl(&a[..], sh))),
                14 => drop(read(&ElementShr::shr(&a[..], sh))),
                15 if wide => drop(read(&BitwiseShl::shl(&a[..], sh))),
                16 => drop(read(&BitwiseShr::shr(&a[..], sh))),
                17 => drop(read(&ElementShl::shl_checked(&mut a[..], sh))),
                18 => drop(read(&ElementShr::shr_checked(&mut a[..], sh))),
                19 if hostile || n > 0 => drop(read(&ElementShl::shl_wrapping(&mut a[..], sh))),
                20 if hostile || n > 0 => drop(read(&ElementShr::shr_wrapping(&mut a[..], sh))),
                21 => drop(read(&(ElementBitand::bitand(&a[..], &b), ElementBitor::bitor(&a[..], &b), ElementBitxor::bitxor(&a[..], &b)))),
                22 => drop(read(&(ElementCmp::cmp(&a[..], &b), IntSlice::shrink(&a[..])))),
                23 => {
                    ElementNot::not(&mut a[..]);
                    read(&a);
                }
                24 => {
                    let i = r.below((n + 2) * w);
                    BitVecExt::set_push(&mut a, i / w, 5);
                    BitVecExt::set_bit_push(&mut a, i, true);
                    a.set_ignore(i, 3);
                    a.set_bit_ignore(i * 3, true);
                    read(&(a.get_opt(i), a.get_bit_opt(i), a.set_opt(i, 1), a.set_bit_opt(i, false)));
                    if hostile {
                        read(&(a.get_bit(i * 2), BitSliceExt::get(&a[..], i)));
                    }
                }
                _ => {
                    let mut it = a.iter_bits();
                    let k = r.below(n * w + 2);
                    read(&(it.nth(k), it.len(), it.next()));
                    let rest: Vec<bool> = it.collect();
                    read(&rest);
                    let arr: [$t; 4] = int_to_arr(r.u64() as u32);
                    read(&arr);
                    read(&arr_to_int::<$t, u64>(&arr));
                }
            }
        }
    };
}
slices!(slices8, u8);
slices!(slices16, u16);
slices!(slices64, u64);
slices!(slices128, u128);

// ---- interner -----------------------------------------------------------------------------------

/// Owned strings, references held while their id is counted
fn interner(r: &mut Rng, steps: usize, hostile: bool) {
    let store: Interner<String> = match r.below(3) {
        0 => Interner::new(),
        1 => Interner::with_capacity(r.below(4)),
        _ => Interner::with_capacity(40),
    };
    let id_of = InternId::from_usize;
    let mut held: Vec<(usize, String, &String)> = vec![];
    for _ in 0..steps {
        match r.below(6) {
            0..=2 => {
                let s = format!("value {}", r.below(9));
                let id = if r.bool() { store.add::<_, str>(&s[..]) } else { store.add::<_, str>(s.clone()) };
                let id = id.into_usize();
                held.push((id, s, store.get(id_of(id))));
            }
            3 if !held.is_empty() => {
                let (id, s, p) = held.swap_remove(r.below(held.len()));
                read(&(p == &s, store.refcount(id_of(id))));
                store.decr(id_of(id));
            }
            4 if !held.is_empty() => {
                let i = r.below(held.len());
                let id = held[i].0;
                store.incr(id_of(id));
                let p = store.try_get(id_of(id));
                if let Some(p) = p {
                    let s = held[i].1.clone();
                    held.push((id, s, p));
                }
            }
            _ => {
                for (_, s, p) in &held {
                    read(&(*p == s, *p));
                }
            }
        }
    }
    if hostile {
        // A conversion that fails
        struct Bad(String);
        impl std::borrow::Borrow<str> for Bad {
            fn borrow(&self) -> &str {
                &self.0
            }
        }
        impl From<Bad> for String {
            fn from(_: Bad) -> String {
                std::panic::resume_unwind(Box::new("refused"))
            }
        }
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| store.add::<_, str>(Bad("unknown".into()))));
        for (id, s, p) in &held {
            read(&(*p == s, store.get(id_of(*id))));
        }
    }
}

// ---- compounds ----------------------------------------------------------------------------------

fn compounds(r: &mut Rng, hostile: bool) {
    let name = |i: usize| format!("entry {i}");
    let stop = if hostile { r.below(5) } else { 9 };
    let fail = |i: usize| {
        if i == stop {
            std::panic::resume_unwind(Box::new("stopped"))
        }
    };
    match r.below(12) {
        0 => {
            let v: Vector<i64, 4> = Vector::new([r.u64() as i32 as i64; 4]);
            let w: Vector<i64, 4> = Vector::new([3, -4, 5, r.below(3) as i64]);
            read(&(v + w, v - w, v * 3));
            let f = Vector::new([1.5f64, 2.0, -3.0]);
            read(&(Vector::dot_product(f, f), f.cross(f), f.into_row().transpose()));
            drop(Vector::wedge(f, f));
            if hostile {
                read(&(v / w));
            }
        }
        1 => {
            let m = Matrix::<String, 3, 2>::new([0, 2, 4].map(|i| [name(i), name(i + 1)]));
            read(&m.clone());
            let t = m.transpose();
            read(&t[(1, 2)]);
            let v = MatrixRef::from(&t);
            let c = v;
            let i = (r.below(2), r.below(3));
            read(&(&v[i], &c[i], &t[i]));
            if hostile {
                read(&v[(r.below(4), r.below(5))]);
            }
        }
        2 => {
            let mut m = DynMatrix::new((0..6).map(name).collect::<Vec<_>>(), 2, 3);
            m.swap_rows(0, 1);
            {
                let mut v = MatrixMut::from(&mut m);
                v[(1, 2)] = name(77);
                let e = &mut v[(0, 0)];
                e.push('!');
                if hostile {
                    v[(r.below(4), r.below(5))] = name(78);
                }
            }
            read(&(&m[(1, 2)], &m[(0, 0)]));
        }
        3 => {
            if hostile {
                let m = DynMatrix::new((0..r.below(8)).map(name).collect::<Vec<_>>(), r.below(4), r.below(4));
                read(&m[(r.below(4), r.below(4))]);
            }
        }
        4 => {
            let a: [String; 4] = std::array::from_fn(name);
            let b: [String; 4] = a.into_static_iter().enumerate().map(|(i, s)| {
                fail(i);
                s + "!"
            }).collect();
            read(&b);
        }
        5 => {
            let a: [String; 4] = std::array::from_fn(name);
            let b: [Box<usize>; 4] = std::array::from_fn(Box::new);
            let c: [(String, Box<usize>); 4] = a.into_static_iter().zip(b).map(|(s, i)| {
                fail(*i);
                (s, i)
            }).collect();
            read(&c);
        }
        6 => {
            let a: [String; 4] = std::array::from_fn(name);
            let end = r.below(6);
            let mut i = 0;
            let b: Option<[String; 4]> = a.into_static_iter().map(|s| {
                fail(i);
                i += 1;
                (i != end).then(|| s + "?")
            }).collect();
            read(&b);
        }
        7 => {
            let a: [Box<String>; 3] = std::array::from_fn(|i| Box::new(name(i)));
            let end = r.below(5);
            let mut i = 0;
            let b: Result<[Box<String>; 3], String> = a.into_static_iter().map(|s| {
                fail(i);
                i += 1;
                if i == end {
                    Err(*s)
                } else {
                    Ok(s)
                }
            }).collect();
            read(&b);
        }
        8 => {
            let a: [String; 4] = std::array::from_fn(name);
            let end = r.below(6);
            let mut n = 0;
            let hit = a.into_static_iter().any(|s| {
                fail(n);
                n += 1;
                n > end && !s.is_empty()
            });
            read(&hit);
        }
        9 => {
            let a = std::array::from_fn::<String, 4, _>(name);
            let it = a.into_static_iter();
            if hostile {
                drop(it);
            } else {
                read(&it.fold(String::new(), |x, y| x + &y));
            }
        }
        10 => {
            let z = Complex::new(r.u64() as i16 as i64, 3);
            let w = Complex::new(2, r.below(3) as i64 - 1);
            for c in [z.clone() + w.clone(), z * w] {
                read(&(c.real(), c.imag()));
            }
            let a = Rat::new(r.u64() as i8 as i64, 6);
            let b = Rat::new(1, if hostile { r.below(3) as i64 } else { 5 });
            if let (Some(a), Some(b)) = (a, b) {
                read(&(a.clone() + b.clone(), a * b));
            }
        }
        _ => {
            let mut m = Matrix::<f64, 3, 4>::new(std::array::from_fn(|_| std::array::from_fn(|_| r.below(5) as f64)));
            m = m.row_reduce();
            read(&m);
            let s = Matrix::<f64, 3, 3>::new(std::array::from_fn(|_| std::array::from_fn(|_| r.below(5) as f64)));
            read(&(s.determinant(), s.clone() * s));
            let mut v = MatrixMut::from(&mut m);
            v[(0, 0)] += 1.0;
        }
    }
}

fn main() {
    run("C29", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        let tiny = m.mode == "tiny";
        let mut pool: Vec<BigInt> = [0u128, 1, 5, 1 << 61, 1 << 62, (1 << 64) - 1, 1 << 64, u128::MAX].iter().map(|v| BigInt::from(*v)).collect();
        let mut round = 0usize;
        while m.go() {
            round += 1;
            // Refused calls unwind, which takes very long in the interpreter
            let hostile = if tiny { round % 40 == 0 } else { r.chance(1, 2) };
            let family = if tiny { (round + m.shard * 3) % 9 } else { r.below(9) };
            let key = r.u64();
            m.seen(&(family, hostile, key));
            let mut rr = Rng::new(key);
            let before = alloc::in_use();
            let steps = if tiny { 2 } else { 6 };
            let res = m.attempt("call", || {
                for _ in 0..steps {
                    let rr = &mut rr;
                    match family {
                        0 | 1 => bigint(rr, &mut pool, hostile),
                        2 => match rr.below(6) {
                            0 => fixed_width::<1>(rr, hostile),
                            1 => fixed_width::<2>(rr, hostile),
                            2 => fixed_width::<3>(rr, hostile),
                            3 => fixed_width::<8>(rr, hostile),
                            4 => fixed_width::<13>(rr, hostile),
                            _ => fixed_width::<16>(rr, hostile),
                        },
                        3 => slices8(rr, hostile),
                        4 => slices16(rr, hostile),
                        5 => slices64(rr, hostile),
                        6 => slices128(rr, hostile),
                        7 => interner(rr, if tiny { 10 } else { 60 }, hostile),
                        _ => compounds(rr, hostile),
                    }
                }
            });
            let name = ["big integers", "big integers", "fixed width", "digit slices u8", "digit slices u16", "digit slices u64", "digit slices u128", "interner", "compounds and iterators"][family];
            m.count(name, 1);
            m.count(if res.is_ok() { "calls returned" } else { "calls refused" }, 1);
            m.check("completed under observation", true, String::new);
            drop(res);
            // Big integers keep their shared table; everything else gives back what it took
            if family >= 2 && !m.kind_slow() {
                let after = alloc::in_use();
                if after != before {
                    // The monitor's own records may have grown: a leak repeats
                    let mut grew = 0;
                    for _ in 0..4 {
                        let mut rr = Rng::new(key);
                        let b = alloc::in_use();
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            for _ in 0..steps {
                                let rr = &mut rr;
                                match family {
                                    2 => (),
                                    3 => slices8(rr, hostile),
                                    4 => slices16(rr, hostile),
                                    5 => slices64(rr, hostile),
                                    6 => slices128(rr, hostile),
                                    7 => interner(rr, 60, hostile),
                                    _ => compounds(rr, hostile),
                                }
                            }
                        }));
                        drop(res);
                        grew += usize::from(alloc::in_use().1 > b.1);
                    }
                    m.check("memory is given back", grew < 4, || format!("{name} (case {key:#x}, hostile {hostile}): blocks remain allocated after each run"));
                } else {
                    m.check("memory is given back", true, String::new);
                }
            }
            if round % 64 == 0 {
                m.sample(|| format!("{name}, case {key:#x}, hostile {hostile}"));
            }
        }
        m.count("big integers alive at the end", pool.len() as u64);
    });
}
