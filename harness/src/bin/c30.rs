//! C30: byte and bit forms of float wrappers, and random sampling of fixed-width integers.
#[path = "../support/fixed_width.rs"]
#[macro_use]
mod fw;
use fw::*;
use monitors::{run, Big, Mon, Rng};
use numeric_ints::{I, U};
use numeric_reals::f::F;
use numeric_traits::identity::Zero;
use rand::distr::{Distribution, StandardUniform};
use rand::{Fill, RngCore};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

/// Every way in, every way out
fn floats<const N: usize>(m: &mut Mon, bytes: [u8; N]) {
    let mut rev = bytes;
    rev.reverse();
    let ne = if cfg!(target_endian = "little") { bytes } else { rev };
    m.seen(&(N, "float", &bytes[..]));
    for way in 0..4 {
        let mk = || match way {
            0 => F::<N>::from_le_bytes(bytes),
            1 => F::<N>::from_be_bytes(rev),
            2 => F::<N>::from_ne_bytes(ne),
            _ => F::<N>::from_bits(U::from_le_bytes(bytes)),
        };
        let got = m.run("float bytes", || format!("F<{N}> of {}", hex(&bytes)), || {
            (mk().to_le_bytes(), mk().to_be_bytes(), mk().to_ne_bytes(), mk().to_bits().to_le_bytes(), mk().to_bits().to_be_bytes())
        });
        let want = (bytes, rev, ne, bytes, rev);
        m.check("float bytes", got == Some(want), || {
            let g = got.map(|g| format!("le {}, be {}, ne {}, bits le {}, bits be {}", hex(&g.0), hex(&g.1), hex(&g.2), hex(&g.3), hex(&g.4)));
            format!("F<{N}> built from {} (way {way}: 0 le, 1 be, 2 ne, 3 bits): {g:?}", hex(&bytes))
        });
    }
    // The primitive formats agree byte for byte
    if N == 4 {
        let b4: [u8; 4] = bytes[..4].try_into().unwrap();
        let f = f32::from_le_bytes(b4);
        let got = m.run("float format", || hex(&bytes), || F::<4>::from_be_bytes(f.to_be_bytes()).to_le_bytes());
        m.check("float format", got == Some(f.to_bits().to_le_bytes()), || format!("f32 {f}: {got:?}"));
    } else if N == 8 {
        let b8: [u8; 8] = bytes[..8].try_into().unwrap();
        let f = f64::from_le_bytes(b8);
        let got = m.run("float format", || hex(&bytes), || F::<8>::from_be_bytes(f.to_be_bytes()).to_le_bytes());
        m.check("float format", got == Some(f.to_bits().to_le_bytes()), || format!("f64 {f}: {got:?}"));
    }
}

/// A generator with every bit of its output known
struct Source {
    f: Box<dyn FnMut() -> u64>,
}
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        (self.f)() as u32
    }
    fn next_u64(&mut self) -> u64 {
        (self.f)()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for c in dst.chunks_mut(8) {
            let w = (self.f)().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
}

fn u_bytes<const N: usize>(fill: bool, src: &mut Source) -> [u8; N] {
    if fill {
        let mut v = U::<N>::zero();
        Fill::fill(&mut v, src);
        v.to_le_bytes()
    } else {
        let v: U<N> = StandardUniform.sample(src);
        v.to_le_bytes()
    }
}

/// Bytes of a sampled I<N>
fn i_bytes<const N: usize>(fill: bool, src: &mut Source) -> [u8; N] {
    let v: I<N> = if fill {
        let mut v = I::<N>::zero();
        Fill::fill(&mut v, src);
        v
    } else {
        StandardUniform.sample(src)
    };
    // An I<N> is N bytes of plain data (asserted by the crate); their order does not matter to the rules below
    assert_eq!(size_of::<I<N>>(), N);
    unsafe { std::mem::transmute_copy(&v) }
}

fn sampling<const N: usize>(m: &mut Mon, r: &mut Rng) {
    m.seen(&(N, "sampling", r.clone().u64()));
    for fill in [false, true] {
        for signed in [false, true] {
            let name = format!("{}<{N}> by {}", if signed { "I" } else { "U" }, if fill { "fill" } else { "sample" });
            let draw = |src: &mut Source| if signed { i_bytes::<N>(fill, src) } else { u_bytes::<N>(fill, src) };
            // The extremes of the generator give the extremes of the bits
            for (byte, word) in [(0u8, 0u64), (0xff, u64::MAX)] {
                let got = m.run("sampling", || name.clone(), || draw(&mut Source { f: Box::new(move || word) }));
                m.check("constant generator", got == Some([byte; N]), || format!("{name}: generator of {byte:#x} bytes gives {:?}", got.map(|g| hex(&g))));
            }
            // Every bit takes both values, and bits are not copies of each other
            let n = if N <= 4 { 192 } else { 96 };
            let mut cols = vec![0u128; 8 * N];
            let mut cols2 = vec![0u128; 8 * N];
            for k in 0..n {
                let seed = r.u64();
                let Some(b) = m.run("sampling", || name.clone(), || {
                    let mut g = Rng::new(seed);
                    draw(&mut Source { f: Box::new(move || g.u64()) })
                }) else {
                    return;
                };
                for i in 0..8 * N {
                    if b[i / 8] >> (i % 8) & 1 == 1 {
                        if k < 128 {
                            cols[i] |= 1 << k;
                        } else {
                            cols2[i] |= 1 << (k - 128);
                        }
                    }
                }
            }
            let all = if n >= 128 { u128::MAX } else { (1 << n) - 1 };
            let stuck = (0..8 * N).find(|&i| (cols[i] == 0 && cols2[i] == 0) || (cols[i] == all && (n <= 128 || cols2[i] == (1 << (n - 128)) - 1)));
            m.check("every bit varies", stuck.is_none(), || format!("{name}: bit {stuck:?} is the same in {n} samples from different generators"));
            let mut tied = None;
            for i in 0..8 * N {
                for j in 0..i {
                    if (cols[i] == cols[j] && cols2[i] == cols2[j]) || (cols[i] == all & !cols[j] && n <= 128) {
                        tied = Some((j, i));
                    }
                }
            }
            m.check("bits are independent", tied.is_none(), || format!("{name}: bits {tied:?} always agree (or always differ) in {n} samples"));
            // Roughly as many ones as zeros: 96 to 192 fair coins stay within 8 standard deviations
            let worst = (0..8 * N).map(|i| (cols[i].count_ones() + cols2[i].count_ones()) as i64 * 2 - n as i64).max_by_key(|d| d.abs()).unwrap();
            m.check("bits are balanced", (worst as f64).abs() < 8.0 * (n as f64).sqrt(), || format!("{name}: a bit is off balance by {worst} in {n}"));
        }
    }
    // A long run of one generator: consecutive samples differ, each from fresh bytes
    let seed = r.u64();
    let got = m.run("sampling", || format!("U<{N}>"), || {
        let mut g = Rng::new(seed);
        let mut src = Source { f: Box::new(move || g.u64()) };
        (0..64).map(|_| u_bytes::<N>(false, &mut src)).collect::<Vec<_>>()
    });
    if let Some(v) = got {
        let distinct: std::collections::HashSet<_> = v.iter().map(|b| b.to_vec()).collect();
        // 64 bytes drawn from 256 values: fewer than 32 distinct ones has no realistic chance
        m.check("samples differ", distinct.len() >= if N == 1 { 32 } else { 60 }, || format!("U<{N}>: {} distinct among 64 consecutive samples", distinct.len()));
    }
}

/// All values of one byte occur, about equally often
fn uniform(m: &mut Mon, r: &mut Rng) {
    let mut hits = [[0u32; 256]; 2];
    let seed = r.u64();
    let mut g = Rng::new(seed);
    let mut src = Source { f: Box::new(move || g.u64()) };
    let n = 256 * 64;
    for _ in 0..n {
        hits[0][u_bytes::<1>(false, &mut src)[0] as usize] += 1;
        hits[1][i_bytes::<1>(false, &mut src)[0] as usize] += 1;
    }
    for (h, name) in hits.iter().zip(["U<1>", "I<1>"]) {
        // Expected 64 each, standard deviation 8
        let bad = h.iter().position(|&c| !(6..=150).contains(&c));
        m.check("all bytes occur", bad.is_none(), || format!("{name}: value {bad:?} occurs {} times in {n}", bad.map_or(0, |b| h[b])));
    }
    m.count("one-byte samples", 2 * n as u64);
}

fn main() {
    run("C30", |m| {
        let mut r = m.rng.clone();
        let r = &mut r;
        for b in 0..=255u8 {
            floats::<1>(m, [b]);
        }
        for b in 0..=u16::MAX {
            if m.mine(b as usize) {
                floats::<2>(m, b.to_le_bytes());
            }
        }
        uniform(m, r);
        fn each<const N: usize>(m: &mut Mon, r: &mut Rng) {
            // One byte set at a time shows where each goes
            for i in 0..N {
                let mut b = [0; N];
                b[i] = 1 + r.below(255) as u8;
                floats(m, b);
            }
            floats::<N>(m, std::array::from_fn(|i| i as u8 + 1));
        }
        for w in 0..WIDTHS {
            for_width!(w, each, m, r);
            for_width!(w, sampling, m, r);
        }
        fn random<const N: usize>(m: &mut Mon, r: &mut Rng) {
            let v: Big = value::<N>(m, r);
            floats::<N>(m, bytes_of(&v));
            if r.chance(1, 40) {
                sampling::<N>(m, r);
            }
            m.sample(|| format!("F<{N}> of 0x{}", v.hex()));
        }
        while m.go() {
            for w in 0..WIDTHS {
                for_width!(w, random, m, r);
            }
            if r.chance(1, 4) && !m.kind_slow() {
                let w = rare_width(r);
                for_rare_width!(w, random, m, r);
            }
        }
    });
}
