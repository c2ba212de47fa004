//! Independent reference big integer: sign and 32-bit limbs, schoolbook algorithms.
//! `self_test` checks it against primitive arithmetic and algebraic identities; sampled events are
//! additionally audited by Python's own integers outside of this process.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big {
    pub neg: bool,
    pub mag: Vec<u32>,
}

fn norm(mag: &mut Vec<u32>) {
    while mag.last() == Some(&0) {
        mag.pop();
    }
}

fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len()
        .cmp(&b.len())
        .then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = u64::from(*a.get(i).unwrap_or(&0)) + u64::from(*b.get(i).unwrap_or(&0)) + c;
        out.push(s as u32);
        c = s >> 32;
    }
    if c != 0 {
        out.push(c as u32);
    }
    norm(&mut out);
    out
}

/// a >= b
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len());
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut d = i64::from(a[i]) - i64::from(*b.get(i).unwrap_or(&0)) - borrow;
        borrow = 0;
        if d < 0 {
            d += 1 << 32;
            borrow = 1;
        }
        out.push(d as u32);
    }
    assert_eq!(borrow, 0);
    norm(&mut out);
    out
}

fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![0u32; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = u64::from(x) * u64::from(y) + u64::from(out[i + j]) + c;
            out[i + j] = t as u32;
            c = t >> 32;
        }
        out[i + b.len()] = c as u32;
    }
    norm(&mut out);
    out
}

fn divrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0u32; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let cur = (r << 32) | u64::from(a[i]);
        q[i] = (cur / u64::from(d)) as u32;
        r = cur % u64::from(d);
    }
    norm(&mut q);
    (q, r as u32)
}

fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let (w, b) = (n / 32, n % 32);
    let mut out = vec![0u32; w];
    let mut c = 0u64;
    for &x in a {
        let t = (u64::from(x) << b) | c;
        out.push(t as u32);
        c = t >> 32;
    }
    if c != 0 {
        out.push(c as u32);
    }
    norm(&mut out);
    out
}

fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let (w, b) = (n / 32, n % 32);
    if w >= a.len() {
        return vec![];
    }
    let mut out = Vec::new();
    for i in w..a.len() {
        let lo = u64::from(a[i]) >> b;
        let hi = (u64::from(*a.get(i + 1).unwrap_or(&0)) << 32) >> b;
        out.push((lo | hi) as u32);
    }
    norm(&mut out);
    out
}

/// Knuth algorithm D
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = divrem_small(a, b[0]);
        return (q, if r == 0 { vec![] } else { vec![r] });
    }
    let s = b[b.len() - 1].leading_zeros() as usize;
    let v = shl_mag(b, s);
    let mut u = shl_mag(a, s);
    while u.len() < a.len() + 1 {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = (u64::from(u[j + n]) << 32) | u64::from(u[j + n - 1]);
        let mut qhat = num / u64::from(v[n - 1]);
        let mut rhat = num % u64::from(v[n - 1]);
        while qhat >= 1 << 32
            || qhat * u64::from(v[n - 2]) > ((rhat << 32) | u64::from(u[j + n - 2]))
        {
            qhat -= 1;
            rhat += u64::from(v[n - 1]);
            if rhat >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qhat * u64::from(v[i]) + carry;
            carry = p >> 32;
            let t = i64::from(u[i + j]) - borrow - (p & 0xFFFF_FFFF) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = i64::from(u[j + n]) - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qhat -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u64::from(u[i + j]) + u64::from(v[i]) + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u64::from(u[j + n]) + c) as u32;
        }
        q[j] = qhat as u32;
    }
    norm(&mut q);
    u.truncate(n);
    norm(&mut u);
    (q, shr_mag(&u, s))
}

impl Big {
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }

    pub fn one() -> Big {
        Big::from_u128(1)
    }

    pub fn new(neg: bool, mut mag: Vec<u32>) -> Big {
        norm(&mut mag);
        let neg = neg && !mag.is_empty();
        Big { neg, mag }
    }

    pub fn from_u128(v: u128) -> Big {
        Big::new(
            false,
            (0..4).map(|i| (v >> (32 * i)) as u32).collect(),
        )
    }

    pub fn from_i128(v: i128) -> Big {
        let mut b = Big::from_u128(v.unsigned_abs());
        b.neg = v < 0;
        b
    }

    pub fn from_limbs(neg: bool, limbs: &[u64]) -> Big {
        Big::new(
            neg,
            limbs
                .iter()
                .flat_map(|&l| [l as u32, (l >> 32) as u32])
                .collect(),
        )
    }

    pub fn from_le_bytes(neg: bool, bytes: &[u8]) -> Big {
        Big::new(
            neg,
            bytes
                .chunks(4)
                .map(|c| {
                    c.iter()
                        .enumerate()
                        .fold(0u32, |a, (i, &b)| a | (u32::from(b) << (8 * i)))
                })
                .collect(),
        )
    }

    /// Two's complement
    pub fn from_le_bytes_signed(bytes: &[u8]) -> Big {
        let b = Big::from_le_bytes(false, bytes);
        if bytes.last().is_some_and(|l| l & 0x80 != 0) {
            b.sub(&Big::pow2(bytes.len() * 8))
        } else {
            b
        }
    }

    /// Magnitude's limbs, at least one
    pub fn limbs(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self
            .mag
            .chunks(2)
            .map(|c| u64::from(c[0]) | (u64::from(*c.get(1).unwrap_or(&0)) << 32))
            .collect();
        if v.is_empty() {
            v.push(0);
        }
        v
    }

    /// Low `n` bytes of the two's complement representation
    pub fn low_bytes(&self, n: usize) -> Vec<u8> {
        let m = self.modp2(n * 8);
        (0..n)
            .map(|i| (m.mag.get(i / 4).copied().unwrap_or(0) >> (8 * (i % 4))) as u8)
            .collect()
    }

    pub fn pow2(n: usize) -> Big {
        Big::new(false, shl_mag(&[1], n))
    }

    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }

    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(l) => self.mag.len() * 32 - l.leading_zeros() as usize,
        }
    }

    pub fn bit(&self, i: usize) -> bool {
        self.mag.get(i / 32).is_some_and(|l| l >> (i % 32) & 1 == 1)
    }

    pub fn neg(&self) -> Big {
        Big::new(!self.neg, self.mag.clone())
    }

    pub fn abs(&self) -> Big {
        Big::new(false, self.mag.clone())
    }

    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            Big::new(self.neg, add_mag(&self.mag, &o.mag))
        } else if cmp_mag(&self.mag, &o.mag) == Ordering::Less {
            Big::new(o.neg, sub_mag(&o.mag, &self.mag))
        } else {
            Big::new(self.neg, sub_mag(&self.mag, &o.mag))
        }
    }

    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }

    pub fn mul(&self, o: &Big) -> Big {
        Big::new(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }

    /// Truncated division
    pub fn divrem(&self, o: &Big) -> (Big, Big) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (Big::new(self.neg != o.neg, q), Big::new(self.neg, r))
    }

    pub fn div_floor(&self, o: &Big) -> Big {
        let (q, r) = self.divrem(o);
        if !r.is_zero() && (r.neg != o.neg) {
            q.sub(&Big::one())
        } else {
            q
        }
    }

    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
        a
    }

    pub fn shl(&self, n: usize) -> Big {
        Big::new(self.neg, shl_mag(&self.mag, n))
    }

    /// Shift of the magnitude
    pub fn shr(&self, n: usize) -> Big {
        Big::new(self.neg, shr_mag(&self.mag, n))
    }

    /// Value modulo 2^n (always non-negative)
    pub fn modp2(&self, n: usize) -> Big {
        let p = Big::pow2(n);
        let r = self.divrem(&p).1;
        if r.neg {
            r.add(&p)
        } else {
            r
        }
    }

    /// Value modulo 2^n in the signed range
    pub fn wrap_signed(&self, n: usize) -> Big {
        let r = self.modp2(n);
        if r.bit(n - 1) {
            r.sub(&Big::pow2(n))
        } else {
            r
        }
    }

    pub fn pow(&self, mut e: u64) -> Big {
        let mut base = self.clone();
        let mut out = Big::one();
        while e > 0 {
            if e & 1 == 1 {
                out = out.mul(&base);
            }
            e >>= 1;
            if e > 0 {
                base = base.mul(&base);
            }
        }
        out
    }

    pub fn bitop(&self, o: &Big, f: impl Fn(u32, u32) -> u32) -> Big {
        let n = self.mag.len().max(o.mag.len());
        Big::new(
            false,
            (0..n)
                .map(|i| {
                    f(
                        self.mag.get(i).copied().unwrap_or(0),
                        o.mag.get(i).copied().unwrap_or(0),
                    )
                })
                .collect(),
        )
    }

    pub fn to_radix(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut digits = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let (q, r) = divrem_small(&m, radix);
            digits.push(std::char::from_digit(r, radix).unwrap());
            m = q;
        }
        if self.neg {
            digits.push('-');
        }
        digits.into_iter().rev().collect()
    }

    pub fn from_radix(s: &str, radix: u32) -> Option<Big> {
        let (neg, s) = match s.strip_prefix('-') {
            Some(s) => (true, s),
            None => (false, s),
        };
        let mut mag: Vec<u32> = vec![];
        for c in s.chars() {
            let d = c.to_digit(radix)?;
            let mut carry = u64::from(d);
            for l in mag.iter_mut() {
                let t = u64::from(*l) * u64::from(radix) + carry;
                *l = t as u32;
                carry = t >> 32;
            }
            if carry != 0 {
                mag.push(carry as u32);
            }
        }
        Some(Big::new(neg, mag))
    }

    pub fn hex(&self) -> String {
        self.to_radix(16)
    }

    pub fn to_i128(&self) -> Option<i128> {
        if self.bits() > 127 {
            if self.neg && *self == Big::from_i128(i128::MIN) {
                return Some(i128::MIN);
            }
            return None;
        }
        let m = self.abs_u128()? as i128;
        Some(if self.neg { -m } else { m })
    }

    pub fn abs_u128(&self) -> Option<u128> {
        if self.mag.len() > 4 {
            return None;
        }
        Some(
            self.mag
                .iter()
                .rev()
                .fold(0u128, |a, &l| (a << 32) | u128::from(l)),
        )
    }

    pub fn to_u128(&self) -> Option<u128> {
        if self.neg {
            None
        } else {
            self.abs_u128()
        }
    }

    /// Nearest double, ties to even, infinite when out of range
    pub fn to_f64(&self) -> f64 {
        let n = self.bits();
        let m = if n <= 64 {
            self.abs_u128().unwrap() as u64 as f64
        } else if n > 1024 {
            f64::INFINITY
        } else {
            let sh = n - 64;
            let top = shr_mag(&self.mag, sh);
            let mut t = Big::new(false, top).abs_u128().unwrap() as u64;
            // Sticky bit
            if shl_mag(&shr_mag(&self.mag, sh), sh) != self.mag {
                t |= 1;
            }
            // Halve first so that 2^1024 is only reached by values that really round to it
            (t as f64 / 18_446_744_073_709_551_616.0) * 2f64.powi((n - 1) as i32) * 2.0
        };
        if self.neg {
            -m
        } else {
            m
        }
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}

/// Check the reference arithmetic itself. Panics (machinery fault) if it is wrong.
pub fn self_test(seed: u64) {
    let mut r = crate::rng::Rng::new(seed ^ 0x5E1F);
    let edge = [0u128, 1, 2, 3, u128::MAX, u128::MAX - 1, 1 << 64, (1 << 64) - 1, 1 << 32, (1 << 32) - 1, 1 << 63];
    for i in 0..400 {
        let mut v = || {
            if r.chance(1, 4) {
                edge[r.below(edge.len())]
            } else {
                r.u128() >> r.below(128)
            }
        };
        let (a, b) = (v(), v());
        let (x, y) = (Big::from_u128(a), Big::from_u128(b));
        assert_eq!(x.to_u128(), Some(a));
        assert_eq!(x.cmp(&y), a.cmp(&b));
        if let Some(s) = a.checked_add(b) {
            assert_eq!(x.add(&y), Big::from_u128(s));
        }
        if let Some(s) = a.checked_mul(b) {
            assert_eq!(x.mul(&y), Big::from_u128(s));
        }
        if a <= i128::MAX as u128 && b <= i128::MAX as u128 {
            assert_eq!(x.sub(&y), Big::from_i128(a as i128 - b as i128));
        }
        if b != 0 {
            assert_eq!(x.divrem(&y), (Big::from_u128(a / b), Big::from_u128(a % b)));
        }
        assert_eq!(x.to_radix(10), a.to_string());
        assert_eq!(x.to_f64(), a as f64);
        assert_eq!(Big::from_radix(&x.to_radix(7), 7), Some(x.clone()));
        // Larger values: identities
        let big = |r: &mut crate::rng::Rng| {
            let n = r.range(1, 12);
            Big::new(r.bool(), (0..n).map(|_| if r.chance(1, 3) { *r.pick(&[0, 1, u32::MAX, 1 << 31]) } else { r.u64() as u32 }).collect())
        };
        let (p, q, s) = (big(&mut r), big(&mut r), big(&mut r));
        assert_eq!(p.add(&q).sub(&q), p);
        assert_eq!(p.mul(&q.add(&s)), p.mul(&q).add(&p.mul(&s)));
        if !q.is_zero() {
            let (d, m) = p.divrem(&q);
            assert_eq!(d.mul(&q).add(&m), p);
            assert!(m.abs() < q.abs() && (m.is_zero() || m.neg == p.neg));
        }
        let k = i % 97;
        assert_eq!(p.shl(k), p.mul(&Big::from_u128(2).pow(k as u64)));
        assert_eq!(p.abs().shr(k), p.abs().divrem(&Big::pow2(k)).0);
    }
}
