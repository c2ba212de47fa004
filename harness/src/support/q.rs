//! Exact rational numbers of unlimited size, as a component type for the generic containers.
#![allow(dead_code)]
use monitors::{Big, Mon, Rng};
use numeric_traits::class::{Numeric, Real, RealSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: Big,
    pub d: Big,
}

impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d == Big::one() {
            write!(f, "{}", self.n.to_radix(10))
        } else {
            write!(f, "{}/{}", self.n.to_radix(10), self.d.to_radix(10))
        }
    }
}

impl Default for Q {
    fn default() -> Q {
        Q::int(0)
    }
}

impl Q {
    pub fn new(n: Big, d: Big) -> Q {
        assert!(!d.is_zero(), "component division by zero");
        if let (Some(a), Some(b)) = (n.to_i128(), d.to_i128()) {
            if b == 1 {
                return Q { n, d };
            }
            if a != i128::MIN && b != i128::MIN {
                let (mut x, mut y) = (a.unsigned_abs(), b.unsigned_abs());
                while y != 0 {
                    (x, y) = (y, x % y);
                }
                let g = x as i128 * b.signum();
                return Q { n: Big::from_i128(a / g), d: Big::from_i128(b / g) };
            }
        }
        let g = n.gcd(&d);
        let (n, d) = (n.divrem(&g).0, d.divrem(&g).0);
        if d.neg {
            Q { n: n.neg(), d: d.neg() }
        } else {
            Q { n, d }
        }
    }

    pub fn int(v: i64) -> Q {
        Q { n: Big::from_i128(v.into()), d: Big::one() }
    }

    pub fn frac(n: i64, d: i64) -> Q {
        Q::new(Big::from_i128(n.into()), Big::from_i128(d.into()))
    }

    pub fn whole(&self) -> bool {
        self.d == Big::one()
    }

    fn trunc_(&self) -> Q {
        Q { n: self.n.divrem(&self.d).0, d: Big::one() }
    }
}

impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        self.n.mul(&o.d).cmp(&o.n.mul(&self.d))
    }
}

fn add(a: &Q, b: &Q) -> Q {
    if a.whole() && b.whole() {
        return Q { n: a.n.add(&b.n), d: Big::one() };
    }
    Q::new(a.n.mul(&b.d).add(&b.n.mul(&a.d)), a.d.mul(&b.d))
}
fn sub(a: &Q, b: &Q) -> Q {
    add(a, &Q { n: b.n.neg(), d: b.d.clone() })
}
fn mul(a: &Q, b: &Q) -> Q {
    if a.whole() && b.whole() {
        return Q { n: a.n.mul(&b.n), d: Big::one() };
    }
    Q::new(a.n.mul(&b.n), a.d.mul(&b.d))
}
fn div(a: &Q, b: &Q) -> Q {
    Q::new(a.n.mul(&b.d), a.d.mul(&b.n))
}
fn rem(a: &Q, b: &Q) -> Q {
    sub(a, &mul(b, &div(a, b).trunc_()))
}

macro_rules! ops {
    ($($t:ident $f:ident $ta:ident $fa:ident;)*) => {
        $(
            impl $t for Q { type Output = Q; fn $f(self, o: Q) -> Q { $f(&self, &o) } }
            impl<'a> $t<&'a Q> for Q { type Output = Q; fn $f(self, o: &'a Q) -> Q { $f(&self, o) } }
            impl<'a> $t<&'a Q> for &'a Q { type Output = Q; fn $f(self, o: &'a Q) -> Q { $f(self, o) } }
            impl $ta for Q { fn $fa(&mut self, o: Q) { *self = $f(self, &o); } }
            impl<'a> $ta<&'a Q> for Q { fn $fa(&mut self, o: &'a Q) { *self = $f(self, o); } }
        )*
    };
}
ops!(Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; Rem rem RemAssign rem_assign;);

impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: self.n.neg(), d: self.d }
    }
}

impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
}

impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
    fn is_one(&self) -> bool {
        self.whole() && self.n == Big::one()
    }
}

/// Integer square root, if exact
pub fn root(v: &Big) -> Option<Big> {
    if v.neg {
        return None;
    }
    let mut x = Big::pow2(v.bits() / 2 + 1);
    loop {
        if x.is_zero() {
            return Some(x);
        }
        let y = x.add(&v.divrem(&x).0).shr(1);
        if y >= x {
            break;
        }
        x = y;
    }
    (x.mul(&x) == *v).then_some(x)
}

impl Pow for Q {
    type Output = Q;
    fn pow(self, e: Q) -> Q {
        if e == Q::frac(1, 2) {
            return Q { n: root(&self.n).expect("component root is not exact"), d: root(&self.d).expect("component root is not exact") };
        }
        assert!(e.whole(), "component power with a fraction");
        let k = e.n.to_i128().unwrap();
        let mut out = Q::int(1);
        for _ in 0..k.unsigned_abs() {
            out *= &self;
        }
        if k < 0 {
            out = Q::int(1) / out;
        }
        out
    }
}

impl Numeric for Q {}

impl Real for Q {
    fn floor(self) -> Q {
        Q { n: self.n.div_floor(&self.d), d: Big::one() }
    }
    fn ceil(self) -> Q {
        -(-self).floor()
    }
    fn round(self) -> Q {
        (self + Q::frac(1, 2)).floor()
    }
    fn trunc(self) -> Q {
        self.trunc_()
    }
    fn fract(self) -> Q {
        let t = self.trunc_();
        self - t
    }
    fn log(self, _: Q) -> Q {
        panic!("component logarithm")
    }
}

impl Signed for Q {
    fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn is_positive(&self) -> bool {
        !self.n.neg
    }
    fn is_negative(&self) -> bool {
        self.n.neg
    }
}

impl RealSigned for Q {}

/// Small fractions with many coincidences, zeros and ones
pub fn q(r: &mut Rng) -> Q {
    match r.below(8) {
        0 => Q::int(0),
        1 => Q::int(r.irange(-1, 1)),
        2 | 3 => Q::int(r.irange(-9, 9)),
        4 => Q::int(r.irange(-1000, 1000)),
        5 => Q::frac(r.irange(-3, 3), r.irange(1, 3)),
        _ => Q::frac(r.irange(-30, 30), r.irange(1, 12)),
    }
}

/// Now and then large ones
pub fn wide(m: &Mon, r: &mut Rng) -> Q {
    if r.chance(1, 12) {
        let n = monitors::gen::big(r, &m.dict, 3);
        let d = Big::from_u128(u128::from(r.u64() >> r.below(60)) + 1);
        Q::new(if r.bool() { n.neg() } else { n }, d)
    } else {
        q(r)
    }
}
