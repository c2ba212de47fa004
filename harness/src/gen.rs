//! Input generators, biased towards boundaries and related operands.
use crate::big::Big;
use crate::rng::Rng;

/// Numbers that occur in the source of the code under test (and fixed boundary values)
#[derive(Clone, Default)]
pub struct Dict {
    pub nums: Vec<u128>,
    pub small: Vec<usize>,
}

impl Dict {
    pub fn load(path: Option<&str>) -> Dict {
        let mut nums: Vec<u128> = path
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| s.lines().filter_map(|l| l.trim().parse().ok()).collect())
            .unwrap_or_default();
        if nums.is_empty() {
            nums = vec![0, 1, 2, 3, 8, 10, 16, 32, 64, 128, 255, 256, 1000, 65535];
        }
        let small = nums.iter().filter(|&&n| n <= 4096).map(|&n| n as usize).collect();
        Dict { nums, small }
    }

    pub fn num(&self, r: &mut Rng) -> u128 {
        let n = *r.pick(&self.nums);
        match r.below(6) {
            0 => n.wrapping_add(1),
            1 => n.wrapping_sub(1),
            _ => n,
        }
    }

    pub fn small(&self, r: &mut Rng, max: usize) -> usize {
        if self.small.is_empty() {
            return r.range(0, max);
        }
        let n = *r.pick(&self.small);
        let n = match r.below(6) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            _ => n,
        };
        if n > max {
            r.range(0, max)
        } else {
            n
        }
    }
}

/// One interesting value of `bits` bits
pub fn word(r: &mut Rng, d: &Dict, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let v = match r.below(16) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - r.below(4) as u128,
        4 => 1u128 << r.below(bits as usize),
        5 => (1u128 << r.below(bits as usize)).wrapping_sub(1 + r.below(2) as u128),
        6 => (1u128 << r.below(bits as usize)).wrapping_add(r.below(3) as u128),
        7 => 1u128 << (bits - 1),
        8 => (1u128 << (bits - 2)).wrapping_sub(r.below(3) as u128),
        9 => r.below(20) as u128,
        10 => d.num(r),
        11 => max << r.below(bits as usize),
        12 => r.u128() & r.u128() & r.u128(),
        13 => r.u128() >> r.below(bits as usize),
        _ => r.u128(),
    };
    v & max
}

pub fn limb(r: &mut Rng, d: &Dict) -> u64 {
    word(r, d, 64) as u64
}

/// A slice length in `1..=max`, mostly small
pub fn len(r: &mut Rng, d: &Dict, max: usize) -> usize {
    // When long values are wanted: lengths around powers of two, and any other
    if max > 24 && r.bool() {
        return if r.bool() {
            ((1usize << r.range(3, max.ilog2() as usize)) + r.below(3) - 1).clamp(1, max)
        } else {
            r.range(1, max)
        };
    }
    let n = match r.below(10) {
        0..=2 => r.range(1, 2),
        3..=5 => r.range(1, 4),
        6 | 7 => r.range(1, 9),
        8 => d.small(r, max),
        _ => r.range(1, max),
    };
    n.clamp(1, max)
}

/// Words of a multi-word value
pub fn words(r: &mut Rng, d: &Dict, bits: u32, n: usize) -> Vec<u128> {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match r.below(10) {
        0 => (0..n).map(|_| r.u128() & max).collect(),
        1 => (0..n).map(|_| if r.bool() { max } else { 0 }).collect(),
        2 => {
            // Runs of ones and zeros at bit granularity
            let (total, mut v) = (n * bits as usize, vec![0u128; n]);
            let (a, b) = (r.below(total + 1), r.below(total + 1));
            for i in a.min(b)..a.max(b) {
                v[i / bits as usize] |= 1 << (i % bits as usize);
            }
            v
        }
        3 => {
            // Single word set
            let mut v = vec![0; n];
            let i = r.below(n);
            v[i] = word(r, d, bits);
            v
        }
        4 => {
            // Top and bottom set only
            let mut v = vec![0; n];
            v[0] = word(r, d, bits);
            v[n - 1] = word(r, d, bits);
            v
        }
        5 => {
            // A power of two, maybe one off
            let mut v = vec![0; n];
            let i = r.below(n * bits as usize);
            v[i / bits as usize] = 1 << (i % bits as usize);
            if r.bool() {
                // minus one
                for w in v.iter_mut() {
                    let (x, b) = if *w == 0 { (max, true) } else { (*w - 1, false) };
                    *w = x;
                    if !b {
                        break;
                    }
                }
                if v.iter().all(|&w| w == max) {
                    v[0] = 0;
                }
            }
            v
        }
        _ => (0..n).map(|_| word(r, d, bits)).collect(),
    }
}

pub fn limbs(r: &mut Rng, d: &Dict, max: usize) -> Vec<u64> {
    let n = len(r, d, max);
    words(r, d, 64, n).into_iter().map(|w| w as u64).collect()
}

pub fn big(r: &mut Rng, d: &Dict, max: usize) -> Big {
    Big::from_limbs(r.bool(), &limbs(r, d, max))
}

/// A value related to `a` (or independent of it)
pub fn related(r: &mut Rng, d: &Dict, a: &Big, max: usize) -> Big {
    match r.below(16) {
        0 => a.clone(),
        1 => a.neg(),
        2 => a.add(&Big::one()),
        3 => a.sub(&Big::one()),
        4 => a.neg().add(&Big::one()),
        5 => {
            // Same upper words, another low word
            let mut l = a.limbs();
            l[0] = limb(r, d);
            Big::from_limbs(a.neg, &l)
        }
        6 => {
            // Another top word
            let mut l = a.limbs();
            let n = l.len();
            l[n - 1] = limb(r, d);
            Big::from_limbs(r.bool(), &l)
        }
        7 => a.shl(r.below(130)),
        8 => a.shr(r.below(a.bits() + 2)),
        9 => {
            // Carries all the way: 2^k - a
            Big::pow2(64 * r.range(1, a.limbs().len() + 1)).sub(&a.abs())
        }
        10 => {
            let k = Big::from_u128(word(r, d, 64));
            let p = a.mul(&k);
            let p = match r.below(3) {
                0 => p.add(&Big::one()),
                1 => p.sub(&Big::one()),
                _ => p,
            };
            if p.limbs().len() > max + 1 {
                a.clone()
            } else {
                p
            }
        }
        11 => Big::from_limbs(r.bool(), &[limb(r, d)]),
        _ => big(r, d, max),
    }
}

/// A size limit: mostly `usual`, sometimes `large`, rarely `huge`
pub fn reach(r: &mut Rng, usual: usize, large: usize, huge: usize) -> usize {
    match r.below(400) {
        0 => huge,
        1..=10 => large,
        _ => usual,
    }
}

/// A length far beyond the usual ones: around a number the code names, around a power of two, or any
pub fn vast(r: &mut Rng, d: &Dict, max: usize) -> usize {
    match r.below(4) {
        0 => d.small(r, max),
        1 | 2 => ((1usize << r.range(7.min(max.ilog2() as usize), max.ilog2() as usize)) + r.below(5)).saturating_sub(2),
        _ => r.range(max / 8, max),
    }
    .clamp(1, max)
}

/// An index or amount far beyond any that fits memory, whose low bits look ordinary: `small` past a
/// place where a narrower type would cut it off, or just below the largest
pub fn far(r: &mut Rng, small: usize) -> usize {
    let k = r.below(small.max(1));
    match r.below(4) {
        0 => usize::MAX - k,
        1 => usize::MAX - r.below(3),
        2 => (1usize << (usize::BITS - 1)) + k,
        _ => (1usize << r.range(usize::BITS as usize / 2, usize::BITS as usize - 1)) + k,
    }
}
