//! Matrices as tables of exact rationals.
#![allow(dead_code)]
use super::q::{self, Q};
use monitors::{Mon, Rng};
use numeric_traits::class::Signed;
use numeric_traits::identity::{One, Zero};

pub type Tab = Vec<Vec<Q>>;

pub fn table(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> Q) -> Tab {
    (0..r).map(|i| (0..c).map(|j| f(i, j)).collect()).collect()
}

/// Reduced row echelon form: one per row space
pub fn rref(t: &Tab) -> Tab {
    let mut t = t.clone();
    let (rows, cols) = (t.len(), t.first().map_or(0, Vec::len));
    let mut top = 0;
    for c in 0..cols {
        let Some(p) = (top..rows).find(|&r| !t[r][c].is_zero()) else { continue };
        t.swap(top, p);
        let lead = t[top][c].clone();
        for j in 0..cols {
            t[top][j] = &t[top][j] / &lead;
        }
        for r in 0..rows {
            if r != top && !t[r][c].is_zero() {
                let k = t[r][c].clone();
                for j in 0..cols {
                    t[r][j] = &t[r][j] - &(&t[top][j] * &k);
                }
            }
        }
        top += 1;
    }
    t
}

pub fn rank(t: &Tab) -> usize {
    rref(t).iter().filter(|r| r.iter().any(|x| !x.is_zero())).count()
}

/// Leading entries move strictly to the right, zero rows come last
pub fn echelon(t: &Tab) -> bool {
    let mut last: Option<usize> = None;
    let mut done = false;
    for row in t {
        match row.iter().position(|x| !x.is_zero()) {
            None => done = true,
            Some(p) => {
                if done || last.is_some_and(|l| p <= l) {
                    return false;
                }
                last = Some(p);
            }
        }
    }
    true
}

/// Sum over all permutations
pub fn leibniz(t: &Tab) -> Q {
    fn go(t: &Tab, row: usize, used: &mut Vec<bool>) -> Q {
        let n = t.len();
        if row == n {
            return Q::one();
        }
        let mut out = Q::zero();
        let mut sign = false;
        for c in 0..n {
            if used[c] {
                continue;
            }
            if !t[row][c].is_zero() {
                used[c] = true;
                let sub = go(t, row + 1, used);
                used[c] = false;
                let term = &t[row][c] * &sub;
                out = if sign { out - term } else { out + term };
            }
            sign = !sign;
        }
        out
    }
    go(t, 0, &mut vec![false; t.len()])
}

/// The determinant of a larger matrix: largest pivot first, by columns from the right (so unlike the code
/// under test in order and choice of pivots)
#[allow(dead_code)]
pub fn product_of_pivots(t: &Tab) -> Q {
    let n = t.len();
    let mut t = t.clone();
    let mut out = Q::one();
    for c in (0..n).rev() {
        let Some(p) = (0..=c).filter(|&r| !t[r][c].is_zero()).max_by_key(|&r| t[r][c].n.abs()) else { return Q::zero() };
        if p != c {
            t.swap(p, c);
            out = -out;
        }
        out = &out * &t[c][c];
        for r in 0..c {
            if t[r][c].is_zero() {
                continue;
            }
            let k = &t[r][c] / &t[c][c];
            for j in 0..=c {
                t[r][j] = &t[r][j] - &(&t[c][j] * &k);
            }
        }
    }
    out
}

pub fn mul(a: &Tab, b: &Tab) -> Tab {
    let inner = b.len();
    let cols = b.first().map_or(0, Vec::len);
    table(a.len(), cols, |i, j| (0..inner).fold(Q::zero(), |s, k| s + &a[i][k] * &b[k][j]))
}

pub fn add(a: &Tab, b: &Tab) -> Tab {
    table(a.len(), a.first().map_or(0, Vec::len), |i, j| &a[i][j] + &b[i][j])
}

pub fn sub(a: &Tab, b: &Tab) -> Tab {
    table(a.len(), a.first().map_or(0, Vec::len), |i, j| &a[i][j] - &b[i][j])
}

pub fn transpose(a: &Tab) -> Tab {
    table(a.first().map_or(0, Vec::len), a.len(), |i, j| a[j][i].clone())
}

/// Entries: dense, sparse, rank deficient, permuted, repeated or nearly equal rows
pub fn gen(m: &Mon, r: &mut Rng, rows: usize, cols: usize) -> Tab {
    let kind = r.below(9);
    let mut t = table(rows, cols, |_, _| match kind {
        0 => q::wide(m, r),
        1 => Q::int(r.irange(-1, 1)),
        2 => Q::int(r.irange(0, 1)),
        3 | 4 => {
            if r.bool() {
                Q::zero()
            } else {
                q::q(r)
            }
        }
        5 => Q::int(r.irange(1, 9)),
        6 => Q::int(r.irange(-9, -1)),
        _ => q::q(r),
    });
    if rows == 0 || cols == 0 {
        return t;
    }
    for _ in 0..r.below(4) {
        let (i, k) = (r.below(rows), r.below(rows));
        let c = r.below(cols);
        match r.below(9) {
            0 => t[i] = t[k].clone(),
            1 => t[i].iter_mut().for_each(|x| *x = Q::zero()),
            2 => t.iter_mut().for_each(|row| row[c] = Q::zero()),
            3 => {
                let f = q::q(r);
                t[i] = t[k].iter().map(|x| x * &f).collect();
            }
            4 => {
                // A sum of others
                let j = r.below(rows);
                t[i] = (0..cols).map(|c| &t[j][c] + &t[k][c]).collect();
            }
            5 => {
                // Upper or lower triangle
                let up = r.bool();
                for (a, row) in t.iter_mut().enumerate() {
                    for (b, x) in row.iter_mut().enumerate() {
                        if if up { b < a } else { b > a } {
                            *x = Q::zero();
                        }
                    }
                }
            }
            6 => {
                // Zeros on the diagonal
                (0..rows.min(cols)).for_each(|d| t[d][d] = Q::zero());
            }
            7 => t.reverse(),
            _ => {
                let d = r.below(cols);
                for row in &mut t {
                    row[c] = row[d].clone();
                }
            }
        }
    }
    t
}

pub fn size(t: &Tab) -> Q {
    t.iter().flatten().fold(Q::zero(), |s, x| s + Signed::abs(x.clone()))
}
