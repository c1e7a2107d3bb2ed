//! Seeded randomness and field-element pickers.
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_std::rand::{RngCore, SeedableRng};
use rand_chacha::ChaChaRng;

use crate::F;

pub struct R(pub ChaChaRng);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x1000_0000_01b3))
}

impl R {
    pub fn new(seed: u64) -> Self {
        R(ChaChaRng::seed_from_u64(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len());
        &s[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn f(&mut self) -> F {
        F::rand(&mut self.0)
    }
    /// Another element, whose representation differs in one byte only (the
    /// first and the last one often).
    pub fn one_byte(&mut self, x: F) -> F {
        let bytes = ark_ff::to_bytes![x].unwrap();
        for _ in 0..40 {
            let at = match self.below(4) {
                0 => 0,
                1 => bytes.len() - 1,
                _ => self.below(bytes.len()),
            };
            let mut b = bytes.clone();
            b[at] ^= 1 << self.below(8);
            if let Ok(y) = <F as ark_ff::FromBytes>::read(&b[..]) {
                if ark_ff::to_bytes![y].unwrap() == b {
                    return y;
                }
            }
        }
        x + F::one()
    }
    pub fn f_nz(&mut self) -> F {
        loop {
            let x = self.f();
            if !x.is_zero() {
                return x;
            }
        }
    }
    /// small, boundary and random values
    pub fn f_mixed(&mut self) -> F {
        match self.below(8) {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            3 => F::from(self.below(5) as u64),
            4 => -F::from(self.below(300) as u64),
            5 => F::from(2u64).pow([self.below(255) as u64]),
            _ => self.f(),
        }
    }
    pub fn fs(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.f()).collect()
    }
    pub fn zk(&mut self) -> crate::fs::ZkRng {
        crate::fs::ZkRng::new(self.u64())
    }
}

pub fn fstr(x: &F) -> String {
    let neg = -*x;
    if x.into_repr() < neg.into_repr() {
        let r = x.into_repr();
        if r.0[1..].iter().all(|x| *x == 0) {
            return format!("{}", r.0[0]);
        }
    } else {
        let r = neg.into_repr();
        if r.0[1..].iter().all(|x| *x == 0) {
            return format!("-{}", r.0[0]);
        }
    }
    format!("0x{}", x.into_repr())
}

/// A nonzero vector of the null space of `rows` (each of width `w`), if any.
pub fn kernel(mut rows: Vec<Vec<F>>, w: usize) -> Option<Vec<F>> {
    let mut piv: Vec<usize> = vec![];
    let mut top = 0;
    for c in 0..w {
        let k = match (top..rows.len()).find(|k| !rows[*k][c].is_zero()) {
            Some(k) => k,
            None => continue,
        };
        rows.swap(top, k);
        let inv = rows[top][c].inverse().unwrap();
        rows[top].iter_mut().for_each(|x| *x *= inv);
        let lead = rows[top].clone();
        for (k, row) in rows.iter_mut().enumerate() {
            if k != top && !row[c].is_zero() {
                let f = row[c];
                for (x, y) in row.iter_mut().zip(&lead) {
                    *x -= f * y;
                }
            }
        }
        piv.push(c);
        top += 1;
    }
    let free = (0..w).find(|c| !piv.contains(c))?;
    let mut v = vec![F::zero(); w];
    v[free] = F::one();
    for (k, c) in piv.iter().enumerate() {
        v[*c] = -rows[k][free];
    }
    Some(v)
}

/// Rank of `rows`, each of width `w`.
pub fn rank(mut rows: Vec<Vec<F>>, w: usize) -> usize {
    let mut top = 0;
    for c in 0..w {
        let k = match (top..rows.len()).find(|k| !rows[*k][c].is_zero()) {
            Some(k) => k,
            None => continue,
        };
        rows.swap(top, k);
        let inv = rows[top][c].inverse().unwrap();
        let lead = rows[top].clone();
        for row in rows[top + 1..].iter_mut() {
            let f = row[c] * inv;
            for (x, y) in row.iter_mut().zip(&lead) {
                *x -= f * y;
            }
        }
        top += 1;
    }
    top
}
