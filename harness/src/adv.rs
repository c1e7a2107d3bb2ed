//! Dishonest provers: circuits with violated constraints, and the choices a
//! cheating prover makes for running products and permuted lookup columns.

use ark_ff::{Field, One, SquareRootField, Zero};
use ark_poly::EvaluationDomain;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use crate::circuit::*;
use crate::run::*;
use crate::util::R;
use crate::F;

pub fn cell(a: &mut Assign, k: K, col: usize, row: usize) -> &mut F {
    match k {
        K::W => &mut a.w[col][row],
        K::I => &mut a.i[col][row],
        K::X => unreachable!(),
    }
}

pub fn edge_row(r: &mut R, rows: usize) -> usize {
    match r.below(4) {
        0 => 0,
        1 => rows - 1,
        _ => r.below(rows),
    }
}

/// Makes gate `g` evaluate to `e` at `row` by changing one witness cell, with
/// no other constraint disturbed.
pub fn set_residual(c: &Circuit, a: &Assign, g: usize, row: usize, e: F) -> Option<Assign> {
    let base = c.check(a);
    for (k, col, rot) in c.gates[g].queries() {
        if k != K::W {
            continue;
        }
        let at = idx(row, rot, c.n);
        let with = |d: F| {
            let mut b = a.clone();
            b.w[col][at] += d;
            b
        };
        let v: Vec<F> = (0..3u64).map(|d| c.ev(&with(F::from(d)), &c.gates[g], row)).collect();
        let s = v[1] - v[0];
        if s.is_zero() || v[2] - v[1] != s {
            continue;
        }
        let b = with((e - v[0]) * s.inverse().unwrap());
        let now = c.check(&b);
        let mut want = base.gates.clone();
        want.retain(|x| *x != (g, row));
        if !e.is_zero() {
            want.push((g, row));
        }
        want.sort();
        let mut got = now.gates.clone();
        got.sort();
        if got == want && now.copies == base.copies && now.lookups == base.lookups {
            return Some(b);
        }
    }
    None
}

/// Appends gates that say no more than that a column of their own is zero, so
/// that each can be given any residual in any row.
pub fn add_plain_gates(r: &mut R, c: &mut Circuit, a: &mut Assign, count: usize) {
    for _ in 0..count {
        c.gates.push(o(K::W, c.nw, 0) * E::C(r.f_nz()));
        c.nw += 1;
        c.permute.push(false);
        a.w.push(vec![F::zero(); c.n]);
    }
}

/// Breaks at least one gate and nothing else.
pub fn break_gates(r: &mut R, c: &Circuit, a: &Assign) -> Option<(Circuit, Assign, &'static str)> {
    let mut c2 = c.clone();
    let mut a2 = a.clone();
    let rows = c.n - c.t;
    let kind;
    let delta = |r: &mut R| match r.below(4) {
        0 => F::one(),
        1 => -F::one(),
        _ => r.f_nz(),
    };
    let poke = |r: &mut R, c: &Circuit, a: &mut Assign, g: usize, d: F| -> bool {
        let q: Vec<Q> = c.gates[g].queries().into_iter().filter(|q| q.0 != K::X).collect();
        if q.is_empty() {
            return false;
        }
        let (k, col, rot) = *r.pick(&q);
        let row = edge_row(r, rows);
        *cell(a, k, col, idx(row, rot, c.n)) += d;
        true
    };
    if c2.gates.is_empty() {
        return None;
    }
    match r.below(8) {
        0 | 1 => {
            kind = "cell";
            let g = r.below(c2.gates.len());
            let d = delta(r);
            if !poke(r, &c2, &mut a2, g, d) {
                return None;
            }
        }
        2 => {
            kind = "exact residual";
            let g = r.below(c2.gates.len());
            let row = edge_row(r, rows);
            a2 = set_residual(&c2, &a2, g, row, delta(r))?;
        }
        3 => {
            kind = "fixed cell";
            if c2.x.is_empty() {
                return None;
            }
            let x = r.below(c2.x.len());
            let row = r.below(c.n);
            c2.x[x][row] += delta(r);
        }
        4 => {
            // several gates whose values always sum to zero
            kind = "gates sum to zero";
            let g = r.below(c2.gates.len());
            let e = c2.gates[g].clone();
            let m = r.range(1, 3);
            let mut sum = F::one();
            for i in 0..m {
                let k = if i + 1 == m { -sum } else { r.f_nz() };
                sum += k;
                let pos = r.below(c2.gates.len() + 1);
                let ge = if k == -F::one() { -e.clone() } else { e.clone() * k };
                c2.gates.insert(pos, ge);
            }
            let d = delta(r);
            let g = c2.gates.iter().position(|x| x.show() == e.show()).unwrap();
            if !poke(r, &c2, &mut a2, g, d) {
                return None;
            }
        }
        5 => {
            kind = "rows sum to zero";
            let g = r.below(c2.gates.len());
            if rows < 2 {
                return None;
            }
            let (i, j) = (r.below(rows), r.below(rows));
            if i == j {
                return None;
            }
            let d = delta(r);
            a2 = set_residual(&c2, &a2, g, i, d)?;
            a2 = set_residual(&c2, &a2, g, j, -d)?;
        }
        6 => {
            kind = "gate without witness";
            let row = edge_row(r, rows);
            let e = if c2.ni > 0 && r.chance(50) {
                o(K::I, r.below(c2.ni), 0)
            } else if r.chance(30) {
                c2_const(r)
            } else {
                let mut v = vec![F::zero(); c.n];
                v[row] = delta(r);
                c2.x.push(v);
                o(K::X, c2.x.len() - 1, 0)
            };
            // the new query must not clash with another name of the same offset
            for (k, col, rot) in e.queries() {
                if c2.opened().iter().any(|q| q.0 == k && q.1 == col && q.2 != rot && idx(0, q.2 - rot, c.n) == 0) {
                    return None;
                }
            }
            let pos = r.below(c2.gates.len() + 1);
            c2.gates.insert(pos, e);
        }
        _ => {
            kind = "random column";
            let g = r.below(c2.gates.len());
            let q: Vec<Q> = c2.gates[g].queries().into_iter().filter(|q| q.0 != K::X).collect();
            if q.is_empty() {
                return None;
            }
            let (k, col, _) = *r.pick(&q);
            for i in 0..c.n {
                *cell(&mut a2, k, col, i) = r.f();
            }
        }
    }
    let v = c2.check(&a2);
    (!v.gates.is_empty() && v.copies.is_empty() && v.lookups.is_empty()).then(|| (c2, a2, kind))
}
fn c2_const(r: &mut R) -> E {
    c(r.f_nz())
}

/// Breaks at least one copy constraint and no gate or lookup.
pub fn break_copies(r: &mut R, c: &Circuit, a: &Assign) -> Option<(Circuit, Assign, &'static str)> {
    let mut c2 = c.clone();
    let mut a2 = a.clone();
    let pc = c.pcols();
    let np = pc.len();
    let kind;
    match r.below(6) {
        0 | 1 => {
            kind = "cell";
            let j = r.below(np);
            let i = edge_row(r, c.u);
            a2.w[pc[j]][i] += if r.chance(50) { F::one() } else { r.f_nz() };
        }
        2 => {
            kind = "swap of two cells";
            let (j, k) = (r.below(np), r.below(np));
            let (x, y) = (edge_row(r, c.u), r.below(c.u));
            let t = a2.w[pc[j]][x];
            a2.w[pc[j]][x] = a2.w[pc[k]][y];
            a2.w[pc[k]][y] = t;
        }
        3 => {
            kind = "swap of two columns";
            let (j, k) = (r.below(np), r.below(np));
            for x in 0..c.u {
                let t = a2.w[pc[j]][x];
                a2.w[pc[j]][x] = a2.w[pc[k]][x];
                a2.w[pc[k]][x] = t;
            }
        }
        4 => {
            // one more link between cells with different values
            kind = "joined cycles";
            let (j, k) = (r.below(np), r.below(np));
            let (x, y) = (edge_row(r, c.u), edge_row(r, c.u));
            if a.w[pc[j]][x] == a.w[pc[k]][y] {
                return None;
            }
            let t = c2.next[j][x];
            c2.next[j][x] = c2.next[k][y];
            c2.next[k][y] = t;
        }
        _ => {
            kind = "rotated column";
            let j = r.below(np);
            let u = c.u;
            a2.w[pc[j]][..u].rotate_left(1);
        }
    }
    let v = c2.check(&a2);
    (!v.copies.is_empty() && v.gates.is_empty() && v.lookups.is_empty()).then(|| (c2, a2, kind))
}

/// Breaks at least one lookup and no gate or copy constraint.
pub fn break_lookups(r: &mut R, c: &Circuit, a: &Assign) -> Option<(Circuit, Assign, &'static str)> {
    let mut c2 = c.clone();
    let mut a2 = a.clone();
    let l = r.below(c.lookups.len());
    let lk = c.lookups[l].clone();
    let row = edge_row(r, c.u);
    let kind;
    match r.below(7) {
        0 | 1 | 2 => {
            let e = r.pick(&lk.exprs).clone();
            let q: Vec<Q> = e.queries().into_iter().filter(|q| q.0 != K::X).collect();
            if q.is_empty() {
                return None;
            }
            let (k, col, rot) = *r.pick(&q);
            let at = idx(row, rot, c.n);
            if r.chance(50) && lk.exprs.len() > 1 {
                kind = "components of different rows";
                let from = idx(r.below(c.u), rot, c.n);
                let v = *cell(&mut a2, k, col, from);
                *cell(&mut a2, k, col, at) = v;
            } else {
                kind = "cell";
                *cell(&mut a2, k, col, at) = r.f_mixed();
            }
        }
        3 => {
            // component values shifted against each other
            kind = "components shifted against each other";
            if lk.exprs.len() < 2 {
                return None;
            }
            let i = r.below(lk.exprs.len());
            let j = (i + 1 + r.below(lk.exprs.len() - 1)) % lk.exprs.len();
            let d = r.f_nz();
            for (e, d) in [(i, d), (j, -d)] {
                let q: Vec<Q> = lk.exprs[e].queries().into_iter().filter(|q| q.0 == K::W).collect();
                let mut done = false;
                for (_, col, rot) in q {
                    let at = idx(row, rot, c.n);
                    let v0 = c2.ev(&a2, &lk.exprs[e], row);
                    let mut b = a2.clone();
                    b.w[col][at] += d;
                    if c2.ev(&b, &lk.exprs[e], row) == v0 + d {
                        a2 = b;
                        done = true;
                        break;
                    }
                }
                if !done {
                    return None;
                }
            }
        }
        4 => {
            kind = "table entry removed";
            let (t, rot) = *r.pick(&lk.tables);
            let have = c2.tables[t][idx(row, rot, c.n)];
            let with = if r.chance(50) { r.f_mixed() } else { c2.tables[t][idx(r.below(c.u), rot, c.n)] };
            for x in c2.tables[t].iter_mut() {
                if *x == have {
                    *x = with;
                }
            }
        }
        _ => {
            // the tuple is in the table, but on an unusable row
            kind = "tuple on an unusable table row";
            let e = r.pick(&lk.exprs).clone();
            let q: Vec<Q> = e.queries().into_iter().filter(|q| q.0 == K::W).collect();
            if q.is_empty() {
                return None;
            }
            let (k, col, rot) = *r.pick(&q);
            *cell(&mut a2, k, col, idx(row, rot, c.n)) = r.f();
            let tup: Vec<F> = lk.exprs.iter().map(|e| c2.ev(&a2, e, row)).collect();
            for ur in c.u..c.n {
                if r.chance(70) || ur == c.u {
                    for ((t, rot), v) in lk.tables.iter().zip(&tup) {
                        c2.tables[*t][idx(ur, *rot, c.n)] = *v;
                    }
                }
            }
        }
    }
    let v = c2.check(&a2);
    (!v.lookups.is_empty() && v.gates.is_empty() && v.copies.is_empty()).then(|| (c2, a2, kind))
}

// ---------------------------------------------------------------- products

/// Numerators and denominators of a running product on the usable rows.
#[derive(Clone, Debug)]
pub struct Chain {
    pub num: Vec<F>,
    pub den: Vec<F>,
}
impl Chain {
    /// z[i+1] = (z[i] num[i] + d) / den[i]
    pub fn walk(&self, start: F, resid: &[(usize, F)]) -> Vec<F> {
        let mut z = vec![start];
        for i in 0..self.num.len() {
            let d: F = resid.iter().filter(|x| x.0 == i).map(|x| x.1).sum();
            let v = (z[i] * self.num[i] + d) * self.den[i].inverse().unwrap_or_else(F::zero);
            z.push(v);
        }
        z
    }
    pub fn end(&self, start: F) -> F {
        *self.walk(start, &[]).last().unwrap()
    }
    /// contribution of a unit residual at row k to the end value
    pub fn gain(&self, k: usize) -> F {
        let mut z = self.den[k].inverse().unwrap_or_else(F::zero);
        for i in k + 1..self.num.len() {
            z *= self.num[i] * self.den[i].inverse().unwrap_or_else(F::zero);
        }
        z
    }
}

pub fn copy_chains(c: &Circuit, a: &Assign, cols_per: usize, beta: F, gamma: F) -> Vec<Chain> {
    let d = domain(c.n);
    let sig = sigma_evals(c);
    let pc = c.pcols();
    let all: Vec<usize> = (0..c.np()).collect();
    all.chunks(cols_per)
        .map(|js| {
            let mut ch = Chain { num: vec![], den: vec![] };
            for i in 0..c.u {
                let (mut n, mut p) = (F::one(), F::one());
                for &j in js {
                    let w = a.w[pc[j]][i];
                    n *= w + beta * c.deltas[j] * d.element(i) + gamma;
                    p *= w + beta * sig[j][i] + gamma;
                }
                ch.num.push(n);
                ch.den.push(p);
            }
            ch
        })
        .collect()
}
pub fn lookup_chain(a: &[F], s: &[F], ap: &[F], sp: &[F], beta: F, gamma: F) -> Chain {
    Chain {
        num: a.iter().zip(s).map(|(x, y)| (*x + beta) * (*y + gamma)).collect(),
        den: ap.iter().zip(sp).map(|(x, y)| (*x + beta) * (*y + gamma)).collect(),
    }
}

pub const COPY_ATTACKS: &[&str] = &[
    "plain",
    "start adjusted",
    "jump",
    "jump at the last usable row",
    "jump at the first row",
    "broken link",
    "all zero",
    "zero after the first row",
    "zero tail product",
    "every product starts at one",
    "ones",
    "end overwritten with one",
    "end overwritten with zero",
    "fixed up in the blinding rows",
    "start and link residuals cancel",
    "link residuals cancel",
    "row residuals of two products cancel",
    "end adjusted in the row before",
    "start and first row residuals cancel",
    "link and first row residuals cancel",
];

/// New running-product columns (the first u+1 rows of each).
pub fn copy_attack(r: &mut R, name: &str, chains: &[Chain], z: &mut [Vec<F>]) -> bool {
    let u = chains[0].num.len();
    let m = chains.len();
    let run = |start0: F, links: &BTreeMap<usize, F>, resid: &[(usize, usize, F)]| -> Vec<Vec<F>> {
        let mut out: Vec<Vec<F>> = vec![];
        let mut s = start0;
        for (j, ch) in chains.iter().enumerate() {
            if let Some(d) = links.get(&j) {
                s += d;
            }
            let rs: Vec<(usize, F)> = resid.iter().filter(|x| x.0 == j).map(|x| (x.1, x.2)).collect();
            let w = ch.walk(s, &rs);
            s = w[u];
            out.push(w);
        }
        out
    };
    let none = BTreeMap::new();
    let plain = run(F::one(), &none, &[]);
    let end = plain[m - 1][u];
    if end.is_zero() {
        return false;
    }
    // solve end(d) = 1 where end is a polynomial of degree at most 2
    let solve = |f: &dyn Fn(F) -> F| -> Option<F> {
        let (y0, y1, y2) = (f(F::zero()), f(F::one()), f(F::from(2u64)));
        let half = F::from(2u64).inverse().unwrap();
        let a = (y2 - y1 - y1 + y0) * half;
        let b = y1 - y0 - a;
        let c = y0 - F::one();
        if a.is_zero() {
            return b.inverse().map(|bi| -c * bi);
        }
        let disc = (b.square() - F::from(4u64) * a * c).sqrt()?;
        Some((-b + disc) * half * a.inverse().unwrap())
    };
    let out: Vec<Vec<F>> = match name {
        "plain" => plain,
        "start adjusted" => run(end.inverse().unwrap(), &none, &[]),
        "jump" | "jump at the last usable row" | "jump at the first row" => {
            let j = r.below(m);
            let k = match name {
                "jump" => r.below(u),
                "jump at the first row" => 0,
                _ => u - 1,
            };
            let (j, k) = if name == "jump at the last usable row" { (m - 1, k) } else { (j, k) };
            // everything after the jump is scaled by 1/end
            let e = end.inverse().unwrap();
            let mut o = plain;
            for jj in j..m {
                for i in 0..=u {
                    if jj > j || i > k {
                        o[jj][i] *= e;
                    }
                }
            }
            o
        }
        "broken link" => {
            if m < 2 {
                return false;
            }
            let j = r.range(1, m - 1);
            let e = end.inverse().unwrap();
            let mut o = plain;
            for jj in j..m {
                for i in 0..=u {
                    o[jj][i] *= e;
                }
            }
            o
        }
        "all zero" => vec![vec![F::zero(); u + 1]; m],
        "zero after the first row" => (0..m)
            .map(|j| {
                let mut v = vec![F::zero(); u + 1];
                if j == 0 {
                    v[0] = F::one();
                }
                v
            })
            .collect(),
        "zero tail product" => {
            if m < 2 {
                return false;
            }
            let j = r.range(1, m - 1);
            let mut o = plain;
            for jj in j..m {
                o[jj] = vec![F::zero(); u + 1];
            }
            o
        }
        "every product starts at one" => {
            if m < 2 {
                return false;
            }
            let mut o: Vec<Vec<F>> = chains.iter().map(|ch| ch.walk(F::one(), &[])).collect();
            if r.chance(50) {
                let e = o[m - 1][u].inverse().unwrap_or_else(F::zero);
                for x in o[m - 1].iter_mut() {
                    *x *= e;
                }
            }
            o
        }
        "ones" => vec![vec![F::one(); u + 1]; m],
        "end overwritten with one" => {
            let mut o = plain;
            o[m - 1][u] = F::one();
            o
        }
        "end overwritten with zero" => {
            let mut o = plain;
            o[m - 1][u] = F::zero();
            o
        }
        "fixed up in the blinding rows" => {
            for v in z.iter_mut() {
                for x in v[u + 1..].iter_mut() {
                    *x = F::one();
                }
            }
            plain
        }
        "start and link residuals cancel" | "link residuals cancel" => {
            if m < 2 {
                return false;
            }
            let (x, y) = if name == "start and link residuals cancel" {
                (0, r.range(1, m - 1))
            } else {
                if m < 3 {
                    return false;
                }
                let x = r.range(1, m - 2);
                (x, r.range(x + 1, m - 1))
            };
            let sign = if r.chance(50) { F::one() } else { -F::one() };
            let build = |d: F| {
                let mut l = BTreeMap::new();
                l.insert(x, d);
                l.insert(y, d * sign);
                run(F::one(), &l, &[])
            };
            match solve(&|d| build(d)[m - 1][u]) {
                Some(d) if !d.is_zero() => build(d),
                _ => return false,
            }
        }
        "row residuals of two products cancel" => {
            if m < 2 {
                return false;
            }
            let x = r.below(m - 1);
            let y = r.range(x + 1, m - 1);
            let k = r.below(u);
            let sign = if r.chance(80) { -F::one() } else { F::one() };
            let build = |d: F| run(F::one(), &none, &[(x, k, d), (y, k, d * sign)]);
            match solve(&|d| build(d)[m - 1][u]) {
                Some(d) if !d.is_zero() => build(d),
                _ => return false,
            }
        }
        "start and first row residuals cancel" | "link and first row residuals cancel" => {
            // the first row of any product, against its own or another's start
            let x = if name.starts_with("start") {
                0
            } else if m < 2 {
                return false;
            } else {
                r.range(1, m - 1)
            };
            let y = r.below(m);
            let sign = if r.chance(50) { F::one() } else { -F::one() };
            let build = |d: F| {
                let mut l = BTreeMap::new();
                l.insert(x, d);
                run(F::one(), &l, &[(y, 0, d * sign)])
            };
            match solve(&|d| build(d)[m - 1][u]) {
                Some(d) if !d.is_zero() => build(d),
                _ => return false,
            }
        }
        "end adjusted in the row before" => {
            if u < 2 {
                return false;
            }
            let mut o = plain;
            o[m - 1][u - 1] = F::one();
            o
        }
        _ => unreachable!(),
    };
    for (zj, oj) in z.iter_mut().zip(out) {
        zj[..=u].copy_from_slice(&oj);
    }
    true
}

// ---------------------------------------------------------------- lookups

pub const PERMUTE_ATTACKS: &[&str] = &[
    "value added to the table column",
    "value replaced by a table value",
    "value paired with a foreign table entry",
    "value first, preceded by itself",
    "value first",
    "value last",
];
pub const Z_ATTACKS: &[&str] = &[
    "own",
    "plain",
    "start adjusted",
    "jump",
    "jump at the last usable row",
    "jump at the first row",
    "end overwritten with one",
    "end overwritten with zero",
    "all zero",
    "zero after the first row",
    "ones",
    "fixed up in the blinding rows",
    "end adjusted in the row before",
    "start and first row residuals cancel",
];

/// Permuted input and table columns of a prover whose input contains values
/// that are not in the table.
pub fn permute_attack(r: &mut R, name: &str, a: &[F], s: &[F]) -> (Vec<F>, Vec<F>) {
    let u = a.len();
    let table: BTreeSet<F> = s.iter().cloned().collect();
    let (good, bad): (Vec<F>, Vec<F>) = a.iter().cloned().partition(|x| table.contains(x));
    let honest = |inputs: &[F], extra_ok: bool, r: &mut R, bad_first: u8| -> (Vec<F>, Vec<F>) {
        let mut count: BTreeMap<F, usize> = BTreeMap::new();
        for x in inputs {
            *count.entry(*x).or_insert(0) += 1;
        }
        let mut runs: Vec<(F, usize)> = count.into_iter().collect();
        r.shuffle(&mut runs);
        match bad_first {
            1 => runs.sort_by_key(|x| table.contains(&x.0)),
            2 => runs.sort_by_key(|x| !table.contains(&x.0)),
            _ => {}
        }
        let mut left: Vec<F> = s.to_vec();
        let (mut ap, mut sp): (Vec<F>, Vec<Option<F>>) = (vec![], vec![]);
        for (v, m) in runs {
            for k in 0..m {
                ap.push(v);
                if k == 0 && table.contains(&v) {
                    let i = left.iter().position(|x| *x == v).unwrap();
                    left.swap_remove(i);
                    sp.push(Some(v));
                } else if k == 0 && extra_ok {
                    sp.push(Some(v));
                } else {
                    sp.push(None);
                }
            }
        }
        r.shuffle(&mut left);
        let sp = sp.into_iter().map(|x| x.unwrap_or_else(|| left.pop().unwrap())).collect();
        (ap, sp)
    };
    match name {
        "value added to the table column" => honest(a, true, r, 0),
        "value replaced by a table value" => {
            let mut inputs = good.clone();
            while inputs.len() < u {
                inputs.push(s[r.below(u)]);
            }
            honest(&inputs, false, r, 0)
        }
        "value paired with a foreign table entry" => honest(a, false, r, 0),
        "value first" => honest(a, false, r, 1),
        "value last" => honest(a, false, r, 2),
        "value first, preceded by itself" => {
            let x = honest(a, false, r, 1);
            let _ = &bad;
            x
        }
        _ => unreachable!(),
    }
}

/// Makes the prover draw `v` as the blinding value of the permuted input
/// column in the last row (must be called right before the blinds are drawn).
pub fn force_last_blind(r: &mut R, n: usize, u: usize, v: F) {
    let mut q = vec![];
    for row in u..n {
        q.push(if row == n - 1 { v } else { r.f() });
        if row != n - 1 {
            q.push(r.f());
        }
    }
    crate::fs::force_zk(q);
}

pub fn z_attack(r: &mut R, name: &str, ch: &Chain, n: usize) -> Option<Vec<F>> {
    let u = ch.num.len();
    let mut z = vec![(0..n).map(|_| r.f()).collect::<Vec<F>>()];
    if copy_attack(r, name, std::slice::from_ref(ch), &mut z) {
        z.pop()
    } else {
        let _ = u;
        None
    }
}

/// Two broken running products whose row residuals cancel in pairs.
pub struct PairPlan {
    pub rows: (usize, usize),
    pub d: (F, F),
    pub sign: F,
    /// where the first product starts
    pub start: F,
}
pub fn pair_plan(r: &mut R, x: &Chain, y: &Chain) -> Option<PairPlan> {
    pair_plan_within(r, x, y, F::one(), F::one())
}
/// The first product goes from `start` to `end`, the second from one to one.
pub fn pair_plan_within(r: &mut R, x: &Chain, y: &Chain, start: F, end: F) -> Option<PairPlan> {
    let u = x.num.len();
    if u < 2 || y.num.len() != u {
        return None;
    }
    let k = r.below(u - 1);
    let l = r.range(k + 1, u - 1);
    let sign = if r.chance(80) { -F::one() } else { F::one() };
    // x: ex + d gx(k) + d' gx(l) = end ; y: ey + sign (d gy(k) + d' gy(l)) = 1
    let (a, b) = (x.gain(k), x.gain(l));
    let (c, d) = (y.gain(k) * sign, y.gain(l) * sign);
    let (e, f) = (end - x.end(start), F::one() - y.end(F::one()));
    let det = (a * d - b * c).inverse()?;
    Some(PairPlan { rows: (k, l), d: ((e * d - b * f) * det, (a * f - e * c) * det), sign, start })
}
impl PairPlan {
    pub fn walk(&self, ch: &Chain, second: bool) -> Vec<F> {
        let s = if second { self.sign } else { F::one() };
        let start = if second { F::one() } else { self.start };
        ch.walk(start, &[(self.rows.0, self.d.0 * s), (self.rows.1, self.d.1 * s)])
    }
}

pub type Shared<T> = Rc<RefCell<T>>;
pub fn shared<T>(t: T) -> Shared<T> {
    Rc::new(RefCell::new(t))
}
