//! Independent circuit model: constraint expressions with their own evaluator,
//! copy and lookup constraints with a row-by-row reference oracle, and a
//! generator of random satisfiable circuits.

use ark_ff::{FftField, Field, One, PrimeField, Zero};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;

use crate::util::R;
use crate::F;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum K {
    W,
    I,
    X,
}
pub type Q = (K, usize, i64);

#[derive(Clone, Debug)]
pub enum E {
    C(F),
    O(K, usize, i64),
    Neg(Box<E>),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Scale(Box<E>, F),
}

pub fn o(k: K, i: usize, r: i64) -> E {
    E::O(k, i, r)
}
pub fn c(x: F) -> E {
    E::C(x)
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, r: E) -> E {
        E::Add(Box::new(self), Box::new(r))
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, r: E) -> E {
        E::Sub(Box::new(self), Box::new(r))
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, r: E) -> E {
        E::Mul(Box::new(self), Box::new(r))
    }
}
impl std::ops::Mul<F> for E {
    type Output = E;
    fn mul(self, r: F) -> E {
        E::Scale(Box::new(self), r)
    }
}
impl std::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E::Neg(Box::new(self))
    }
}

pub fn rotation(r: i64) -> Rotation {
    match r {
        0 => Rotation::curr(),
        1 => Rotation::next(),
        -1 => Rotation::prev(),
        r if r > 0 => Rotation::new(r as usize, Sign::Plus),
        r => Rotation::new((-r) as usize, Sign::Minus),
    }
}
pub fn otype(k: K) -> OracleType {
    match k {
        K::W => OracleType::Witness,
        K::I => OracleType::Instance,
        K::X => OracleType::Fixed,
    }
}
pub fn vq(q: &Q) -> VirtualQuery {
    VirtualQuery::new(q.1, rotation(q.2), otype(q.0))
}

impl E {
    pub fn eval(&self, get: &dyn Fn(K, usize, i64) -> F) -> F {
        match self {
            E::C(x) => *x,
            E::O(k, i, r) => get(*k, *i, *r),
            E::Neg(a) => -a.eval(get),
            E::Add(a, b) => a.eval(get) + b.eval(get),
            E::Sub(a, b) => a.eval(get) - b.eval(get),
            E::Mul(a, b) => a.eval(get) * b.eval(get),
            E::Scale(a, x) => a.eval(get) * x,
        }
    }
    /// formal degree in columns
    pub fn degree(&self) -> usize {
        match self {
            E::C(_) => 0,
            E::O(..) => 1,
            E::Neg(a) | E::Scale(a, _) => a.degree(),
            E::Add(a, b) | E::Sub(a, b) => a.degree().max(b.degree()),
            E::Mul(a, b) => a.degree() + b.degree(),
        }
    }
    pub fn collect(&self, out: &mut Vec<Q>) {
        match self {
            E::C(_) => {}
            E::O(k, i, r) => out.push((*k, *i, *r)),
            E::Neg(a) | E::Scale(a, _) => a.collect(out),
            E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
                a.collect(out);
                b.collect(out);
            }
        }
    }
    pub fn queries(&self) -> Vec<Q> {
        let mut v = vec![];
        self.collect(&mut v);
        let mut seen = BTreeSet::new();
        v.retain(|q| seen.insert(*q));
        v
    }
    pub fn to_ve(&self) -> VirtualExpression<F> {
        match self {
            E::C(x) => VirtualExpression::Constant(*x),
            E::O(k, i, r) => vq(&(*k, *i, *r)).into(),
            E::Neg(a) => -a.to_ve(),
            E::Add(a, b) => a.to_ve() + b.to_ve(),
            E::Sub(a, b) => a.to_ve() - b.to_ve(),
            E::Mul(a, b) => a.to_ve() * b.to_ve(),
            E::Scale(a, x) => a.to_ve() * *x,
        }
    }
    pub fn show(&self) -> String {
        match self {
            E::C(x) => crate::util::fstr(x),
            E::O(k, i, r) => {
                let k = match k {
                    K::W => 'w',
                    K::I => 'i',
                    K::X => 'q',
                };
                if *r == 0 {
                    format!("{}{}", k, i)
                } else {
                    format!("{}{}[{:+}]", k, i, r)
                }
            }
            E::Neg(a) => format!("-({})", a.show()),
            E::Add(a, b) => format!("({} + {})", a.show(), b.show()),
            E::Sub(a, b) => format!("({} - {})", a.show(), b.show()),
            E::Mul(a, b) => format!("{}*{}", a.show(), b.show()),
            E::Scale(a, x) => format!("({}).{}", a.show(), crate::util::fstr(x)),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Lk {
    pub exprs: Vec<E>,
    /// (table column, rotation)
    pub tables: Vec<(usize, i64)>,
}

#[derive(Clone, Debug)]
pub struct Circuit {
    pub n: usize,
    /// usable rows of copy constraints and lookups
    pub u: usize,
    /// rows at the end which gates do not constrain
    pub t: usize,
    pub nw: usize,
    pub ni: usize,
    pub permute: Vec<bool>,
    pub gates: Vec<E>,
    pub lookups: Vec<Lk>,
    /// fixed and table columns
    pub x: Vec<Vec<F>>,
    pub tables: Vec<Vec<F>>,
    /// next[j][i]: the cell that follows cell (j, i) in its cycle, j counting permuted columns
    pub next: Vec<Vec<(usize, usize)>>,
    pub deltas: Vec<F>,
    /// filler for sigma columns on unusable rows
    pub sigma_dummy: F,
    /// queries the first gate declares although its expression does not need
    /// them: they are opened like the others
    pub extra: Vec<Q>,
    /// how the generator built it
    pub tags: BTreeSet<&'static str>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Assign {
    pub w: Vec<Vec<F>>,
    pub i: Vec<Vec<F>>,
}

#[derive(Default, Debug, Clone)]
pub struct Viol {
    pub gates: Vec<(usize, usize)>,
    pub copies: Vec<((usize, usize), (usize, usize))>,
    pub lookups: Vec<(usize, usize)>,
}
impl Viol {
    pub fn none(&self) -> bool {
        self.gates.is_empty() && self.copies.is_empty() && self.lookups.is_empty()
    }
}

pub fn idx(row: usize, rot: i64, n: usize) -> usize {
    (row as i64 + rot).rem_euclid(n as i64) as usize
}

impl Circuit {
    pub fn empty(n: usize) -> Self {
        Circuit {
            n,
            u: 0,
            t: 0,
            nw: 0,
            ni: 0,
            permute: vec![],
            gates: vec![],
            lookups: vec![],
            x: vec![],
            tables: vec![],
            next: vec![],
            deltas: vec![],
            sigma_dummy: F::from(999u64),
            extra: vec![],
            tags: Default::default(),
        }
    }
    pub fn np(&self) -> usize {
        self.permute.iter().filter(|x| **x).count()
    }
    /// witness column of the j-th permuted column
    pub fn pcols(&self) -> Vec<usize> {
        (0..self.nw).filter(|i| self.permute[*i]).collect()
    }
    pub fn at(&self, a: &Assign, k: K, col: usize, rot: i64, row: usize) -> F {
        let r = idx(row, rot, self.n);
        match k {
            K::W => a.w[col][r],
            K::I => a.i[col][r],
            K::X => self.x[col][r],
        }
    }
    pub fn ev(&self, a: &Assign, e: &E, row: usize) -> F {
        e.eval(&|k, cidx, r| self.at(a, k, cidx, r, row))
    }
    pub fn table_row(&self, l: &Lk, row: usize) -> Vec<F> {
        l.tables.iter().map(|(t, r)| self.tables[*t][idx(row, *r, self.n)]).collect()
    }
    /// The reference meaning of the circuit.
    pub fn check(&self, a: &Assign) -> Viol {
        let mut v = Viol::default();
        for (g, e) in self.gates.iter().enumerate() {
            for row in 0..self.n - self.t {
                if !self.ev(a, e, row).is_zero() {
                    v.gates.push((g, row));
                }
            }
        }
        let pc = self.pcols();
        for j in 0..self.np() {
            for i in 0..self.u {
                let (j2, i2) = self.next[j][i];
                if a.w[pc[j]][i] != a.w[pc[j2]][i2] {
                    v.copies.push(((j, i), (j2, i2)));
                }
            }
        }
        for (l, lk) in self.lookups.iter().enumerate() {
            let rows: BTreeSet<Vec<F>> = (0..self.u).map(|r| self.table_row(lk, r)).collect();
            for row in 0..self.u {
                let tup: Vec<F> = lk.exprs.iter().map(|e| self.ev(a, e, row)).collect();
                if !rows.contains(&tup) {
                    v.lookups.push((l, row));
                }
            }
        }
        v
    }
    pub fn gate_degree(&self) -> usize {
        self.gates.iter().map(|g| g.degree()).max().unwrap_or(0)
    }
    pub fn lookup_degree(&self) -> usize {
        self.lookups.iter().flat_map(|l| l.exprs.iter().map(|e| e.degree())).max().unwrap_or(0)
    }
    pub fn needs_u(&self) -> bool {
        self.np() > 0 || !self.lookups.is_empty()
    }
    pub fn queried(&self) -> BTreeSet<Q> {
        let mut s = BTreeSet::new();
        for g in &self.gates {
            s.extend(g.queries());
        }
        for l in &self.lookups {
            for e in &l.exprs {
                s.extend(e.queries());
            }
        }
        s
    }
    /// Everything a proof has to open: queries that constraints read, and the
    /// ones that are only declared.
    pub fn opened(&self) -> BTreeSet<Q> {
        let mut s = self.queried();
        if !self.gates.is_empty() {
            s.extend(self.extra.iter().cloned());
        }
        s
    }
    pub fn nontrivial_cells(&self) -> usize {
        self.next
            .iter()
            .enumerate()
            .map(|(j, c)| c.iter().enumerate().filter(|(i, x)| **x != (j, *i)).count())
            .sum()
    }
    pub fn sig(&self) -> String {
        let q = self.queried();
        let rots: BTreeSet<(K, i64)> = q.iter().map(|(k, _, r)| (*k, (*r).signum() * (r.abs().min(2)))).collect();
        format!(
            "n{} u{} t{} w{} i{} x{} p{} d{} l{}x{}d{} cyc{} r{:?} {:?}",
            self.n,
            if self.needs_u() { self.u as i64 } else { -1 },
            self.t,
            self.nw,
            self.ni,
            self.x.len(),
            self.np(),
            self.gate_degree(),
            self.lookups.len(),
            self.lookups.iter().map(|l| l.exprs.len()).max().unwrap_or(0),
            self.lookup_degree(),
            self.nontrivial_cells().min(9),
            rots,
            self.tags
        )
    }
    pub fn show(&self) -> String {
        format!(
            "n={} usable={} unconstrained_tail={} witness={} instance={} fixed={} permuted={:?} gates=[{}] lookups=[{}] linked_cells={}",
            self.n,
            if self.needs_u() { self.u as i64 } else { -1 },
            self.t,
            self.nw,
            self.ni,
            self.x.len(),
            self.pcols(),
            self.gates.iter().map(|g| g.show()).collect::<Vec<_>>().join("; "),
            self.lookups
                .iter()
                .map(|l| format!(
                    "({}) in {:?}",
                    l.exprs.iter().map(|e| e.show()).collect::<Vec<_>>().join(","),
                    l.tables
                ))
                .collect::<Vec<_>>()
                .join("; "),
            self.nontrivial_cells()
        )
    }
}

/// Distinct coset separators: powers of a non-residue-like generator times nothing.
pub fn make_deltas(r: &mut R, np: usize, n: usize) -> Vec<F> {
    let mut out: Vec<F> = vec![];
    let style = r.below(2);
    while out.len() < np {
        let cand = if style == 0 && out.len() < 40 {
            F::multiplicative_generator().pow([out.len() as u64])
        } else {
            r.f_nz()
        };
        let ok = out.iter().all(|d| {
            let q = cand * d.inverse().unwrap();
            q.pow([n as u64]) != F::one()
        });
        if ok {
            out.push(cand);
        } else {
            out.push(r.f_nz());
        }
    }
    out
}

#[derive(Clone)]
pub struct Cfg {
    pub ns: Vec<usize>,
    /// number of gates
    pub gates: (usize, usize),
    pub lookups: (usize, usize),
    /// percent chance of copy constraints
    pub perm: usize,
    pub max_perm: usize,
    /// percent chance of a custom vanishing polynomial
    pub zh: usize,
    pub max_deg: usize,
    /// percent chance of instance columns
    pub inst: usize,
    /// all rows of all gates must vanish on the whole domain
    pub simple_values: usize,
    /// percent chance of many columns of every kind, more gates, more and wider lookups
    pub wide: usize,
    /// gates read current rows only
    pub flat: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            ns: vec![4, 8, 8, 16, 16, 32],
            gates: (1, 3),
            lookups: (0, 0),
            perm: 0,
            max_perm: 6,
            zh: 30,
            max_deg: 5,
            inst: 60,
            simple_values: 30,
            wide: 6,
            flat: false,
        }
    }
}
impl Cfg {
    pub fn full() -> Self {
        Cfg { lookups: (0, 2), perm: 60, ..Cfg::default() }
    }
}

struct Gen<'a> {
    r: &'a mut R,
    c: Circuit,
    a: Assign,
    /// representation of each used rotation residue per column
    rots: BTreeMap<(K, usize), BTreeMap<usize, i64>>,
    trots: BTreeMap<usize, BTreeMap<usize, i64>>,
    /// columns whose values are final
    done: Vec<(K, usize)>,
    wide: bool,
    big: bool,
    flat: bool,
}

fn pick_rot(r: &mut R, n: usize, used: &mut BTreeMap<usize, i64>) -> i64 {
    let cand: i64 = match r.below(10) {
        0..=4 => 0,
        5 => 1,
        6 => -1,
        7 => r.range(1, n - 1) as i64,
        8 => -(r.range(1, n - 1) as i64),
        _ => *r.pick(&[2.min(n as i64 - 1), -(2.min(n as i64 - 1)), n as i64 - 1, -(n as i64 - 1)]),
    };
    let res = idx(0, cand, n);
    *used.entry(res).or_insert(cand)
}

impl<'a> Gen<'a> {
    fn rot(&mut self, k: K, col: usize) -> i64 {
        let n = self.c.n;
        if self.flat {
            return self.rot_fixed(k, col, 0);
        }
        pick_rot(self.r, n, self.rots.entry((k, col)).or_default())
    }
    fn rot_fixed(&mut self, k: K, col: usize, rot: i64) -> i64 {
        let n = self.c.n;
        *self.rots.entry((k, col)).or_default().entry(idx(0, rot, n)).or_insert(rot)
    }
    fn column(&mut self, small: bool) -> Vec<F> {
        let n = self.c.n;
        let r = &mut self.r;
        match if small { r.below(3) } else { r.below(9) } {
            0 => {
                let pool: Vec<F> = (0..r.range(1, 4)).map(|_| r.f_mixed()).collect();
                (0..n).map(|_| *r.pick(&pool)).collect()
            }
            1 => {
                let x = r.f_mixed();
                vec![x; n]
            }
            2 => (0..n).map(|_| F::from(r.below(4) as u64)).collect(),
            3 => vec![F::zero(); n],
            4 => (0..n).map(|_| r.f_mixed()).collect(),
            _ => r.fs(n),
        }
    }
    fn add_w(&mut self, v: Vec<F>, permute: bool) -> (K, usize) {
        self.a.w.push(v);
        self.c.permute.push(permute);
        self.c.nw += 1;
        (K::W, self.c.nw - 1)
    }
    fn add_i(&mut self, v: Vec<F>) -> (K, usize) {
        self.a.i.push(v);
        self.c.ni += 1;
        (K::I, self.c.ni - 1)
    }
    fn add_x(&mut self, v: Vec<F>) -> (K, usize) {
        self.c.x.push(v);
        (K::X, self.c.x.len() - 1)
    }
    fn oracle(&mut self) -> E {
        let (k, col) = *self.r.pick(&self.done.clone());
        let rot = self.rot(k, col);
        o(k, col, rot)
    }
    /// random expression of the finished columns, of degree at most d (>= 1)
    fn expr(&mut self, d: usize, depth: usize) -> E {
        if depth == 0 || d == 0 {
            return if d > 0 && self.r.chance(75) { self.oracle() } else { c(self.r.f_mixed()) };
        }
        match self.r.below(9) {
            0 | 1 => self.expr(d, depth - 1) + self.expr(d, depth - 1),
            2 => self.expr(d, depth - 1) - self.expr(d, depth - 1),
            3 | 4 | 5 if d >= 2 => {
                let d1 = self.r.range(1, d - 1);
                self.expr(d1, depth - 1) * self.expr(d - d1, depth - 1)
            }
            6 => -self.expr(d, depth - 1),
            7 => {
                let k = self.r.f_mixed();
                self.expr(d, depth - 1) * k
            }
            _ => self.oracle(),
        }
    }
    fn selector(&mut self, upto: usize) -> (K, usize) {
        let n = self.c.n;
        // reuse a boolean-like fixed column or make one
        let mut v = vec![F::zero(); n];
        match self.r.below(5) {
            0 => v = vec![F::one(); n],
            1 => {
                let i = self.r.below(upto.max(1));
                v[i] = F::one();
            }
            2 => {
                for x in v.iter_mut() {
                    *x = self.r.f_mixed();
                }
            }
            _ => {
                for x in v.iter_mut() {
                    *x = F::from(self.r.below(2) as u64);
                }
            }
        }
        self.add_x(v)
    }
    fn gate(&mut self, max_deg: usize) {
        let n = self.c.n;
        let rows = n - self.c.t;
        let out_kind = match self.r.below(10) {
            0 => K::I,
            1 => K::X,
            _ => K::W,
        };
        let high = max_deg > 8;
        let shape = if high && self.r.chance(60) { 0 } else { self.r.below(10) };
        if shape == 0 && max_deg >= 2 {
            // product of differences over a small pool, on a new column
            let m = if high { max_deg } else { self.r.range(2, max_deg) };
            let pool: Vec<F> = (0..m).map(|_| self.r.f_mixed()).collect();
            let v: Vec<F> = (0..n).map(|_| *self.r.pick(&pool)).collect();
            let w = self.add_w(v, false);
            let rot = self.rot(K::W, w.1);
            let mut e = o(K::W, w.1, rot) - c(pool[0]);
            for p in &pool[1..] {
                e = e * (o(K::W, w.1, rot) - c(*p));
            }
            self.c.gates.push(e);
            self.done.push(w);
            self.c.tags.insert("range");
            return;
        }
        if shape == 1 && max_deg >= 2 && rows >= 2 && !self.flat {
            // recurrence across rows, switched off at the end
            let w = self.add_w(vec![F::zero(); n], false);
            let m = self.r.range(1, rows - 1);
            let back = self.r.chance(40);
            let (r0, r1) = if back { (-1, 0) } else { (0, 1) };
            let r0 = self.rot_fixed(K::W, w.1, r0);
            let r1 = self.rot_fixed(K::W, w.1, r1);
            let e = self.expr(1, 1);
            let k = self.r.f_mixed();
            let start = self.r.below(rows - m + 1);
            let first = if back { start.max(1) } else { start };
            let first = first.min(rows - 1);
            let end = (start + m).min(rows).min(n - 1).max(first);
            let mut q = vec![F::zero(); n];
            let mut col = self.r.fs(n);
            for i in first..end {
                q[i] = F::one();
                let ev = self.c.ev(&self.a, &e, i);
                let (cur, nxt) = (idx(i, r0, n), idx(i, r1, n));
                col[nxt] = col[cur] * k + ev;
            }
            self.a.w[w.1] = col;
            let q = self.add_x(q);
            let qr = self.rot_fixed(K::X, q.1, 0);
            let body = o(K::W, w.1, r1) - (o(K::W, w.1, r0) * k + e);
            self.c.gates.push(o(K::X, q.1, qr) * body);
            self.done.push(w);
            self.c.tags.insert("recurrence");
            return;
        }
        // sel * (k * out[rot] - E)
        let use_sel = self.r.chance(60);
        let d = max_deg - use_sel as usize;
        let e = self.expr(d.max(1), 3);
        let k = if self.r.chance(50) { F::one() } else { self.r.f_nz() };
        let sel = if use_sel { Some(self.selector(rows)) } else { None };
        let sel = sel.map(|s| {
            let r = self.rot(K::X, s.1);
            (s, r)
        });
        let out = match out_kind {
            K::W => self.add_w(vec![], false),
            K::I => self.add_i(vec![]),
            K::X => self.add_x(vec![]),
        };
        let orot = self.rot(out.0, out.1);
        let mut col = self.column(false);
        let kinv = k.inverse().unwrap();
        for row in 0..rows {
            if let Some((s, sr)) = sel {
                if self.c.x[s.1][idx(row, sr, n)].is_zero() {
                    continue;
                }
            }
            col[idx(row, orot, n)] = self.c.ev(&self.a, &e, row) * kinv;
        }
        match out.0 {
            K::W => self.a.w[out.1] = col,
            K::I => self.a.i[out.1] = col,
            K::X => self.c.x[out.1] = col,
        }
        let lhs = if k.is_one() { o(out.0, out.1, orot) } else { o(out.0, out.1, orot) * k };
        let body = if self.r.chance(30) { e - lhs } else { lhs - e };
        let g = match sel {
            Some((s, sr)) => o(K::X, s.1, sr) * body,
            None => body,
        };
        self.c.gates.push(g);
        self.done.push(out);
        match out.0 {
            K::I => self.c.tags.insert("inst-out"),
            K::X => self.c.tags.insert("fixed-out"),
            _ => false,
        };
    }
    fn new_table(&mut self, vals: &[F]) -> (usize, i64) {
        // vals: table values on rows 0..u as the lookup sees them
        let n = self.c.n;
        let mut col = if self.r.chance(50) { vec![F::from(999u64); n] } else { self.r.fs(n) };
        let t = self.c.tables.len();
        let rot = if self.r.chance(25) {
            self.c.tags.insert("table-rot");
            pick_rot(self.r, n, self.trots.entry(t).or_default())
        } else {
            *self.trots.entry(t).or_default().entry(0).or_insert(0)
        };
        for (i, v) in vals.iter().enumerate() {
            col[idx(i, rot, n)] = *v;
        }
        self.c.tables.push(col);
        (t, rot)
    }
    fn lookup(&mut self) {
        let (n, u) = (self.c.n, self.c.u);
        let arity = if self.big && self.r.chance(50) {
            self.r.range(7, 10)
        } else if self.wide {
            self.r.range(2, 6)
        } else { *self.r.pick(&[1, 1, 2, 2, 3]) };
        if self.r.chance(50) {
            // arbitrary expressions; the table is made of the values they take
            self.c.tags.insert("lk-expr");
            let exprs: Vec<E> = (0..arity)
                .map(|_| {
                    let d = *self.r.pick(&[1, 1, 2, 3]);
                    self.expr(d, 2)
                })
                .collect();
            let mut rows: Vec<Vec<F>> =
                (0..u).map(|i| exprs.iter().map(|e| self.c.ev(&self.a, e, i)).collect()).collect();
            let distinct: BTreeSet<Vec<F>> = rows.iter().cloned().collect();
            // distinct tuples, then repeats or extra entries
            let mut tab: Vec<Vec<F>> = distinct.into_iter().collect();
            while tab.len() < u {
                let row = if self.r.chance(50) {
                    rows[self.r.below(u)].clone()
                } else {
                    (0..arity).map(|_| self.r.f_mixed()).collect()
                };
                tab.push(row);
            }
            self.r.shuffle(&mut tab);
            rows.clear();
            let tables = (0..arity)
                .map(|j| {
                    let v: Vec<F> = tab.iter().map(|t| t[j]).collect();
                    self.new_table(&v)
                })
                .collect();
            self.c.lookups.push(Lk { exprs, tables });
            return;
        }
        // a table, possibly shared, and columns made to fit it
        let share: Option<Vec<(usize, i64)>> = self
            .c
            .lookups
            .iter()
            .map(|l| l.tables.clone())
            .find(|t| t.len() == arity)
            .filter(|_| self.r.chance(50));
        let mut square = vec![false; arity];
        let mut roots: Vec<Vec<F>> = vec![vec![]; arity];
        let tables = match share {
            Some(t) => {
                self.c.tags.insert("lk-shared");
                t
            }
            None => {
                let distinct = self.r.range(1, u);
                (0..arity)
                    .map(|j| {
                        square[j] = self.r.chance(20);
                        let base: Vec<F> = (0..distinct)
                            .map(|i| if self.r.chance(50) { F::from(i as u64 + 1) } else { self.r.f_mixed() })
                            .collect();
                        let mut rt: Vec<F> = (0..u).map(|i| base[i.min(distinct - 1)]).collect();
                        if j > 0 && self.r.chance(50) {
                            rt = (0..u).map(|_| self.r.f_mixed()).collect();
                        }
                        roots[j] = rt.clone();
                        let vals: Vec<F> =
                            if square[j] { rt.iter().map(|x| *x * x).collect() } else { rt };
                        self.new_table(&vals)
                    })
                    .collect()
            }
        };
        let tmp = Lk { exprs: vec![], tables: tables.clone() };
        let pick: Vec<usize> = if self.r.chance(20) {
            vec![self.r.below(u); u]
        } else {
            (0..u).map(|_| self.r.below(u)).collect()
        };
        let selrow = self.r.below(u);
        let selected = self.r.chance(30);
        let sel = if selected {
            self.c.tags.insert("lk-selected");
            let mut v = vec![F::zero(); n];
            for x in v.iter_mut() {
                *x = F::from(self.r.below(2) as u64);
            }
            let s = self.add_x(v);
            let r = self.rot(K::X, s.1);
            Some((s, r))
        } else {
            None
        };
        let mut exprs = vec![];
        for j in 0..arity {
            let out = self.add_w(vec![], false);
            let rot = self.rot(K::W, out.1);
            let mut col = self.column(true);
            let shape = if square[j] { 3 } else { self.r.below(3) };
            let k = if shape == 1 { self.r.f_nz() } else { F::one() };
            let e0 = if shape == 2 { self.expr(1, 1) } else { c(F::zero()) };
            for row in 0..u {
                if let Some((s, sr)) = sel {
                    if self.c.x[s.1][idx(row, sr, n)].is_zero() {
                        continue;
                    }
                }
                let want = self.c.table_row(&tmp, pick[row])[j];
                col[idx(row, rot, n)] = match shape {
                    3 => roots[j][pick[row]],
                    _ => (want - self.c.ev(&self.a, &e0, row)) * k.inverse().unwrap(),
                };
            }
            self.a.w[out.1] = col;
            let w = o(K::W, out.1, rot);
            let mut e = match shape {
                0 => w,
                1 => w * k,
                2 => w + e0,
                _ => w.clone() * w,
            };
            if let Some((s, sr)) = sel {
                let q = || o(K::X, s.1, sr);
                let d = self.c.table_row(&tmp, selrow)[j];
                e = q() * e + (c(F::one()) - q()) * c(d);
            }
            exprs.push(e);
            self.done.push(out);
        }
        self.c.lookups.push(Lk { exprs, tables });
    }
    fn permutation(&mut self) {
        let (n, u) = (self.c.n, self.c.u);
        let pc = self.c.pcols();
        let np = pc.len();
        let mut groups: BTreeMap<F, Vec<(usize, usize)>> = BTreeMap::new();
        for (j, col) in pc.iter().enumerate() {
            for i in 0..u {
                groups.entry(self.a.w[*col][i]).or_default().push((j, i));
            }
        }
        let mut next: Vec<Vec<(usize, usize)>> = (0..np).map(|j| (0..u).map(|i| (j, i)).collect()).collect();
        for (_, mut cells) in groups {
            self.r.shuffle(&mut cells);
            let mut pos = 0;
            while pos < cells.len() {
                let len = if self.r.chance(30) {
                    cells.len() - pos
                } else {
                    self.r.range(1, (cells.len() - pos).min(4))
                };
                for k in 0..len {
                    let from = cells[pos + k];
                    next[from.0][from.1] = cells[pos + (k + 1) % len];
                }
                pos += len;
            }
        }
        self.c.next = next;
        self.c.deltas = make_deltas(self.r, np, n);
        self.c.sigma_dummy = self.r.f();
    }
}

/// A random circuit together with an assignment that satisfies it.
pub fn gen(r: &mut R, cfg: &Cfg) -> (Circuit, Assign) {
    loop {
        let (c, a) = gen_once(r, cfg);
        // supported circuits: some constraint has to leave a quotient
        let ok = c.np() > 0 || !c.lookups.is_empty() || {
            let d = c.gate_degree() * (c.n - 1);
            let z = c.n - c.t;
            d >= z && (d - z + 1).next_power_of_two() >= c.n
        };
        if ok {
            debug_assert!(c.check(&a).none());
            return (c, a);
        }
    }
}

fn gen_once(r: &mut R, cfg: &Cfg) -> (Circuit, Assign) {
    let wide = r.chance(cfg.wide);
    // a few of them much wider still
    let big = wide && r.chance(25);
    let n = if wide { (*r.pick(&cfg.ns)).min(if big { 8 } else { 16 }) } else { *r.pick(&cfg.ns) };
    let want_perm = r.chance(cfg.perm);
    let mut nl = r.range(cfg.lookups.0, cfg.lookups.1);
    if wide && cfg.lookups.1 > 0 {
        nl += if big { r.range(3, 9) } else { r.range(1, 3) };
    }
    let t = if r.chance(cfg.zh) { r.range(1, (n / 2).max(1)) } else { 0 };
    let mut c = Circuit::empty(n);
    c.t = t;
    c.u = match r.below(5) {
        0 => n - t - 1,
        1 => r.range(1, n - t - 1),
        _ => r.range((n - t - 1) / 2, n - t - 1).max(1),
    };
    let a = Assign { w: vec![], i: vec![] };
    let small = r.chance(cfg.simple_values) || want_perm && r.chance(70);
    let mut g = Gen { r, c, a, rots: Default::default(), trots: Default::default(), done: vec![], wide, big, flat: cfg.flat };
    if big {
        g.c.tags.insert("very wide");
    }
    if wide {
        g.c.tags.insert("wide");
    }

    let base_w = if wide { g.r.range(4, 12) } else { g.r.range(1, 3) };
    for _ in 0..base_w {
        let v = g.column(small);
        let w = g.add_w(v, false);
        g.done.push(w);
    }
    if g.r.chance(cfg.inst) {
        for _ in 0..g.r.range(1 + wide as usize, 2 + 2 * wide as usize + 6 * big as usize) {
            let v = g.column(small);
            let x = g.add_i(v);
            g.done.push(x);
        }
    }
    for _ in 0..g.r.range(1, 2 + 3 * wide as usize + 6 * big as usize) {
        let v = g.column(true);
        let x = g.add_x(v);
        g.done.push(x);
    }
    let mut ng = g.r.range(cfg.gates.0, cfg.gates.1);
    if wide && cfg.gates.1 > 0 {
        ng += if big { g.r.range(4, 18) } else { g.r.range(0, 6) };
    }
    let split = g.r.range(0, ng);
    for _ in 0..split {
        let d = g.r.range(1, cfg.max_deg);
        g.gate(d);
    }
    for _ in 0..nl {
        g.lookup();
    }
    for _ in split..ng {
        let d = g.r.range(1, cfg.max_deg);
        g.gate(d);
    }
    if g.r.chance(10) {
        let v = g.column(small);
        g.add_w(v, false);
        g.c.tags.insert("unused-column");
    }
    if want_perm {
        // a random subset of the columns, plus columns no gate reads
        let want = g.r.range(1, cfg.max_perm + 8 * wide as usize);
        let mut cols: Vec<usize> = (0..g.c.nw).collect();
        g.r.shuffle(&mut cols);
        for col in cols.into_iter().take(want) {
            g.c.permute[col] = true;
        }
        while g.c.np() < want {
            let v = g.column(true);
            g.add_w(v, true);
            g.c.tags.insert("copy-only-column");
        }
        if g.r.chance(15) {
            let v = g.column(true);
            g.add_w(v, true);
            g.c.tags.insert("copy-only-column");
        }
        g.permutation();
    }
    if g.c.needs_u() && g.c.t > 0 {
        g.c.tags.insert("u-and-t");
    }
    if !g.flat && !g.c.gates.is_empty() && g.r.chance(12) {
        for _ in 0..g.r.range(1, 3) {
            let old: Vec<Q> = g.c.opened().into_iter().collect();
            let q = if !old.is_empty() && g.r.chance(25) {
                *g.r.pick(&old)
            } else {
                let (k, cols) = match g.r.below(5) {
                    0 if g.c.ni > 0 => (K::I, g.c.ni),
                    1 | 2 if !g.c.x.is_empty() => (K::X, g.c.x.len()),
                    _ => (K::W, g.c.nw),
                };
                (k, g.r.below(cols), g.r.below(5) as i64 - 2)
            };
            // offsets that meet are refused
            let meets = |p: &Q| p.0 == q.0 && p.1 == q.1 && p.2 != q.2 && idx(0, p.2 - q.2, g.c.n) == 0;
            let zero = (q.0, q.1, 0);
            if !old.iter().any(meets) && !(q.0 == K::W && g.c.permute[q.1] && meets(&zero)) {
                g.c.tags.insert(if old.contains(&q) { "query declared twice" } else { "query declared but not needed" });
                g.c.extra.push(q);
            }
        }
    }
    (g.c, g.a)
}
