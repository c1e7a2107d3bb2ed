//! Soundness: proofs of false statements by honest-code and dishonest provers
//! (P04, P05, P06), and proofs checked against other statements (P08, P09).
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::verif;
use zokmon::adv::*;
use zokmon::circuit::*;
use zokmon::fs::{self, PlainFs, RecFs};
use zokmon::report::*;
use zokmon::run::*;
use zokmon::taupc::TauPC;
use zokmon::util::*;
use zokmon::*;

/// Runs one cheating attempt: the hooks are installed by the caller.
/// `Err` when the verifier accepts.
fn attempt<PC: Scheme>(cx: &mut Cx, s: &Setup<PC>, a: &Assign, zk: u64, what: &str) -> Result<bool, String> {
    let proof = s.prove::<PlainFs>(a, zk);
    verif::clear_hooks();
    fs::clear_zk();
    match proof {
        Err(Fail::Panic(_)) | Err(Fail::Err(_)) => {
            cx.obs(format!("no proof: {}", what));
            Ok(false)
        }
        Ok(p) => {
            cx.eval();
            match s.verify::<PlainFs>(p, &a.i) {
                Verdict::Accept => Err(format!("proof of a false statement accepted ({})", what)),
                v => {
                    cx.obs(format!("{}: {}", v.kind(), what));
                    Ok(true)
                }
            }
        }
    }
}

/// The same pipeline accepts the honest assignment.
fn control<PC: Scheme>(cx: &mut Cx, s: &Setup<PC>, a: &Assign, zk: u64) {
    if let Ok(p) = s.prove::<PlainFs>(a, zk) {
        if s.verify::<PlainFs>(p, &a.i).accepted() {
            cx.obs("control accepted");
        }
    }
}

fn kzg_case(cx: &Cx) -> bool {
    cx.idx % 8 == 7
}
fn small(cfg: &mut Cfg, cx: &Cx) {
    if kzg_case(cx) {
        cfg.ns = vec![4, 8];
    }
}
fn tries<T>(n: usize, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    for _ in 0..n {
        if let Some(x) = f() {
            return Some(x);
        }
    }
    None
}
fn any_sign(r: &mut R) -> F {
    if r.chance(50) {
        F::one()
    } else {
        -F::one()
    }
}
/// The challenges of an honest proof (theta, beta, gamma, alpha, xi, ...). A
/// prover that could know one of them before it commits could use it.
fn foreseen<PC: Scheme>(p: &Prep<PC>, a: &Assign, zk: u64) -> Option<Vec<F>>
where
    Keys<PC>: Send + Clone,
{
    let s = p.setup(a).ok()?;
    fs::reset();
    let _ = fs::take_log();
    s.prove::<RecFs>(a, zk).ok()?;
    let ch = fs::challenges(&fs::take_log());
    (ch.len() > 4).then(|| ch)
}
/// first, last or any gate
fn edge_gate(r: &mut R, c: &Circuit) -> usize {
    match r.below(6) {
        0 => 0,
        1 | 2 => r.below(c.gates.len()),
        _ => c.gates.len() - 1,
    }
}

// ------------------------------------------------------------------ P04

fn p04_pc<PC: Scheme>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let mut cfg = Cfg { gates: (1, 5), lookups: (0, 1), perm: 25, zh: 35, max_deg: 6, ..Cfg::default() };
    match cx.idx % 5 {
        0 | 1 => {
            cfg.lookups = (0, 0);
            cfg.perm = 0;
        }
        2 => {
            cfg.gates = (4, 14);
            cfg.max_deg = 3;
            cfg.lookups = (0, 0);
        }
        _ => {}
    }
    small(&mut cfg, cx);
    let (c, a) = gen(r, &cfg);
    let (ck, vk) = keys::<PC>(c.n, 7);
    let names = zokmon::run::pick_names(r.u64());
    if cx.idx % 6 == 0 {
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        if let Ok(s) = p.setup(&a) {
            control(cx, &s, &a, r.u64());
        }
    }
    if c.t > 0 && r.chance(40) && !c.needs_u() {
        // unconstrained rows may hold anything
        let mut b = a.clone();
        for q in c.queried() {
            if q.0 != K::X {
                for row in c.n - c.t..c.n {
                    let before = *cell(&mut b, q.0, q.1, row);
                    *cell(&mut b, q.0, q.1, row) = r.f();
                    if !c.check(&b).none() {
                        *cell(&mut b, q.0, q.1, row) = before;
                    }
                }
            }
        }
        if b != a {
            let p = Prep::<PC>::new(&c, &ck, &vk, names);
            if let Ok(s) = p.setup(&b) {
                if let Ok(pr) = s.prove::<PlainFs>(&b, r.u64()) {
                    if s.verify::<PlainFs>(pr, &b.i).accepted() {
                        cx.obs("unconstrained rows changed: accepted");
                    }
                }
            }
        }
    }
    let Some((c2, a2, kind)) = tries(12, || break_gates(r, &c, &a)) else {
        cx.obs("not breakable");
        return Ok(());
    };
    let v = c2.check(&a2);
    cx.note(format!("{}: violated (gate,row) {:?} {}", kind, &v.gates[..v.gates.len().min(6)], c2.show()));
    let p = Prep::<PC>::new(&c2, &ck, &vk, names);
    match p.setup(&a2) {
        Ok(s) => {
            if attempt(cx, &s, &a2, r.u64(), kind)? {
                let (g, row) = v.gates[0];
                cx.obs(if v.gates.len() == 1 { "exactly one violation" } else { "several violations" });
                if v.gates.iter().any(|x| x.1 == 0) {
                    cx.obs("violation in the first row");
                }
                if v.gates.iter().any(|x| x.1 == c2.n - c2.t - 1) {
                    cx.obs("violation in the last constrained row");
                }
                cx.obs(if g == 0 { "first gate violated" } else { "later gate violated" });
                cx.sig(format!("{} g{} row{} {}", kind, g, row, c2.sig()));
            }
        }
        Err(_) => cx.obs("not indexable"),
    }
    // two gates whose residuals cancel under the separator of an earlier proof
    if c.gates.len() > 1 && cx.idx % 4 == 0 {
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        let zk = r.u64();
        if let Some(ch) = foreseen(&p, &a, zk) {
            let alpha = ch[3];
            let found = tries(6, || {
                let i = r.below(c.gates.len() - 1);
                let j = r.range(i + 1, c.gates.len() - 1);
                let row = r.below(c.n - c.t);
                let e = r.f_nz();
                let b = set_residual(&c, &a, j, row, e)?;
                set_residual(&c, &b, i, row, -e * pow(alpha, j - i))
            });
            if let Some(b) = found {
                let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
                let what = "residuals cancel under a foreseen alpha";
                if attempt(cx, &s, &b, zk, what)? {
                    cx.sig(format!("{} {}", what, c.sig()));
                }
            }
        }
    }
    // opposite residuals in two gates of many
    if cx.idx % 5 == 2 && c.gates.len() > 1 {
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        let last = c.gates.len() - 1;
        for _ in 0..if cx.thorough { 12 } else { 4 } {
            let found = tries(3, || {
                // all distances alike
                let d = r.range(1, last);
                let i = r.below(last + 1 - d);
                let row = r.below(c.n - c.t);
                let e = any_sign(r);
                let b = set_residual(&c, &a, i + d, row, e)?;
                set_residual(&c, &b, i, row, -e).map(|b| (b, i, d))
            });
            let Some((b, i, d)) = found else { continue };
            let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
            let what = "opposite residuals in two of many gates";
            cx.note(format!("{}: {} and {} {}", what, i, i + d, c.show()));
            if attempt(cx, &s, &b, r.u64(), what)? {
                cx.sig(format!("{} {} {} {}", what, i, d, c.sig()));
                if d >= 8 {
                    cx.obs("opposite residuals eight or more gates apart");
                }
            }
        }
    }
    // a gate violation that cancels against the start condition of an all-zero running product
    if c.np() > 0 || !c.lookups.is_empty() {
        let g = edge_gate(r, &c);
        let e = any_sign(r);
        if let Some(b) = set_residual(&c, &a, g, 0, e) {
            let p = Prep::<PC>::new(&c, &ck, &vk, names);
            let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
            let on_lookup = c.np() == 0 || (!c.lookups.is_empty() && r.chance(50));
            let which = r.below(c.lookups.len().max(1));
            let zero = vec![F::zero(); c.n];
            if on_lookup {
                verif::set_lookup_z_hook::<F>(Box::new(move |_, _, i, _| (i == which).then(|| zero.clone())));
            } else {
                verif::set_permutation_hook::<F>(Box::new(move |_, _, z| {
                    for zj in z.iter_mut() {
                        *zj = zero.clone();
                    }
                    true
                }));
            }
            let what = if on_lookup { "gate against all-zero lookup product" } else { "gate against all-zero copy product" };
            cx.note(format!("{} gate {} e={} {}", what, g, fstr(&e), c.show()));
            if attempt(cx, &s, &b, r.u64(), what)? {
                cx.sig(format!("{} {} {}", what, g, c.sig()));
            }
        }
    }
    Ok(())
}
fn p04(r: &mut R, cx: &mut Cx) -> CaseResult {
    if kzg_case(cx) {
        cx.obs("real KZG");
        p04_pc::<Kzg>(r, cx)
    } else {
        p04_pc::<TauPC>(r, cx)
    }
}

// ------------------------------------------------------------------ P05

fn p05_pc<PC: Scheme>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let mut cfg =
        Cfg { gates: (0, 2), lookups: (0, 1), perm: 100, max_perm: 6, zh: 20, max_deg: 3, ..Cfg::default() };
    cfg.ns = vec![4, 4, 8, 8, 8, 16];
    match cx.idx % 4 {
        0 => cfg.lookups = (0, 0),
        1 => {
            cfg.lookups = (0, 0);
            cfg.gates = (0, 1);
            cfg.max_deg = 2;
            cfg.max_perm = 8;
        }
        _ => {}
    }
    small(&mut cfg, cx);
    let Some((c, a)) = tries(6, || {
        let (c, a) = gen(r, &cfg);
        (c.nontrivial_cells() > 0).then(|| (c, a))
    }) else {
        return Ok(());
    };
    let (ck, vk) = keys::<PC>(c.n, 7);
    let names = zokmon::run::pick_names(r.u64());
    if cx.idx % 6 == 0 {
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        if let Ok(s) = p.setup(&a) {
            control(cx, &s, &a, r.u64());
        }
    }
    let Some((c2, a2, kind)) = tries(30, || break_copies(r, &c, &a)) else {
        cx.obs("not breakable");
        return Ok(());
    };
    let v = c2.check(&a2);
    cx.note(format!("{}: unequal links {:?} {}", kind, &v.copies[..v.copies.len().min(6)], c2.show()));
    let p = Prep::<PC>::new(&c2, &ck, &vk, names);
    let s = p.setup(&a2).map_err(|e| format!("indexing: {}", e))?;
    let cols = s.scaling() - 1;
    let chunks = (c2.np() + cols - 1) / cols;
    cx.obs(format!("broken by {}", kind));
    cx.obs(format!("grand products={}", chunks.min(6)));
    for k in 0..6 {
        let name = match k {
            0 => "plain",
            1 => "own products",
            _ => *r.pick(COPY_ATTACKS),
        };
        let (cc, aa) = (c2.clone(), a2.clone());
        let applied = shared(false);
        let ap = applied.clone();
        let mut rr = R::new(r.u64());
        verif::set_permutation_hook::<F>(Box::new(move |b, g, z| {
            if k == 1 {
                // the products as the crate computes them, whatever they end at
                *ap.borrow_mut() = true;
                return true;
            }
            let ch = copy_chains(&cc, &aa, cols, b, g);
            let ok = copy_attack(&mut rr, name, &ch, z);
            *ap.borrow_mut() = ok;
            ok
        }));
        if attempt(cx, &s, &a2, r.u64(), name)? && *applied.borrow() {
            cx.sig(format!("{} {} m{} {}", kind, name, chunks, c2.sig()));
        }
    }
    // two cells changed so that the product still ends at one under the challenges of an earlier proof
    if cx.idx % 4 == 1 {
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        let zk = r.u64();
        if let Some(ch) = foreseen(&p, &a, zk) {
            let (beta, gamma) = (ch[1], ch[2]);
            let (d, sig, pc) = (domain(c.n), sigma_evals(&c), c.pcols());
            let mut cells: Vec<(usize, usize)> = vec![];
            for j in 0..pc.len() {
                cells.extend((0..c.u).filter(|i| c.next[j][*i] != (j, *i)).map(|i| (j, i)));
            }
            let found = tries(20, || {
                let (x, y) = (*r.pick(&cells), *r.pick(&cells));
                if x == y {
                    return None;
                }
                let terms = |(j, i): (usize, usize)| (beta * c.deltas[j] * d.element(i) + gamma, beta * sig[j][i] + gamma);
                let ratio = |z: (usize, usize), v: F| -> Option<F> {
                    let (p, q) = terms(z);
                    Some((v + p) * (v + q).inverse()?)
                };
                let mut b = a.clone();
                let (vx, vy) = (a.w[pc[x.0]][x.1], a.w[pc[y.0]][y.1]);
                let nx = vx + r.f_nz();
                // the factor y has to contribute now
                let want = ratio(x, vx)? * ratio(y, vy)? * ratio(x, nx)?.inverse()?;
                let (p, q) = terms(y);
                let ny = (want * q - p) * (F::one() - want).inverse()?;
                b.w[pc[x.0]][x.1] = nx;
                b.w[pc[y.0]][y.1] = ny;
                let v = c.check(&b);
                (!v.copies.is_empty() && v.gates.is_empty() && v.lookups.is_empty()).then(|| b)
            });
            if let Some(b) = found {
                let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
                let what = "cells fit foreseen beta and gamma";
                if !attempt(cx, &s, &b, zk, what)? {
                    // the honest prover notices; this one goes on
                    let (cc, bb) = (c.clone(), b.clone());
                    let cols = s.scaling() - 1;
                    let mut rr = R::new(r.u64());
                    verif::set_permutation_hook::<F>(Box::new(move |b, g, z| {
                        let ch = copy_chains(&cc, &bb, cols, b, g);
                        copy_attack(&mut rr, "plain", &ch, z)
                    }));
                    if attempt(cx, &s, &b, zk, what)? {
                        cx.sig(format!("{} {}", what, c.sig()));
                    }
                }
            }
        }
    }
    // cells in proportion to their positions, which fit products that are not
    // kept apart by two independent challenges
    if r.chance(50) {
        let (c, a) = if r.chance(50) {
            let mut cfg = Cfg { gates: (0, 1), perm: 100, max_perm: 6, max_deg: 4, ..Cfg::default() };
            small(&mut cfg, cx);
            cfg.ns.retain(|n| *n <= c.n);
            if cfg.ns.is_empty() {
                cfg.ns = vec![c.n];
            }
            gen(r, &cfg)
        } else {
            (c.clone(), a.clone())
        };
        let (ck, vk) = keys::<PC>(c.n, 7);
        if let Some(b) = tries(8, || proportional(r, &c, &a)) {
            let p = Prep::<PC>::new(&c, &ck, &vk, names);
            let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
            verif::set_permutation_hook::<F>(Box::new(move |_, _, _| true));
            let what = "cells in proportion to their positions";
            cx.note(format!("{} {}", what, c.show()));
            if attempt(cx, &s, &b, r.u64(), what)? {
                cx.obs("reject: cells in proportion to their positions (own products)");
                cx.sig(format!("{} {}", what, c.sig()));
            }
        }
    }
    // the start of the product against one of many gates
    if cx.idx % 8 == 6 {
        let (mut c, mut a) = (c2.clone(), a2.clone());
        let more = r.range(7, 18);
        add_plain_gates(r, &mut c, &mut a, more);
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        for _ in 0..4 {
            let g = edge_gate(r, &c);
            let Some(b) = set_residual(&c, &a, g, 0, any_sign(r)) else { continue };
            let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
            let zero = vec![F::zero(); c.n];
            verif::set_permutation_hook::<F>(Box::new(move |_, _, z| {
                for zj in z.iter_mut() {
                    *zj = zero.clone();
                }
                true
            }));
            attempt(cx, &s, &b, r.u64(), "all zero against one of many gates")?;
        }
    }
    // copy violation hidden behind a gate violation: the start of the product
    if !c2.gates.is_empty() && r.chance(40) {
        let g = edge_gate(r, &c2);
        if let Some(b) = set_residual(&c2, &a2, g, 0, any_sign(r)) {
            let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
            let zero = vec![F::zero(); c2.n];
            verif::set_permutation_hook::<F>(Box::new(move |_, _, z| {
                for zj in z.iter_mut() {
                    *zj = zero.clone();
                }
                true
            }));
            attempt(cx, &s, &b, r.u64(), "all zero against a gate residual")?;
        }
    }
    // copy and lookup products whose row residuals cancel
    if !c2.lookups.is_empty() {
        if let Some((c3, a3, lk)) = tries(12, || break_lookups_also(r, &c2, &a2)) {
            pair_copy_lookup::<PC>(r, cx, &c3, &a3, lk, names, &ck, &vk)?;
        }
    }
    Ok(())
}
/// Values along one cycle such that each cell and the next but one differ by
/// the ratio of their positions: the factors value + b (position + d) then
/// pair up for every b although the values differ.
fn proportional(r: &mut R, c: &Circuit, a: &Assign) -> Option<Assign> {
    let (d, pc) = (domain(c.n), c.pcols());
    // often a cycle of the later columns only
    let least = if r.chance(50) { r.below(pc.len()) } else { 0 };
    let mut cycle = vec![];
    for _ in 0..20 {
        let start = (r.range(least, pc.len() - 1), r.below(c.u));
        cycle = vec![start];
        loop {
            let (j, i) = cycle[cycle.len() - 1];
            let x = c.next[j][i];
            if x == start {
                break;
            }
            cycle.push(x);
        }
        if cycle.len() >= 3 && cycle.iter().all(|x| x.0 >= least) {
            break;
        }
    }
    let len = cycle.len();
    if len < 3 {
        return None;
    }
    let shift = *r.pick(&[F::zero(), F::one(), F::one()]);
    let pos: Vec<F> = cycle.iter().map(|(j, i)| c.deltas[*j] * d.element(*i) + shift).collect();
    let mut b = a.clone();
    let mut v = r.f_nz();
    for t in 0..len {
        b.w[pc[cycle[t].0]][cycle[t].1] = v;
        v *= pos[(t + 2) % len] * pos[t].inverse()?;
    }
    let v = c.check(&b);
    (!v.copies.is_empty() && v.gates.is_empty() && v.lookups.is_empty()).then(|| b)
}

/// Breaks a lookup of a circuit whose copy constraints are already broken.
fn break_lookups_also(r: &mut R, c: &Circuit, a: &Assign) -> Option<(Circuit, Assign, usize)> {
    let mut free = c.clone();
    for (j, col) in free.next.iter_mut().enumerate() {
        for (i, x) in col.iter_mut().enumerate() {
            *x = (j, i);
        }
    }
    let (mut c3, a3, _) = break_lookups(r, &free, a)?;
    let v = c3.check(&a3);
    let l = v.lookups[0].0;
    if v.lookups.iter().any(|x| x.0 != l) {
        return None;
    }
    c3.next = c.next.clone();
    (!c3.check(&a3).copies.is_empty()).then(|| (c3, a3, l))
}
fn pair_copy_lookup<PC: Scheme>(
    r: &mut R,
    cx: &mut Cx,
    c: &Circuit,
    a: &Assign,
    l: usize,
    names: u64,
    ck: &PC::CommitterKey,
    vk: &PC::VerifierKey,
) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let p = Prep::<PC>::new(c, ck, vk, names);
    let s = p.setup(a).map_err(|e| format!("indexing: {}", e))?;
    let cols = s.scaling() - 1;
    let u = c.u;
    // the permuted columns have to be fixed before the products
    let cols_l = shared(vec![]);
    let cl = cols_l.clone();
    let seed = r.u64();
    let count = shared(0usize);
    let cnt = count.clone();
    verif::set_permute_hook::<F>(Box::new(move |x, t| {
        let i = *cnt.borrow();
        *cnt.borrow_mut() += 1;
        if i != l {
            return None;
        }
        let (ap, sp) = permute_attack(&mut R::new(seed), "value added to the table column", x, t);
        *cl.borrow_mut() = vec![x.to_vec(), t.to_vec(), ap.clone(), sp.clone()];
        Some((ap, sp))
    }));
    let plan: zokmon::adv::Shared<Option<(PairPlan, Vec<F>)>> = shared(None);
    let pl = plan.clone();
    let (cc, aa, cl) = (c.clone(), a.clone(), cols_l.clone());
    let mut rr = R::new(r.u64());
    verif::set_permutation_hook::<F>(Box::new(move |b, g, z| {
        let xs = copy_chains(&cc, &aa, cols, b, g);
        // the chunk that takes part; the others are walked as they are
        let t = rr.below(xs.len());
        let k = cl.borrow();
        if k.is_empty() {
            return false;
        }
        let y = lookup_chain(&k[0], &k[1], &k[2], &k[3], b, g);
        let mut start = F::one();
        for (j, x) in xs[..t].iter().enumerate() {
            let zx = x.walk(start, &[]);
            z[j][..=u].copy_from_slice(&zx);
            start = zx[u];
        }
        let rest = xs[t + 1..].iter().fold(F::one(), |e, x| x.end(e));
        let end = rest.inverse().unwrap_or_else(F::one);
        match pair_plan_within(&mut rr, &xs[t], &y, start, end) {
            Some(pp) => {
                let zx = pp.walk(&xs[t], false);
                let zy = pp.walk(&y, true);
                z[t][..=u].copy_from_slice(&zx);
                let mut from = zx[u];
                for (j, x) in xs.iter().enumerate().skip(t + 1) {
                    let zx = x.walk(from, &[]);
                    z[j][..=u].copy_from_slice(&zx);
                    from = zx[u];
                }
                *pl.borrow_mut() = Some((pp, zy));
                true
            }
            None => false,
        }
    }));
    let pl = plan.clone();
    let n = c.n;
    let mut rr = R::new(r.u64());
    verif::set_lookup_z_hook::<F>(Box::new(move |_, _, i, _| {
        if i != l {
            return None;
        }
        pl.borrow().as_ref().map(|x| {
            let mut z = x.1.clone();
            while z.len() < n {
                z.push(rr.f());
            }
            z
        })
    }));
    cx.note(format!("copy and lookup residuals cancel {}", c.show()));
    if attempt(cx, &s, a, r.u64(), "copy and lookup residuals cancel")? && plan.borrow().is_some() {
        cx.sig(format!("pair copy lookup {}", c.sig()));
    }
    Ok(())
}
fn p05(r: &mut R, cx: &mut Cx) -> CaseResult {
    if kzg_case(cx) {
        cx.obs("real KZG");
        p05_pc::<Kzg>(r, cx)
    } else {
        p05_pc::<TauPC>(r, cx)
    }
}

// ------------------------------------------------------------------ P06

/// Installs permuted columns for the lookups given (index -> columns).
fn permuted(cols: Vec<Option<(Vec<F>, Vec<F>)>>, last_blind: Option<(usize, usize, usize, F)>, seed: u64) {
    let mut i = 0;
    let mut rr = R::new(seed);
    verif::set_permute_hook::<F>(Box::new(move |_, _| {
        let k = i;
        i += 1;
        if let Some((l, n, u, v)) = last_blind {
            if l == k {
                force_last_blind(&mut rr, n, u, v);
            }
        }
        cols.get(k).cloned().flatten()
    }));
}
/// compressed columns of an arity-one lookup
fn plain_columns(c: &Circuit, a: &Assign, l: usize) -> (Vec<F>, Vec<F>) {
    let lk = &c.lookups[l];
    (
        (0..c.u).map(|i| c.ev(a, &lk.exprs[0], i)).collect(),
        (0..c.u).map(|i| c.table_row(lk, i)[0]).collect(),
    )
}
/// Sets the value looked up by lookup `l` at `row` through one witness cell,
/// leaving every other constraint as it was.
fn set_lookup_value(c: &Circuit, a: &Assign, l: usize, row: usize, v: F) -> Option<Assign> {
    let base = c.check(a);
    let e = &c.lookups[l].exprs[0];
    for (k, col, rot) in e.queries() {
        if k != K::W {
            continue;
        }
        let at = idx(row, rot, c.n);
        let with = |d: F| {
            let mut b = a.clone();
            b.w[col][at] += d;
            b
        };
        let y: Vec<F> = (0..3u64).map(|d| c.ev(&with(F::from(d)), e, row)).collect();
        let s = y[1] - y[0];
        if s.is_zero() || y[2] - y[1] != s {
            continue;
        }
        let b = with((v - y[0]) * s.inverse().unwrap());
        let now = c.check(&b);
        if now.gates == base.gates && now.copies == base.copies && now.lookups == vec![(l, row)] {
            return Some(b);
        }
    }
    None
}

fn p06_pc<PC: Scheme>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let mut cfg =
        Cfg { gates: (0, 2), lookups: (1, 2), perm: 30, max_perm: 3, zh: 15, max_deg: 3, ..Cfg::default() };
    cfg.ns = vec![4, 8, 8, 8, 16];
    if cx.idx % 3 == 0 {
        cfg.gates = (0, 0);
        cfg.perm = 0;
        cfg.lookups = (1, 1);
    }
    if cx.idx % 3 == 1 {
        cfg.gates = (1, 2);
    }
    small(&mut cfg, cx);
    let (c, a) = gen(r, &cfg);
    let (ck, vk) = keys::<PC>(c.n, 7);
    let names = zokmon::run::pick_names(r.u64());
    if cx.idx % 6 == 0 {
        let p = Prep::<PC>::new(&c, &ck, &vk, names);
        if let Ok(s) = p.setup(&a) {
            control(cx, &s, &a, r.u64());
        }
    }
    if let Some((c2, a2, kind)) = tries(12, || break_lookups(r, &c, &a)) {
        let v = c2.check(&a2);
        let bad = v.lookups[0].0;
        cx.note(format!("{}: failing (lookup,row) {:?} {}", kind, &v.lookups[..v.lookups.len().min(6)], c2.show()));
        cx.obs(format!("broken by {}", kind));
        let p = Prep::<PC>::new(&c2, &ck, &vk, names);
        let s = p.setup(&a2).map_err(|e| format!("indexing: {}", e))?;
        attempt(cx, &s, &a2, r.u64(), "own columns")?;
        for k in 0..5 {
            let pn = *r.pick(PERMUTE_ATTACKS);
            let zn = if pn == "value first, preceded by itself" || pn == "value last" && k < 2 {
                "own"
            } else {
                *r.pick(Z_ATTACKS)
            };
            let what = format!("{} / {}", pn, zn);
            cx.note(what.clone());
            let seed = r.u64();
            let mut count = 0;
            let failing: BTreeSet<usize> = v.lookups.iter().map(|x| x.0).collect();
            let f2 = failing.clone();
            let (n, u) = (c2.n, c2.u);
            let mut rr = R::new(seed);
            verif::set_permute_hook::<F>(Box::new(move |x, t| {
                let i = count;
                count += 1;
                if !f2.contains(&i) {
                    return None;
                }
                let (ap, sp) = permute_attack(&mut rr, pn, x, t);
                if pn == "value first, preceded by itself" {
                    force_last_blind(&mut rr, n, u, ap[0]);
                }
                Some((ap, sp))
            }));
            let mut rr = R::new(r.u64());
            let f2 = failing.clone();
            verif::set_lookup_z_hook::<F>(Box::new(move |b, g, i, cols| {
                if !f2.contains(&i) || zn == "own" {
                    return None;
                }
                let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
                z_attack(&mut rr, zn, &ch, n)
            }));
            if attempt(cx, &s, &a2, r.u64(), &what)? {
                cx.sig(format!("{} {} {} {}", kind, what, bad, c2.sig()));
            }
        }
    } else {
        cx.obs("not breakable");
    }
    cancellations::<PC>(r, cx, &c, &a, &ck, &vk, names)?;
    // the same against many gates
    if cx.idx % 9 == 7 {
        let (mut c, mut a) = (c.clone(), a.clone());
        let more = r.range(7, 18);
        add_plain_gates(r, &mut c, &mut a, more);
        for _ in 0..4 {
            cancellations::<PC>(r, cx, &c, &a, &ck, &vk, names)?;
        }
    }
    if cx.idx % 5 == 0 {
        two_lookups::<PC>(r, cx, &ck, &vk, &c, &a, names)?;
    }
    // copy and lookup products whose row residuals cancel
    if cx.idx % 4 == 1 {
        let mut cfg =
            Cfg { gates: (0, 1), lookups: (1, 2), perm: 100, max_perm: 4, max_deg: 3, ..Cfg::default() };
        cfg.ns = vec![4, 8, 8];
        small(&mut cfg, cx);
        let (c, a) = gen(r, &cfg);
        let (ck, vk) = keys::<PC>(c.n, 7);
        if let Some((c2, a2, _)) = tries(12, || break_copies(r, &c, &a)) {
            if let Some((c3, a3, l)) = tries(12, || break_lookups_also(r, &c2, &a2)) {
                pair_copy_lookup::<PC>(r, cx, &c3, &a3, l, names, &ck, &vk)?;
            }
        }
    }
    plain_tables::<PC>(r, cx, names)?;
    Ok(())
}

/// Direct lookups of witness columns in small tables: inputs that change places
/// with table entries, and tuples that fit the aggregation challenge of an
/// earlier proof.
fn plain_tables<PC: Scheme>(r: &mut R, cx: &mut Cx, names: u64) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let n = *r.pick(if kzg_case(cx) { &[4usize, 8][..] } else { &[4usize, 8, 8, 16][..] });
    let u = r.range(2, n - 1);
    let arity = *r.pick(&[1usize, 1, 2, 3]);
    let mut c = Circuit::empty(n);
    c.u = u;
    c.nw = arity;
    c.permute = vec![false; arity];
    let kinds = r.range(1, 3);
    let entries: Vec<Vec<F>> = (0..kinds).map(|_| r.fs(arity)).collect();
    let rows: Vec<usize> = (0..n).map(|_| r.below(kinds)).collect();
    c.tables = (0..arity).map(|k| rows.iter().map(|i| entries[*i][k]).collect()).collect();
    c.lookups = vec![Lk {
        exprs: (0..arity).map(|k| o(K::W, k, 0)).collect(),
        tables: (0..arity).map(|k| (k, 0)).collect(),
    }];
    let pick: Vec<usize> = (0..n).map(|_| r.below(u)).collect();
    let a = Assign {
        w: (0..arity).map(|k| pick.iter().map(|i| c.tables[k][*i]).collect()).collect(),
        i: vec![],
    };
    let (ck, vk) = keys::<PC>(n, 7);
    let p = Prep::<PC>::new(&c, &ck, &vk, names);
    let zk = r.u64();
    let mut b = a.clone();
    if r.chance(35) {
        // a special value that the table does not have
        let mut e = vec![F::zero(); arity];
        e[0] = *r.pick(&[F::zero(), F::zero(), F::one(), -F::one(), F::from(2u64)]);
        let some = r.chance(70);
        for i in 0..u {
            if i == 0 || !some || r.chance(20) {
                let at = if i == 0 { edge_row(r, u) } else { i };
                for k in 0..arity {
                    b.w[k][at] = e[k];
                }
            }
        }
        if c.check(&b).lookups.is_empty() {
            return Ok(());
        }
        let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
        for pn in PERMUTE_ATTACKS {
            let what = format!("special value / {}", pn);
            cx.note(format!("{} {}", what, c.show()));
            let own = *pn != "value added to the table column" && r.chance(50);
            let mut rr = R::new(r.u64());
            verif::set_permute_hook::<F>(Box::new(move |x, t| {
                let (ap, sp) = permute_attack(&mut rr, pn, x, t);
                if *pn == "value first, preceded by itself" {
                    force_last_blind(&mut rr, n, u, ap[0]);
                }
                Some((ap, sp))
            }));
            let mut rr = R::new(r.u64());
            verif::set_lookup_z_hook::<F>(Box::new(move |b, g, _, cols| {
                if own {
                    return None;
                }
                let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
                z_attack(&mut rr, "plain", &ch, n)
            }));
            if attempt(cx, &s, &b, zk, &what)? {
                cx.obs("reject: special value outside the table");
                cx.sig(format!("{} {}", what, c.sig()));
            }
        }
        return Ok(());
    }
    if arity > 1 && r.chance(50) {
        let Some(ch) = foreseen(&p, &a, zk) else { return Ok(()) };
        // changes whose combination is zero under the foreseen challenge
        let row = edge_row(r, u);
        let k = r.below(arity - 1);
        let e = r.f_nz();
        let (hi, lo) = if r.chance(50) { (k, k + 1) } else { (k + 1, k) };
        b.w[lo][row] -= e * ch[0];
        b.w[hi][row] += e;
        let what = "tuple fits a foreseen theta";
        cx.note(format!("{} {}", what, c.show()));
        let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
        attempt(cx, &s, &b, zk, what)?;
        // the honest prover does not find the tuple; this one goes on
        let mut rr = R::new(r.u64());
        verif::set_permute_hook::<F>(Box::new(move |x, t| {
            Some(permute_attack(&mut rr, "value paired with a foreign table entry", x, t))
        }));
        let mut rr = R::new(r.u64());
        verif::set_lookup_z_hook::<F>(Box::new(move |b, g, _, cols| {
            let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
            z_attack(&mut rr, "plain", &ch, n)
        }));
        if attempt(cx, &s, &b, zk, what)? {
            cx.sig(format!("{} {}", what, c.sig()));
        }
        return Ok(());
    }
    // columns of which only the products agree with the inputs and the table
    if arity == 1 && u >= 3 && r.chance(50) {
        let inputs = r.chance(50);
        let rows: Vec<usize> = {
            let mut v: Vec<usize> = (0..u).collect();
            r.shuffle(&mut v);
            v.truncate(2);
            v
        };
        let l = r.f_nz();
        let real: Vec<F> = a.w[0][..u].to_vec();
        if inputs {
            b.w[0][rows[0]] *= l;
            b.w[0][rows[1]] *= l.inverse().unwrap();
        } else {
            // the foreign value, and a run of equal values to hide behind
            b.w[0][rows[0]] = r.f_nz();
        }
        if c.check(&b).lookups.is_empty() {
            return Ok(());
        }
        let what = if inputs { "inputs of which only the product agrees" } else { "table of which only the product agrees" };
        cx.note(format!("{} {}", what, c.show()));
        let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
        let made = shared(false);
        let mk = made.clone();
        let mut rr = R::new(r.u64());
        verif::set_permute_hook::<F>(Box::new(move |x, t| {
            let mut ap = if inputs { real.clone() } else { x.to_vec() };
            ap.sort();
            let mut left = t.to_vec();
            let mut sp: Vec<Option<F>> = vec![None; u];
            let mut foreign = F::one();
            for i in 0..u {
                if i == 0 || ap[i] != ap[i - 1] {
                    sp[i] = Some(ap[i]);
                    match left.iter().position(|y| *y == ap[i]) {
                        Some(k) => {
                            left.remove(k);
                        }
                        None => foreign *= ap[i],
                    }
                }
            }
            rr.shuffle(&mut left);
            let open: Vec<usize> = (0..u).filter(|i| sp[*i].is_none()).collect();
            if open.len() > left.len() || (!inputs && open.is_empty()) {
                return None;
            }
            for i in &open {
                sp[*i] = left.pop();
            }
            let mut sp: Vec<F> = sp.into_iter().map(|x| x.unwrap()).collect();
            if !inputs {
                let at = *rr.pick(&open);
                let rest: F = left.iter().product();
                sp[at] *= rest * foreign.inverse()?;
            }
            *mk.borrow_mut() = true;
            Some((ap, sp))
        }));
        // the crate's own running product, or one it does not object to
        let own = r.chance(60);
        let mut rr = R::new(r.u64());
        verif::set_lookup_z_hook::<F>(Box::new(move |b, g, _, cols| {
            let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
            (!own).then(|| z_attack(&mut rr, "plain", &ch, n))?
        }));
        if attempt(cx, &s, &b, r.u64(), what)? && *made.borrow() {
            cx.sig(format!("{} {}", what, c.sig()));
        }
        return Ok(());
    }
    // foreign tuples, each on several rows
    let bad: Vec<Vec<F>> = (0..r.range(1, 2)).map(|_| r.fs(arity)).collect();
    for i in 0..u {
        if r.chance(60) {
            let x = r.pick(&bad).clone();
            for k in 0..arity {
                b.w[k][i] = x[k];
            }
        }
    }
    if c.check(&b).lookups.is_empty() {
        return Ok(());
    }
    let what = "inputs and table entries change places";
    cx.note(format!("{} {}", what, c.show()));
    let s = p.setup(&b).map_err(|e| format!("indexing: {}", e))?;
    let swapped = shared(false);
    let sw = swapped.clone();
    let seed = r.u64();
    verif::set_permute_hook::<F>(Box::new(move |x, t| {
        let got = exchange(&mut R::new(seed), x, t);
        *sw.borrow_mut() = got.is_some();
        got
    }));
    let mut rr = R::new(r.u64());
    // either the crate's own running product or one that ends where it may
    let own = r.chance(50);
    verif::set_lookup_z_hook::<F>(Box::new(move |b, g, _, cols| {
        let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
        (!own).then(|| z_attack(&mut rr, "plain", &ch, n))?
    }));
    if attempt(cx, &s, &b, zk, what)? && *swapped.borrow() {
        cx.obs("reject: inputs and table entries changed places");
        cx.sig(format!("{} {}", what, c.sig()));
    }
    Ok(())
}

/// Columns that satisfy every pairing condition and together hold exactly the
/// inputs and the table, but not each its own.
fn exchange(r: &mut R, a: &[F], s: &[F]) -> Option<(Vec<F>, Vec<F>)> {
    let mut count: BTreeMap<F, usize> = BTreeMap::new();
    for x in a.iter().chain(s) {
        *count.entry(*x).or_insert(0) += 1;
    }
    let mut odd: Vec<F> = count.iter().filter(|x| x.1 % 2 == 1).map(|x| *x.0).collect();
    r.shuffle(&mut odd);
    // an odd value that occurs three times can be followed by any other odd one
    odd.sort_by_key(|x| count[x] < 3);
    let half = odd.len() / 2;
    if odd[..half].iter().any(|x| count[x] < 3) {
        return None;
    }
    let mut runs: Vec<(F, usize, Option<F>)> = count
        .iter()
        .filter(|x| *x.1 > 1)
        .map(|(x, m)| (*x, m / 2, odd[..half].iter().position(|y| y == x).map(|k| odd[half + k])))
        .collect();
    r.shuffle(&mut runs);
    let (mut ap, mut sp) = (vec![], vec![]);
    for (x, m, extra) in runs {
        for _ in 0..m {
            ap.push(x);
            sp.push(x);
        }
        if let Some(y) = extra {
            ap.push(x);
            sp.push(y);
        }
    }
    (ap.len() == a.len()).then(|| (ap, sp))
}

/// Pairs of violated conditions that would cancel if they shared a separator.
fn cancellations<PC: Scheme>(
    r: &mut R,
    cx: &mut Cx,
    c: &Circuit,
    a: &Assign,
    ck: &PC::CommitterKey,
    vk: &PC::VerifierKey,
    names: u64,
) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let single: Vec<usize> = (0..c.lookups.len()).filter(|l| c.lookups[*l].exprs.len() == 1).collect();
    if single.is_empty() || c.u < 2 {
        return Ok(());
    }
    let l = *r.pick(&single);
    let (n, u) = (c.n, c.u);
    let p = Prep::<PC>::new(c, ck, vk, names);
    let (_, table) = plain_columns(c, a, l);
    let entry = *r.pick(&table);
    let off = any_sign(r);
    let kind = if c.gates.len() > 7 { *r.pick(&[0, 2, 6, 6]) } else { r.below(7) };
    let row = edge_row(r, u);
    // the value looked up is one away from a table entry
    let Some(mut b) = set_lookup_value(c, a, l, row, entry + off) else { return Ok(()) };
    let (inp, _) = plain_columns(c, &b, l);
    let bad = inp[row];
    // pairs the bad value with `entry` in the first row
    let first = |r: &mut R| -> (Vec<F>, Vec<F>) {
        let mut left = table.clone();
        let mut ins: Vec<F> = inp.clone();
        ins.retain(|x| *x != bad);
        let m = u - ins.len();
        ins.sort();
        let mut ap = vec![bad; m];
        ap.extend(ins);
        let pos = left.iter().position(|x| *x == entry).unwrap();
        left.remove(pos);
        let mut sp: Vec<Option<F>> = vec![None; u];
        sp[0] = Some(entry);
        for i in m..u {
            if i == m || ap[i] != ap[i - 1] {
                if let Some(pos) = left.iter().position(|x| *x == ap[i]) {
                    left.remove(pos);
                    sp[i] = Some(ap[i]);
                }
            }
        }
        r.shuffle(&mut left);
        let sp = sp.into_iter().map(|x| x.unwrap_or_else(|| left.pop().unwrap())).collect();
        (ap, sp)
    };
    let (ap, sp) = first(r);
    // the pairing only helps when nothing else is unpaired
    let clean = (1..u).all(|i| ap[i] == sp[i] || ap[i] == ap[i - 1]);
    let mut cols = vec![None; c.lookups.len()];
    cols[l] = Some((ap.clone(), sp.clone()));
    let zero = vec![F::zero(); n];
    let what;
    let seed = r.u64();
    match kind {
        0 | 1 => {
            // first pair (a'-s') against a gate residual
            if c.gates.is_empty() {
                return Ok(());
            }
            what = "first pair against a gate residual";
            let g = edge_gate(r, c);
            let Some(x) = set_residual(c, &b, g, 0, any_sign(r)) else { return Ok(()) };
            b = x;
            if plain_columns(c, &b, l).0 != inp {
                return Ok(());
            }
            permuted(cols, Some((l, n, u, ap[0])), seed);
        }
        2 => {
            // any pair against a gate residual in the same row
            if c.gates.is_empty() {
                return Ok(());
            }
            what = "later pair against a gate residual";
            let mut order: Vec<usize> = (0..u).collect();
            r.shuffle(&mut order);
            // rotate the bad run behind the good ones
            let m = inp.iter().filter(|x| **x == bad).count();
            let (mut ap2, mut sp2) = (ap[m..].to_vec(), sp[m..].to_vec());
            ap2.extend(&ap[..m]);
            sp2.extend(&sp[..m]);
            if m == u {
                return Ok(());
            }
            let k = u - m;
            let v = (ap2[k] - sp2[k]) * (ap2[k] - ap2[k - 1]);
            let g = edge_gate(r, c);
            let Some(x) = set_residual(c, &b, g, k, v * any_sign(r)) else { return Ok(()) };
            b = x;
            if plain_columns(c, &b, l).0 != inp {
                return Ok(());
            }
            cols[l] = Some((ap2, sp2));
            permuted(cols, None, seed);
        }
        3 => {
            what = "first pair against the preceding value";
            permuted(cols, Some((l, n, u, ap[0] + any_sign(r))), seed);
        }
        4 => {
            what = "first pair against the start of the same product";
            permuted(cols, Some((l, n, u, ap[0])), seed);
            verif::set_lookup_z_hook::<F>(Box::new(move |_, _, i, _| (i == l).then(|| zero.clone())));
        }
        5 => {
            // ... of another product
            if c.np() > 0 && r.chance(50) || c.lookups.len() < 2 {
                if c.np() == 0 {
                    return Ok(());
                }
                what = "first pair against the start of a copy product";
                permuted(cols, Some((l, n, u, ap[0])), seed);
                verif::set_permutation_hook::<F>(Box::new(move |_, _, z| {
                    for zj in z.iter_mut() {
                        *zj = zero.clone();
                    }
                    true
                }));
            } else {
                what = "first pair against the start of another lookup product";
                let o = (l + 1 + r.below(c.lookups.len() - 1)) % c.lookups.len();
                permuted(cols, Some((l, n, u, ap[0])), seed);
                verif::set_lookup_z_hook::<F>(Box::new(move |_, _, i, _| (i == o).then(|| zero.clone())));
            }
        }
        _ => {
            // all-zero product against a gate residual
            if c.gates.is_empty() {
                return Ok(());
            }
            what = "start of the product against a gate residual";
            let g = edge_gate(r, c);
            let Some(x) = set_residual(c, &b, g, 0, any_sign(r)) else { return Ok(()) };
            b = x;
            let mut t = vec![];
            for i in 0..u {
                t.push(table[i]);
            }
            cols[l] = Some((t.clone(), t));
            permuted(cols, None, seed);
            verif::set_lookup_z_hook::<F>(Box::new(move |_, _, i, _| (i == l).then(|| zero.clone())));
        }
    }
    if c.check(&b).lookups.is_empty() {
        verif::clear_hooks();
        return Ok(());
    }
    let s = match p.setup(&b) {
        Ok(s) => s,
        Err(_) => return Ok(()),
    };
    cx.note(format!("{} {}", what, c.show()));
    if attempt(cx, &s, &b, r.u64(), what)? && clean {
        cx.sig(format!("{} {}", what, c.sig()));
    }
    Ok(())
}

/// The same broken lookup twice: residuals of the two cancel pairwise.
fn two_lookups<PC: Scheme>(
    r: &mut R,
    cx: &mut Cx,
    ck: &PC::CommitterKey,
    vk: &PC::VerifierKey,
    c: &Circuit,
    a: &Assign,
    names: u64,
) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let Some((c2, a2, _)) = tries(12, || break_lookups(r, c, a)) else { return Ok(()) };
    let v = c2.check(&a2);
    let l = v.lookups[0].0;
    let mut c3 = c2.clone();
    // a second lookup into the same tables, failing as well, maybe with others in between
    let pos = r.range(0, c3.lookups.len());
    let lk = c3.lookups[l].clone();
    c3.lookups.insert(pos, lk);
    let (x, y) = if pos <= l { (pos, l + 1) } else { (l, pos) };
    let others: Vec<usize> = c3.check(&a2).lookups.iter().map(|v| v.0).filter(|i| *i != x && *i != y).collect();
    if !others.is_empty() || c3.u < 2 {
        return Ok(());
    }
    let p = Prep::<PC>::new(&c3, ck, vk, names);
    let s = p.setup(&a2).map_err(|e| format!("indexing: {}", e))?;
    let (n, u) = (c3.n, c3.u);
    let what = "row residuals of two lookups cancel";
    let mut count = 0;
    let mut rr = R::new(r.u64());
    // both statements are the same; their permuted columns are ordered differently
    let known: zokmon::adv::Shared<Vec<[Vec<F>; 4]>> = shared(vec![]);
    let kn = known.clone();
    verif::set_permute_hook::<F>(Box::new(move |inp, tab| {
        let i = count;
        count += 1;
        if i != x && i != y {
            return None;
        }
        let (ap, sp) = permute_attack(&mut rr, "value added to the table column", inp, tab);
        kn.borrow_mut().push([inp.to_vec(), tab.to_vec(), ap.clone(), sp.clone()]);
        Some((ap, sp))
    }));
    let seed = r.u64();
    let mut rr2 = R::new(r.u64());
    let planned = shared(false);
    let pd = planned.clone();
    verif::set_lookup_z_hook::<F>(Box::new(move |b, g, i, _| {
        if i != x && i != y {
            return None;
        }
        let k = known.borrow();
        let ch: Vec<Chain> = k.iter().map(|k| lookup_chain(&k[0], &k[1], &k[2], &k[3], b, g)).collect();
        let plan = pair_plan(&mut R::new(seed), &ch[0], &ch[1])?;
        *pd.borrow_mut() = true;
        let mut z = if i == x { plan.walk(&ch[0], false) } else { plan.walk(&ch[1], true) };
        while z.len() < n {
            z.push(rr2.f());
        }
        Some(z)
    }));
    cx.note(format!("{} {}", what, c3.show()));
    if attempt(cx, &s, &a2, r.u64(), what)? && *planned.borrow() {
        cx.sig(format!("{} {}", what, c3.sig()));
    }
    Ok(())
}

/// Lookups without copy constraints, configured with the crate's dummy
/// permutation info.
fn dummy_config(r: &mut R, cx: &mut Cx) -> CaseResult {
    let cfg = Cfg { gates: (0, 1), lookups: (1, 1), perm: 0, zh: 0, max_deg: 2, ns: vec![8], ..Cfg::default() };
    let (c, a) = gen(r, &cfg);
    let (ck, vk) = keys::<TauPC>(c.n, 7);
    let qb: Vec<F> = (0..c.n).map(|i| if i >= c.u { F::one() } else { F::zero() }).collect();
    let Some((c2, a2, kind)) = tries(20, || break_lookups(r, &c, &a)) else { return Ok(()) };
    let p = Prep::<TauPC>::with(&c2, &ck, &vk, 0, UMode::Dummy, qb, vec![]);
    let s = p.setup(&a2).map_err(|e| format!("indexing: {}", e))?;
    let u = c2.u;
    let n = c2.n;
    let failing: BTreeSet<usize> = c2.check(&a2).lookups.iter().map(|x| x.0).collect();
    let mut count = 0;
    let mut rr = R::new(r.u64());
    let f2 = failing.clone();
    verif::set_permute_hook::<F>(Box::new(move |x, t| {
        let i = count;
        count += 1;
        f2.contains(&i).then(|| permute_attack(&mut rr, "value added to the table column", x, t))
    }));
    let mut rr = R::new(r.u64());
    verif::set_lookup_z_hook::<F>(Box::new(move |b, g, i, cols| {
        if !failing.contains(&i) {
            return None;
        }
        let ch = lookup_chain(&cols[0][..u], &cols[1][..u], &cols[2][..u], &cols[3][..u], b, g);
        z_attack(&mut rr, "plain", &ch, n)
    }));
    cx.note(format!("dummy permutation info, {}: {}", kind, c2.show()));
    if let Err(e) = attempt(cx, &s, &a2, r.u64(), "lookup under the dummy permutation info") {
        cx.obs("accepted: lookup under the dummy permutation info");
        cx.finding(
            "lookup-only-dummy-u",
            format!(
                "with PermutationInfo::dummy() (zero usable rows) the end of the lookup product is never checked: {}",
                e
            ),
        )?;
    }
    Ok(())
}

fn p06(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx % 50 == 49 {
        return dummy_config(r, cx);
    }
    if kzg_case(cx) {
        cx.obs("real KZG");
        p06_pc::<Kzg>(r, cx)
    } else {
        p06_pc::<TauPC>(r, cx)
    }
}

// ------------------------------------------------------------------ P08

/// A polynomial of degree < n that is zero at the given points and on the
/// given rows, times a power of X.
fn mask_poly(r: &mut R, n: usize, points: &[F]) -> Option<P> {
    let mut p = P::from_coefficients_vec(vec![r.f_nz()]);
    for x in points {
        p = &p * &P::from_coefficients_vec(vec![-*x, F::one()]);
    }
    let room = (n - 1).checked_sub(p.degree())?;
    let d = domain(n);
    match r.below(4) {
        0 => {}
        1 => {
            // low coefficients stay
            let mut co = vec![F::zero(); r.range(0, room)];
            co.extend_from_slice(&p.coeffs);
            p = P::from_coefficients_vec(co);
        }
        _ => {
            let mut rows: Vec<usize> = (0..n).collect();
            r.shuffle(&mut rows);
            if r.chance(40) {
                rows.sort();
            }
            for row in rows.into_iter().take(r.range(0, room)) {
                p = &p * &P::from_coefficients_vec(vec![-d.element(row), F::one()]);
            }
        }
    }
    Some(p)
}

fn p08_pc<PC: Scheme>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let mut cfg =
        Cfg { gates: (1, 3), lookups: (0, 1), perm: 25, zh: 25, max_deg: 3, inst: 100, ..Cfg::default() };
    cfg.ns = vec![4, 8, 8, 16];
    small(&mut cfg, cx);
    let Some((c, a)) = tries(12, || {
        let (c, a) = gen(r, &cfg);
        c.queried().iter().any(|q| q.0 == K::I).then(|| (c, a))
    }) else {
        cx.obs("no instance column is read");
        return Ok(());
    };
    cx.note(c.show());
    let (ck, vk) = keys::<PC>(c.n, 7);
    let p = Prep::<PC>::new(&c, &ck, &vk, zokmon::run::pick_names(r.u64()));
    let s = p.setup(&a).map_err(|e| format!("indexing: {}", e))?;
    fs::reset();
    let proof = match s.prove::<RecFs>(&a, r.u64()) {
        Ok(p) => p,
        Err(e) => return Err(format!("proving failed: {}", e)),
    };
    fs::take_log();
    let honest = s.verify::<RecFs>(dup(&proof), &a.i);
    let log = fs::take_log();
    if !honest.accepted() {
        cx.obs("honest proof not accepted");
        return Ok(());
    }
    cx.obs("control accepted");
    let read: Vec<usize> =
        (0..c.ni).filter(|i| c.queried().iter().any(|q| q.0 == K::I && q.1 == *i)).collect();
    let ch = fs::challenges(&log);
    let d = domain(c.n);
    for k in 0..8 {
        let mut inst = a.i.clone();
        let col = *r.pick(&read);
        let what;
        match k {
            0 => {
                what = "one value";
                let row = edge_row(r, c.n);
                inst[col][row] += if r.chance(50) { F::one() } else { r.f_nz() };
            }
            1 => {
                what = "random column";
                inst[col] = r.fs(c.n);
            }
            2 => match r.below(3) {
                0 => {
                    what = "shifted column";
                    inst[col].rotate_left(1);
                }
                1 => {
                    what = "zero column";
                    inst[col] = vec![F::zero(); c.n];
                }
                _ => {
                    what = "exchanged columns";
                    let o = r.below(c.ni);
                    inst.swap(col, o);
                }
            },
            _ => {
                // agrees with the proved inputs wherever the verifier looks
                what = "agrees at the queried points";
                if ch.len() < 5 {
                    continue;
                }
                let xi = ch[4];
                // the evaluation challenge is known by its position; also try all others
                let xi = if k == 7 { *r.pick(&ch) } else { xi };
                let pts: Vec<F> = c
                    .queried()
                    .iter()
                    .filter(|q| q.0 == K::I && q.1 == col)
                    .map(|q| xi * d.element(idx(0, q.2, c.n)))
                    .collect();
                let Some(m) = mask_poly(r, c.n, &pts) else { continue };
                for row in 0..c.n {
                    inst[col][row] += m.evaluate(&d.element(row));
                }
            }
        }
        if inst == a.i {
            continue;
        }
        cx.note(what);
        cx.eval();
        let v = s.verify::<PlainFs>(dup(&proof), &inst);
        cx.obs(format!("{}: {}", v.kind(), what));
        if v.accepted() {
            return Err(format!("proof accepted for different public inputs ({}, column {})", what, col));
        }
        let mut b = a.clone();
        b.i = inst;
        cx.obs(if c.check(&b).none() { "changed inputs still satisfy the circuit" } else { "changed inputs violate the circuit" });
        cx.sig(format!("{} {}", what, c.sig()));
    }
    Ok(())
}
fn p08(r: &mut R, cx: &mut Cx) -> CaseResult {
    if kzg_case(cx) {
        cx.obs("real KZG");
        p08_pc::<Kzg>(r, cx)
    } else {
        p08_pc::<TauPC>(r, cx)
    }
}

// ------------------------------------------------------------------ P09

fn p09_pc<PC: Scheme>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let mut cfg =
        Cfg { gates: (1, 3), lookups: (0, 2), perm: 60, zh: 35, max_deg: 3, max_perm: 5, ..Cfg::default() };
    cfg.ns = vec![4, 8, 8, 16];
    small(&mut cfg, cx);
    let (c, a) = gen(r, &cfg);
    cx.note(c.show());
    let (ck, vk) = keys::<PC>(c.n, 7);
    let names = zokmon::run::pick_names(r.u64());
    let p = Prep::<PC>::new(&c, &ck, &vk, names);
    let s = p.setup(&a).map_err(|e| format!("indexing: {}", e))?;
    let proof = s.prove::<PlainFs>(&a, r.u64()).map_err(|e| format!("proving failed: {}", e))?;
    if !s.verify::<PlainFs>(dup(&proof), &a.i).accepted() {
        cx.obs("honest proof not accepted");
        return Ok(());
    }
    cx.obs("control accepted");
    for _ in 0..7 {
        let mut b = c.clone();
        let mut sigma = None;
        let mut qb = None;
        let mut key = (ck.clone(), vk.clone());
        let mut always = false;
        let what;
        match r.below(12) {
            0 | 1 if !c.x.is_empty() => {
                what = "fixed column";
                let col = r.below(c.x.len());
                match r.below(3) {
                    0 => {
                        let row = edge_row(r, c.n);
                        b.x[col][row] += r.f_nz();
                    }
                    1 => b.x[col] = r.fs(c.n),
                    _ => {
                        let o = r.below(c.x.len());
                        b.x.swap(col, o);
                    }
                }
            }
            2 if !c.tables.is_empty() => {
                what = "lookup table";
                let col = r.below(c.tables.len());
                if r.chance(50) {
                    let from = b.tables[col][r.below(c.u)];
                    let to = r.f();
                    for x in b.tables[col].iter_mut() {
                        if *x == from {
                            *x = to;
                        }
                    }
                } else {
                    b.tables[col] = r.fs(c.n);
                }
            }
            3 | 4 if c.np() > 0 => {
                what = "copy permutation";
                let (j, k) = (r.below(c.np()), r.below(c.np()));
                let (x, y) = (edge_row(r, c.u), edge_row(r, c.u));
                let t = b.next[j][x];
                b.next[j][x] = b.next[k][y];
                b.next[k][y] = t;
            }
            5 => {
                what = "more gates";
                let g = if r.chance(50) && !c.gates.is_empty() {
                    let g = c.gates[r.below(c.gates.len())].clone();
                    let q: Vec<Q> = g.queries();
                    let (k, col, rot) = q[r.below(q.len())];
                    g + o(k, col, rot) * F::from(1 + r.below(3) as u64)
                } else {
                    // reads an already queried cell
                    let q: Vec<Q> = c.queried().into_iter().collect();
                    if q.is_empty() {
                        continue;
                    }
                    let (k, col, rot) = *r.pick(&q);
                    o(k, col, rot) * o(k, col, rot) - zokmon::circuit::c(r.f())
                };
                if r.chance(60) {
                    b.gates.push(g);
                } else {
                    b.gates.insert(0, g);
                }
            }
            6 if !c.gates.is_empty() => {
                what = "changed gate";
                let i = r.below(c.gates.len());
                let q: Vec<Q> = c.gates[i].queries();
                if q.is_empty() {
                    continue;
                }
                let (k, col, rot) = q[r.below(q.len())];
                b.gates[i] = b.gates[i].clone() - o(k, col, rot) * r.f_nz();
            }
            7 if !c.lookups.is_empty() => {
                what = "lookups";
                if r.chance(50) {
                    let l = r.below(c.lookups.len());
                    let e = r.below(c.lookups[l].exprs.len());
                    b.lookups[l].exprs[e] = b.lookups[l].exprs[e].clone() + zokmon::circuit::c(r.f_nz());
                } else {
                    let l = r.below(c.lookups.len());
                    if b.lookups[l].tables.len() < 2 {
                        continue;
                    }
                    b.lookups[l].tables.rotate_left(1);
                }
            }
            8 if c.needs_u() => {
                what = "blinding selector";
                let mut q = q_blind_evals(&c);
                let row = r.below(c.n);
                q[row] += if r.chance(50) { F::one() } else { -F::one() };
                qb = Some(q);
                always = true;
            }
            9 if c.np() > 0 => {
                what = "column separators";
                sigma = Some(sigma_evals(&c));
                let j = r.below(c.np());
                b.deltas[j] *= r.f_nz();
                if b.deltas[j] == c.deltas[j] {
                    continue;
                }
                always = true;
            }
            10 if c.t > 0 || c.needs_u() => {
                if c.t > 0 && r.chance(50) {
                    what = "vanishing polynomial";
                    b.t = r.below(c.t);
                } else {
                    what = "usable rows";
                    if b.u + 1 + b.t >= b.n {
                        continue;
                    }
                    b.u += 1;
                    for j in 0..b.np() {
                        b.next[j].push((j, c.u));
                    }
                    if b.np() > 0 {
                        let (j, k, y) = (r.below(b.np()), r.below(b.np()), r.below(c.u));
                        let t = b.next[j][c.u];
                        b.next[j][c.u] = b.next[k][y];
                        b.next[k][y] = t;
                    }
                }
            }
            11 => {
                what = "commitment key";
                key = keys::<PC>(c.n, 8 + r.below(3) as u64);
                always = true;
            }
            _ => continue,
        }
        // the other circuit must be a genuine one that the assignment violates
        let clash = b.opened().iter().any(|q| {
            b.opened().iter().any(|p| p.0 == q.0 && p.1 == q.1 && p.2 != q.2 && idx(0, p.2 - q.2, b.n) == 0)
        });
        if clash || !always && b.check(&a).none() {
            cx.obs(format!("still satisfied: {}", what));
            continue;
        }
        let pb = Prep::<PC>::with(
            &b,
            &key.0,
            &key.1,
            names,
            UMode::Proper,
            qb.unwrap_or_else(|| q_blind_evals(&b)),
            sigma.unwrap_or_else(|| sigma_evals(&b)),
        );
        cx.note(format!("{}: {}", what, b.show()));
        match pb.setup(&a) {
            Err(_) => cx.obs(format!("not indexable: {}", what)),
            Ok(sb) => {
                cx.eval();
                let v = sb.verify::<PlainFs>(dup(&proof), &a.i);
                cx.obs(format!("{}: {}", v.kind(), what));
                if v.accepted() {
                    return Err(format!("proof accepted by the verifier of a different circuit ({})", what));
                }
                cx.sig(format!("{} {}", what, c.sig()));
            }
        }
    }
    Ok(())
}
fn p09(r: &mut R, cx: &mut Cx) -> CaseResult {
    if kzg_case(cx) {
        cx.obs("real KZG");
        p09_pc::<Kzg>(r, cx)
    } else {
        p09_pc::<TauPC>(r, cx)
    }
}

const IDEAL: &str = "seven of eight cases use an idealised commitment scheme with the algebra of the real one";

fn main() {
    main_(&[
        Spec {
            id: "P04",
            level: "exploration",
            rule: "satisfied random circuits with one constraint class broken (one cell, exact residuals, gates or rows whose values sum to zero, fixed cells, extra gates), proved by the real prover from the violating assignment; a case is non-trivial when a proof was produced, reached the verifier, and the violation kind, gate, row and circuit signature are new",
            quick: 19200,
            thorough: 384000,
            require: &["control accepted", "real KZG", "reject: gates sum to zero", "opposite residuals eight or more gates apart", "reject: rows sum to zero", "violation in the last constrained row", "violation in the first row", "later gate violated", "reject: gate against all-zero copy product", "reject: gate against all-zero lookup product", "unconstrained rows changed: accepted"],
            assumptions: &[IDEAL, "false acceptance by chance has probability below 2^-200 per attempt"],
            case: p04,
        },
        Spec {
            id: "P05",
            level: "exploration",
            rule: "circuits with unequal linked cells, proved with honest and with dishonestly chosen running products (20 strategies, cancellation across products, gates and lookups); non-trivial when the strategy applied, a proof was produced and reached the verifier, and breakage, strategy, number of products and circuit signature are new",
            quick: 5200,
            thorough: 104000,
            require: &["control accepted", "real KZG", "reject: plain", "reject: start adjusted", "reject: broken link", "reject: link residuals cancel", "reject: row residuals of two products cancel", "reject: all zero against a gate residual", "reject: copy and lookup residuals cancel", "reject: end adjusted in the row before", "reject: own products", "reject: cells fit foreseen beta and gamma", "reject: cells in proportion to their positions (own products)"],
            assumptions: &[IDEAL, "dishonest provers follow the described strategies"],
            case: p05,
        },
        Spec {
            id: "P06",
            level: "exploration",
            rule: "circuits whose lookups fail on some usable row, proved with dishonest permuted columns and running products (6 x 14 strategies, cancellations between lookup conditions, products and gates); non-trivial when a proof was produced and reached the verifier and breakage, strategy and circuit signature are new",
            quick: 5200,
            thorough: 104000,
            require: &["control accepted", "real KZG", "reject: value added to the table column / plain", "reject: value first, preceded by itself / own", "reject: value paired with a foreign table entry / own", "reject: first pair against a gate residual", "reject: later pair against a gate residual", "reject: first pair against the preceding value", "reject: row residuals of two lookups cancel", "reject: start of the product against a gate residual", "reject: tuple fits a foreseen theta", "reject: inputs and table entries changed places", "reject: inputs of which only the product agrees", "reject: table of which only the product agrees"],
            assumptions: &[IDEAL, "dishonest provers follow the described strategies"],
            case: p06,
        },
        Spec {
            id: "P08",
            level: "exploration",
            rule: "valid proofs verified with changed public-input columns: single values, whole columns, and columns chosen after the proof to agree with the proved ones at every queried point; non-trivial per kind of change and circuit signature",
            quick: 12800,
            thorough: 256000,
            require: &["control accepted", "real KZG", "reject: one value", "reject: agrees at the queried points", "changed inputs still satisfy the circuit"],
            assumptions: &[IDEAL],
            case: p08,
        },
        Spec {
            id: "P09",
            level: "exploration",
            rule: "valid proofs checked by the verifier of a circuit that differs in one preprocessed component and that the assignment violates; non-trivial per component and circuit signature",
            quick: 4800,
            thorough: 96000,
            require: &["control accepted", "real KZG", "reject: fixed column", "reject: lookup table", "reject: copy permutation", "reject: more gates", "reject: changed gate", "reject: lookups", "reject: blinding selector", "reject: column separators", "reject: vanishing polynomial", "reject: usable rows", "reject: commitment key"],
            assumptions: &[IDEAL],
            case: p09,
        },
    ]);
}
use zokmon::report::main as main_;
