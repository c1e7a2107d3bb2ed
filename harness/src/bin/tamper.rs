//! Proofs as data: alterations (P07), transcripts (P10), authentication of the
//! claimed evaluations (P11), malformed proofs (P13), verdicts in sequence
//! (P14), serialization (P15), blinding (P16).
use ark_ff::{Field, One, ToBytes, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::collections::{BTreeMap, BTreeSet};
use zokmon::circuit::*;
use zokmon::fs::{self, PlainFs, RecFs};
use zokmon::proofs::*;
use zokmon::report::*;
use zokmon::run::*;
use zokmon::taupc::{self, TauPC};
use zokmon::util::*;
use zokmon::*;

fn kzg_case(cx: &Cx) -> bool {
    cx.idx % 8 == 7
}
fn config(r: &mut R, cx: &Cx) -> Cfg {
    let mut cfg = Cfg { ns: vec![4, 8, 8, 16], gates: (1, 3), lookups: (0, 2), perm: 60, max_perm: 7, zh: 25, max_deg: 4, ..Cfg::default() };
    match cx.idx % 7 {
        0 => {
            cfg.lookups = (0, 0);
            cfg.perm = 0;
            cfg.flat = cx.idx % 21 == 0
        }
        1 => {
            cfg.gates = (0, 1);
            cfg.lookups = (1, 2)
        }
        2 => {
            cfg.perm = 100;
            cfg.max_perm = 10;
            cfg.max_deg = 2
        }
        3 => {
            cfg.perm = 100;
            cfg.lookups = (1, 2)
        }
        _ => {}
    }
    if kzg_case(cx) {
        cfg.ns = vec![4, 8];
        cfg.max_perm = 4;
    }
    if r.chance(30) {
        cfg.inst = 100;
    }
    // many quotient chunks
    if cx.idx % 9 == 5 && !kzg_case(cx) {
        cfg.ns = vec![4, 8];
        cfg.gates = (1, 2);
        cfg.lookups = (0, 1);
        cfg.max_deg = 14;
        cfg.max_perm = 4;
    }
    cfg
}
fn observe<PC: Scheme>(cx: &mut Cx, c: &Circuit, p: &mut Pf<PC>) {
    for k in 0..5 {
        if !comms(p, k).is_empty() {
            cx.obs(format!("proof with {}", COMMS[k]));
        }
    }
    for k in 0..9 {
        if !evals(p, k).is_empty() {
            cx.obs(format!("proof with {}", EVALS[k]));
        }
    }
    if c.ni > 0 {
        cx.obs("public inputs");
    }
    if p.quotient_chunk_commitments.len() > 8 {
        cx.obs("more than eight quotient chunks");
    }
    if p.multiopen_proof.q_evals.len() == 1 {
        cx.obs("a single opening set");
    }
}

/// Runs the body with keys and a proof of a random satisfied circuit; circuits
/// the code cannot prove at all are left to the completeness checks.
macro_rules! with_proof {
    ($r:ident, $cx:ident, $cfg:expr, $edit:expr, |$c:ident, $a:ident, $s:ident, $p:ident| $body:block) => {{
        let cfg = $cfg;
        #[allow(unused_mut)]
        let (mut $c, mut $a) = gen($r, &cfg);
        #[allow(clippy::redundant_closure_call)]
        ($edit)(&mut *$r, &mut $c, &mut $a);
        let ($c, $a) = ($c, $a);
        if !$c.check(&$a).none() {
            return Err(format!("generator bug: {:?}", $c.check(&$a)));
        }
        let (ck, vk) = keys::<PC>($c.n, 7);
        let names = zokmon::run::pick_names($r.u64());
        let prep = Prep::<PC>::new(&$c, &ck, &vk, names);
        let $s = match prep.setup(&$a) {
            Ok(s) => s,
            Err(_) => {
                $cx.obs("skipped: not indexable");
                return Ok(());
            }
        };
        #[allow(unused_mut)]
        let mut $p = match $s.prove::<PlainFs>(&$a, $r.u64()) {
            Ok(p) => p,
            Err(_) => {
                $cx.obs("skipped: not provable");
                return Ok(());
            }
        };
        $cx.note($c.show());
        $body
    }};
}
fn no_edit(_: &mut R, _: &mut Circuit, _: &mut Assign) {}

macro_rules! both {
    ($f:ident, $pc:ident) => {
        fn $f(r: &mut R, cx: &mut Cx) -> CaseResult {
            if kzg_case(cx) {
                cx.obs("real KZG");
                $pc::<Kzg>(r, cx)
            } else {
                $pc::<TauPC>(r, cx)
            }
        }
    };
}

// ------------------------------------------------------------------ P07

fn p07_pc<PC: Open>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    with_proof!(r, cx, config(r, cx), no_edit, |c, a, s, p| {
        if !s.verify::<PlainFs>(copy::<PC>(&p), &a.i).accepted() {
            cx.obs("skipped: honest proof not accepted");
            return Ok(());
        }
        cx.obs("honest proof accepted");
        let mut other = match s.prove::<PlainFs>(&a, r.u64()) {
            Ok(o) => o,
            Err(_) => return Ok(()),
        };
        observe::<PC>(cx, &c, &mut p);
        let honest = bytes(&p);
        let mut muts = all_mutations::<PC>(&mut p);
        r.shuffle(&mut muts);
        let keep = if PC::NAME == "KZG" {
            14
        } else if cx.thorough {
            muts.len()
        } else {
            120
        };
        // elements are covered before pairs of elements
        muts.sort_by_key(|m| matches!(m, Mut::CopyComm { .. } | Mut::CopyEval { .. } | Mut::Move { .. } | Mut::List { way: 2, .. }));
        let singles = muts.iter().take_while(|m| !matches!(m, Mut::CopyComm { .. } | Mut::CopyEval { .. } | Mut::Move { .. } | Mut::List { way: 2, .. })).count();
        let mut chosen: Vec<Mut> = muts[..singles].to_vec();
        if keep < chosen.len() {
            chosen.truncate(keep * 2 / 3);
        }
        chosen.extend(muts[singles..].iter().take((keep / 3).max(keep.saturating_sub(singles))).cloned());
        for m in chosen {
            let mut q: Pf<PC> = copy::<PC>(&p);
            let what = match alter::<PC>(r, &mut q, &mut other, &m) {
                Some(w) => w,
                None => continue,
            };
            if bytes(&q) == honest || bytes(&q) == bytes(&other) {
                continue;
            }
            cx.eval();
            match s.verify::<PlainFs>(q, &a.i) {
                Verdict::Reject(_) => {
                    cx.obs(format!("rejected: {}", what));
                    cx.sig(format!("{} {} {:?}", what, c.sig(), m));
                }
                v => return Err(format!("altered proof not rejected ({}; {:?}): {:?}", what, m, v)),
            }
        }
        // several alterations at once
        for _ in 0..(if PC::NAME == "KZG" { 2 } else { 12 }) {
            let mut q: Pf<PC> = copy::<PC>(&p);
            let mut what = vec![];
            for _ in 0..r.range(2, 4) {
                let m = r.pick(&all_mutations::<PC>(&mut q)).clone();
                if let Some(w) = alter::<PC>(r, &mut q, &mut other, &m) {
                    what.push(w);
                }
            }
            if bytes(&q) == honest || bytes(&q) == bytes(&other) {
                continue;
            }
            cx.eval();
            match s.verify::<PlainFs>(q, &a.i) {
                Verdict::Reject(_) => cx.obs("rejected: several alterations"),
                v => return Err(format!("altered proof not rejected ({:?}): {:?}", what, v)),
            }
        }
        cx.sample(format!("{} counts {:?}", c.show(), counts::<PC>(&mut p)));
        Ok(())
    })
}
both!(p07, p07_pc);

// ------------------------------------------------------------------ P10

const ALPHA: usize = 3;
const XI: usize = 4;
/// first challenge drawn after each list of commitments
const COMM_STAGE: [usize; 5] = [0, 1, 3, 3, 4];

fn differ(base: &[F], now: &[F], from: usize, forced: &[usize]) -> Result<usize, usize> {
    let mut seen = 0;
    for i in from..base.len().min(now.len()) {
        if forced.contains(&i) {
            continue;
        }
        if base[i] == now[i] {
            return Err(i);
        }
        seen += 1;
    }
    Ok(seen)
}
const NAMES: [&str; 9] = ["theta", "beta", "gamma", "alpha", "xi", "x1", "x2", "x3", "x4"];

/// a first gate that vanishes identically
fn trivial_first_gate(_: &mut R, c: &mut Circuit, _: &mut Assign) {
    let w = o(K::W, 0, c.queried().iter().find(|q| q.0 == K::W && q.1 == 0).map(|q| q.2).unwrap_or(0));
    let g = E::Add(Box::new(w.clone()), Box::new(E::Neg(Box::new(w))));
    c.gates.insert(0, g);
}

fn p10_pc<PC: Open>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    with_proof!(r, cx, config(r, cx), trivial_first_gate, |c, a, s, p| {
        let _ = &p;
        // same transcript on both sides
        fs::reset();
        let zk = r.u64();
        let p1 = match s.prove::<RecFs>(&a, zk) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        let lp = fs::take_log();
        let v = s.verify::<RecFs>(copy::<PC>(&p1), &a.i);
        let lv = fs::take_log();
        let (cp, cv) = (fs::challenges(&lp), fs::challenges(&lv));
        cx.eval();
        let (bp, bv) = (fs::absorbed_before(&lp), fs::absorbed_before(&lv));
        for i in 0..cp.len().min(cv.len()) {
            if bp[i] != bv[i] {
                return Err(format!("prover and verifier absorbed different data before challenge {}", NAMES[i.min(8)]));
            }
            if cp[i] != cv[i] {
                return Err(format!("prover and verifier drew different challenges {}", NAMES[i.min(8)]));
            }
        }
        if v.accepted() {
            cx.obs("honest proof accepted");
            cx.obs_n("challenges compared", cp.len() as u64);
            if cp.len() != cv.len() {
                return Err(format!("prover drew {} challenges, verifier {}", cp.len(), cv.len()));
            }
            for i in 0..cp.len() {
                for j in 0..i {
                    if cp[i] == cp[j] {
                        return Err(format!("challenges {} and {} are equal", NAMES[j.min(8)], NAMES[i.min(8)]));
                    }
                }
            }
            if cp.len() != NAMES.len() {
                // another protocol: positions are not what the rest assumes
                cx.obs("unknown number of challenges");
                return Ok(());
            }
        } else if cv.len() < 5 {
            cx.obs("skipped: honest proof stops early");
            return Ok(());
        }

        // a run in which the identity holds for any claimed values
        fs::reset();
        fs::force(ALPHA, F::zero());
        let p0 = match s.prove::<RecFs>(&a, zk) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        let lp0 = fs::take_log();
        let v0 = s.verify::<RecFs>(copy::<PC>(&p0), &a.i);
        let base = fs::challenges(&fs::take_log());
        let free = v0.accepted() && base.len() == NAMES.len();
        if free {
            cx.obs("free-evaluation run accepted");
            if fs::challenges(&lp0) != base {
                return Err("prover and verifier drew different challenges (free-evaluation run)".into());
            }
        }
        let mut other = match s.prove::<RecFs>(&a, zk ^ 1) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        fs::take_log();
        let run = |q: Pf<PC>, inst: &[Vec<F>]| -> Vec<F> {
            let _ = s.verify::<RecFs>(q, inst);
            fs::challenges(&fs::take_log())
        };
        let forced = [ALPHA];
        let p0 = &p0;
        let mut tmp: Pf<PC> = copy::<PC>(p0);
        observe::<PC>(cx, &c, &mut tmp);
        let mut todo: Vec<(Mut, usize, String)> = vec![];
        for m in all_mutations::<PC>(&mut tmp) {
            let (stage, name) = match &m {
                Mut::Comm { k, .. } => (COMM_STAGE[*k], COMMS[*k]),
                Mut::Splice { part, .. } if *part < 5 => (COMM_STAGE[*part], COMMS[*part]),
                Mut::List { l, way, .. } if *l < 5 && matches!(way, 2 | 6 | 7) => (COMM_STAGE[*l], COMMS[*l]),
                Mut::CopyComm { k, k2, .. } => (COMM_STAGE[*k].min(COMM_STAGE[*k2]), "commitment pair"),
                Mut::FCommit(_) if free => (7, "f_commit"),
                Mut::Eval { k: Q_EVALS, .. } if free => (8, EVALS[Q_EVALS]),
                Mut::Eval { k, .. } if free && *k != CHUNK_EVALS => (5, EVALS[*k]),
                Mut::CopyEval { k, k2, .. } if free && *k != CHUNK_EVALS && *k2 != CHUNK_EVALS && *k != Q_EVALS && *k2 != Q_EVALS => (5, "evaluation pair"),
                Mut::QBlind(_) if free => (5, "q_blind_eval"),
                _ => continue,
            };
            todo.push((m, stage, name.to_string()));
        }
        r.shuffle(&mut todo);
        if PC::NAME == "KZG" {
            todo.truncate(12);
        } else if !cx.thorough {
            todo.truncate(90);
        }
        for (m, stage, name) in todo {
            let mut q: Pf<PC> = copy::<PC>(p0);
            let before = bytes(&q);
            if alter::<PC>(r, &mut q, &mut other, &m).is_none() || bytes(&q) == before {
                continue;
            }
            let now = run(q, &a.i);
            cx.eval();
            match differ(&base, &now, stage, &forced) {
                Ok(0) => cx.obs(format!("no later challenge observed: {}", name)),
                Ok(_) => {
                    cx.obs(format!("challenges moved: {}", name));
                    cx.sig(format!("{:?} {}", m, c.sig()));
                }
                Err(i) => {
                    return Err(format!("challenge {} does not depend on {} ({:?})", NAMES[i.min(8)], name, m));
                }
            }
        }
        // two elements changed so that their collection or their sum stays
        for _ in 0..if PC::NAME == "KZG" { 3 } else { 16 } {
            let mut q: Pf<PC> = copy::<PC>(p0);
            let what;
            let stage;
            if free && r.chance(60) {
                let places: Vec<(usize, usize)> =
                    (0..9).filter(|k| *k != CHUNK_EVALS && *k != Q_EVALS).flat_map(|k| (0..evals(&mut tmp, k).len()).map(move |i| (k, i))).collect();
                let qp: Vec<(usize, usize)> = (0..tmp.multiopen_proof.q_evals.len()).map(|i| (Q_EVALS, i)).collect();
                let l = if r.chance(20) { &qp } else { &places };
                if l.len() < 2 {
                    continue;
                }
                let x = *r.pick(l);
                let same: Vec<(usize, usize)> = l.iter().filter(|y| y.0 == x.0).cloned().collect();
                let y = if r.chance(70) { *r.pick(&same) } else { *r.pick(l) };
                let (vx, vy) = (evals(&mut q, x.0)[x.1], evals(&mut q, y.0)[y.1]);
                if x == y {
                    continue;
                }
                stage = if x.0 == Q_EVALS { 8 } else { 5 };
                if r.chance(50) {
                    evals(&mut q, x.0)[x.1] = vy;
                    evals(&mut q, y.0)[y.1] = vx;
                    what = "two evaluations exchanged";
                } else {
                    let d = r.f_nz();
                    evals(&mut q, x.0)[x.1] = vx + d;
                    evals(&mut q, y.0)[y.1] = vy - d;
                    what = "two evaluations with the same sum";
                }
            } else {
                let l: Vec<(usize, usize)> = (0..5).flat_map(|k| (0..comms(&mut q, k).len()).map(move |i| (k, i)).collect::<Vec<_>>()).collect();
                if l.len() < 2 {
                    continue;
                }
                let x = *r.pick(&l);
                let same: Vec<(usize, usize)> = l.iter().filter(|y| y.0 == x.0).cloned().collect();
                let y = *r.pick(&same);
                if x == y {
                    continue;
                }
                stage = COMM_STAGE[x.0];
                let (vx, vy) = (comms(&mut q, x.0)[x.1].clone(), comms(&mut q, y.0)[y.1].clone());
                let d = random_comm::<PC>(r, &vx);
                comms(&mut q, x.0)[x.1] = PC::add(&vx, &d);
                comms(&mut q, y.0)[y.1] = PC::add(&vy, &PC::neg_com(&d));
                what = "two commitments with the same sum";
            }
            if bytes(&q) == bytes(p0) {
                continue;
            }
            let now = run(q, &a.i);
            cx.eval();
            match differ(&base, &now, stage, &forced) {
                Ok(0) => cx.obs(format!("no later challenge observed: {}", what)),
                Ok(_) => cx.obs(format!("challenges moved: {}", what)),
                Err(i) => return Err(format!("challenge {} does not depend on everything sent before it ({})", NAMES[i.min(8)], what)),
            }
        }
        // quotient chunk evaluations: two changed so that the identity still holds
        if free && tmp.quotient_chunks_evals.len() >= 2 {
            let mut q: Pf<PC> = copy::<PC>(p0);
            let (d, i) = (r.f_nz(), r.below(q.quotient_chunks_evals.len() - 1));
            q.quotient_chunks_evals[i] += d;
            q.quotient_chunks_evals[i + 1] -= d * pow(base[4], c.n).inverse().unwrap();
            let now = run(q, &a.i);
            cx.eval();
            match differ(&base, &now, 5, &forced) {
                Ok(0) => cx.obs("no later challenge observed: quotient_chunks_evals"),
                Ok(_) => cx.obs("challenges moved: quotient_chunks_evals"),
                Err(i) => return Err(format!("challenge {} does not depend on quotient_chunks_evals", NAMES[i.min(8)])),
            }
        }
        // and two changed in few bits, at a point where they weigh the same
        if free && tmp.quotient_chunks_evals.len() >= 2 && r.chance(60) {
            let two = [ALPHA, XI];
            use ark_poly::EvaluationDomain;
            let wide = domain(2 * c.n);
            fs::reset();
            fs::force(ALPHA, F::zero());
            fs::force(XI, wide.element(1 + 2 * r.below(c.n)));
            if let Ok(p2) = s.prove::<RecFs>(&a, zk) {
                fs::take_log();
                let ok = s.verify::<RecFs>(copy::<PC>(&p2), &a.i).accepted();
                let base2 = fs::challenges(&fs::take_log());
                if ok && base2.len() == NAMES.len() {
                    for t in 0..6 {
                        let mut q: Pf<PC> = copy::<PC>(&p2);
                        let i = r.below(q.quotient_chunks_evals.len() - 1);
                        let b = match t % 3 {
                            0 => 240 + r.below(14),
                            1 => r.below(8),
                            _ => r.below(250),
                        };
                        let d = F::from(2u64).pow([b as u64]) * if r.chance(50) { F::one() } else { -F::one() };
                        q.quotient_chunks_evals[i] += d;
                        q.quotient_chunks_evals[i + 1] += d;
                        let now = run(q, &a.i);
                        cx.eval();
                        match differ(&base2, &now, 5, &two) {
                            Ok(0) => cx.obs("no later challenge observed: quotient_chunks_evals, few bits"),
                            Ok(_) => cx.obs("challenges moved: quotient_chunks_evals, few bits"),
                            Err(i) => return Err(format!("challenge {} does not depend on quotient_chunks_evals (few bits)", NAMES[i.min(8)])),
                        }
                    }
                }
            }
            fs::reset();
            fs::force(ALPHA, F::zero());
        }
        // public inputs
        if c.ni > 0 {
            for t in 0..12 {
                let (inst, what) = other_instance(r, &c, &a.i, t);
                if inst == a.i {
                    continue;
                }
                let now = run(copy::<PC>(p0), &inst);
                cx.eval();
                match differ(&base, &now, 0, &forced) {
                    Ok(0) => cx.obs("no later challenge observed: public input"),
                    Ok(_) => {
                        cx.obs(format!("challenges moved: {}", what));
                        cx.sig(format!("{} {}", what, c.sig()));
                    }
                    Err(i) => return Err(format!("challenge {} does not depend on the public inputs ({})", NAMES[i.min(8)], what)),
                }
                // and so does the prover
                if t < 2 {
                    let mut b = a.clone();
                    b.i = inst.clone();
                    if c.check(&b).none() {
                        if s.prove::<RecFs>(&b, zk).is_ok() {
                            let now = fs::challenges(&fs::take_log());
                            cx.eval();
                            if let Err(i) = differ(&base, &now, 0, &forced) {
                                return Err(format!("the prover's challenge {} does not depend on the public inputs", NAMES[i.min(8)]));
                            }
                            cx.obs("prover challenges moved: public input");
                        }
                        fs::take_log();
                    }
                }
            }
            // boundaries between columns
            if c.ni >= 2 {
                let (x, y, z) = (r.f_nz(), r.f_nz(), r.f_nz());
                let poly = |v: &[F]| {
                    let mut k = v.to_vec();
                    k.resize(c.n, F::zero());
                    use ark_poly::EvaluationDomain;
                    domain(c.n).fft(&k)
                };
                for (l, m) in [([vec![x, y], vec![z]], [vec![x], vec![y, z]]), ([vec![], vec![x, y]], [vec![x, y], vec![]]), ([vec![x], vec![]], [vec![], vec![x]])] {
                    let at = r.below(c.ni - 1);
                    let (mut i1, mut i2) = (a.i.clone(), a.i.clone());
                    for k in 0..2 {
                        i1[at + k] = poly(&l[k]);
                        i2[at + k] = poly(&m[k]);
                    }
                    let (n1, n2) = (run(copy::<PC>(p0), &i1), run(copy::<PC>(p0), &i2));
                    cx.eval();
                    if let Err(i) = differ(&n1, &n2, 0, &forced) {
                        return Err(format!("challenge {} does not depend on which public column holds a value", NAMES[i.min(8)]));
                    }
                    cx.obs("challenges moved: column boundary");
                }
            }
        }
        fs::reset();
        cx.sample(c.show());
        Ok(())
    })
}
both!(p10, p10_pc);

/// A different assignment of the public columns.
fn other_instance(r: &mut R, c: &Circuit, i: &[Vec<F>], t: usize) -> (Vec<Vec<F>>, &'static str) {
    let mut v = i.to_vec();
    let k = r.below(v.len());
    let row = match r.below(4) {
        0 => 0,
        1 => c.n - 1,
        _ => r.below(c.n),
    };
    let what = match t % 8 {
        0 => {
            v[k][row] += F::one();
            "one public value changed"
        }
        1 => {
            v[k][row] = r.f();
            "one public value changed"
        }
        2 => {
            // coefficients shifted
            use ark_poly::EvaluationDomain;
            let mut co = domain(c.n).ifft(&v[k]);
            co.rotate_right(1);
            v[k] = domain(c.n).fft(&co);
            "coefficients of a public column shifted"
        }
        3 => {
            let m = r.below(v.len());
            v.swap(k, m);
            "public columns exchanged"
        }
        4 => {
            v[k].rotate_left(1);
            "public rows rotated"
        }
        5 => {
            // the constant or the leading coefficient only
            let d = r.f_nz();
            let lead = r.chance(50);
            for (j, x) in v[k].iter_mut().enumerate() {
                use ark_poly::EvaluationDomain;
                *x += if lead { d * pow(domain(c.n).element(j), c.n - 1) } else { d };
            }
            "one coefficient of a public column changed"
        }
        6 => {
            // one byte of one coefficient
            use ark_poly::EvaluationDomain;
            let mut co = domain(c.n).ifft(&v[k]);
            co[row] = r.one_byte(co[row]);
            v[k] = domain(c.n).fft(&co);
            "one byte of a public coefficient changed"
        }
        _ => {
            v[k] = vec![F::zero(); c.n];
            "public column zeroed"
        }
    };
    (v, what)
}

// ------------------------------------------------------------------ P11

/// A direction in the space of claimed values that keeps the identity.
#[derive(Clone, Debug)]
struct Dir {
    name: String,
    at: Vec<(usize, usize, F)>,
    qblind: bool,
    q_eval: bool,
}
fn step<PC: Scheme>(p: &mut Pf<PC>, d: &Dir, x: F) {
    for (k, i, w) in &d.at {
        evals(p, *k)[*i] += *w * x;
    }
    if d.qblind {
        p.q_blind_eval += x;
    }
}

fn p11_pc<PC: Open>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let tau = PC::NAME != "KZG";
    with_proof!(r, cx, config(r, cx), trivial_first_gate, |c, a, s, p| {
        let _ = &p;
        fs::reset();
        fs::force(ALPHA, F::zero());
        let zk = r.u64();
        let mut p0 = match s.prove::<RecFs>(&a, zk) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        fs::take_log();
        let ok = s.verify::<RecFs>(copy::<PC>(&p0), &a.i).accepted();
        let base = fs::challenges(&fs::take_log());
        if !ok || base.len() != NAMES.len() {
            cx.obs("skipped: free-evaluation run not accepted");
            return Ok(());
        }
        cx.obs("free-evaluation run accepted");
        observe::<PC>(cx, &c, &mut p0);
        let mut dirs: Vec<Dir> = vec![];
        for k in 0..9 {
            if k == CHUNK_EVALS {
                continue;
            }
            for i in 0..evals(&mut p0, k).len() {
                dirs.push(Dir { name: EVALS[k].into(), at: vec![(k, i, F::one())], qblind: false, q_eval: k == Q_EVALS });
            }
        }
        dirs.push(Dir { name: "q_blind_eval".into(), at: vec![], qblind: true, q_eval: false });
        let xn = pow(base[4], c.n);
        let nch = p0.quotient_chunks_evals.len();
        for i in 0..nch {
            for j in 0..nch {
                if i < j {
                    let w = xn.pow([(j - i) as u64]).inverse().unwrap();
                    dirs.push(Dir {
                        name: "quotient_chunks_evals".into(),
                        at: vec![(CHUNK_EVALS, i, F::one()), (CHUNK_EVALS, j, -w)],
                        qblind: false,
                        q_eval: false,
                    });
                }
            }
        }
        // the last two chunks always stay
        let last = dirs.len() - 1;
        r.shuffle(&mut dirs[..last]);
        dirs.reverse();
        if !tau {
            dirs.truncate(10);
        } else if !cx.thorough {
            dirs.truncate(60);
        }
        // honest opening value
        taupc::take_checked();
        let _ = s.verify::<RecFs>(copy::<PC>(&p0), &a.i);
        fs::take_log();
        let v0 = taupc::take_checked();
        let mut slope: Vec<Option<F>> = vec![];
        for d in &dirs {
            let mut q: Pf<PC> = copy::<PC>(&p0);
            step::<PC>(&mut q, d, F::one());
            cx.eval();
            let v = s.verify::<RecFs>(q, &a.i);
            fs::take_log();
            let val = taupc::take_checked();
            match v {
                Verdict::Reject(e) => {
                    if e.contains("QuotientNotZero") {
                        cx.obs(format!("rejected before the opening: {}", d.name));
                    } else {
                        cx.obs(format!("false value rejected: {}", d.name));
                        cx.sig(format!("single {:?} {}", d.at.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), c.sig()));
                    }
                }
                v => return Err(format!("false claimed value not rejected: {} {:?}: {:?}", d.name, d.at, v)),
            }
            slope.push(match (val, v0) {
                (Some((_, x)), Some((_, y))) => Some(x - y),
                _ => None,
            });
            // a random step, with the challenges as they are
            let mut q: Pf<PC> = copy::<PC>(&p0);
            step::<PC>(&mut q, d, r.f_nz());
            cx.eval();
            match s.verify::<PlainFs>(copy::<PC>(&q), &a.i) {
                Verdict::Accept => return Err(format!("false claimed value accepted: {}", d.name)),
                _ => {}
            }
            let v = s.verify::<RecFs>(q, &a.i);
            fs::take_log();
            if v.accepted() {
                return Err(format!("false claimed value accepted: {} {:?}", d.name, d.at));
            }
        }
        // a prover that redoes the opening for the challenges its false value
        // leads to: dictated challenges stand in for it
        let held: std::collections::BTreeMap<usize, F> = base.iter().cloned().enumerate().collect();
        fs::force_all(&held);
        for d in &dirs {
            let mut q: Pf<PC> = copy::<PC>(&p0);
            step::<PC>(&mut q, d, r.f_nz());
            cx.eval();
            let v = s.verify::<RecFs>(q, &a.i);
            fs::take_log();
            match v {
                Verdict::Accept => return Err(format!("false claimed value accepted once the opening is redone: {} {:?}", d.name, d.at)),
                _ => cx.obs(format!("reopened: {}", d.name)),
            }
        }
        // combinations of false values that no batching challenge tells apart
        // (pairs of chunks: only an independent set of them)
        let free: Vec<&Dir> = dirs.iter().filter(|d| !d.q_eval && (d.at.len() < 2 || d.at[0].1 == 0)).collect();
        if tau && cx.idx % 8 == 1 && free.len() <= 40 {
            let mut rows: Vec<Vec<F>> = vec![];
            let mut whole = true;
            for _ in 0..free.len() + 4 {
                for k in 5..9 {
                    fs::force(k, r.f_nz());
                }
                let mut at = |d: Option<&Dir>| {
                    let mut q: Pf<PC> = copy::<PC>(&p0);
                    if let Some(d) = d {
                        step::<PC>(&mut q, d, F::one());
                    }
                    taupc::take_checked();
                    let _ = s.verify::<RecFs>(q, &a.i);
                    fs::take_log();
                    taupc::take_checked()
                };
                let v0 = at(None);
                let mut row = vec![];
                for d in &free {
                    match (at(Some(d)), v0) {
                        (Some((_, x)), Some((_, y))) => row.push(x - y),
                        _ => whole = false,
                    }
                }
                rows.push(row);
            }
            if whole {
                cx.eval();
                if let Some(v) = kernel(rows, free.len()) {
                    let who: Vec<_> = (0..v.len()).filter(|k| !v[*k].is_zero()).map(|k| (&free[k].name, &free[k].at)).collect();
                    return Err(format!("false values that no batching challenge tells from the true ones: {:?}", who));
                }
                cx.obs("batching challenges tell all false values apart");
            }
        }
        fs::reset();
        fs::force(ALPHA, F::zero());
        // two false values chosen, after seeing the challenges, to cancel in the opening
        if tau {
            let n = dirs.len();
            let mut pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
            r.shuffle(&mut pairs);
            pairs.truncate(if cx.thorough { 600 } else { 120 });
            for (i, j) in pairs {
                let (si, sj) = match (slope[i], slope[j]) {
                    (Some(x), Some(y)) => (x, y),
                    _ => continue,
                };
                if si.is_zero() || sj.is_zero() {
                    continue;
                }
                let mut q: Pf<PC> = copy::<PC>(&p0);
                let x = r.f_nz();
                step::<PC>(&mut q, &dirs[i], x);
                step::<PC>(&mut q, &dirs[j], -x * si * sj.inverse().unwrap());
                cx.eval();
                let v = s.verify::<RecFs>(q, &a.i);
                fs::take_log();
                if v.accepted() {
                    return Err(format!("two false values that cancel accepted: {} {:?} and {} {:?}", dirs[i].name, dirs[i].at, dirs[j].name, dirs[j].at));
                }
                cx.obs("cancelling pair rejected");
                if i % 3 == 0 {
                    cx.sig(format!("pair {} {} {}", dirs[i].name, dirs[j].name, c.sig()));
                }
            }
            // pairs weighted by powers of the batching challenges
            for _ in 0..(if cx.thorough { 300 } else { 60 }) {
                let (i, j) = (r.below(n), r.below(n));
                if i == j || dirs[i].q_eval || dirs[j].q_eval {
                    continue;
                }
                let ch = base[r.range(5, 8)];
                let e = r.below(8) as u64;
                let mut w = ch.pow([e]);
                if r.chance(50) {
                    w = w.inverse().unwrap();
                }
                let mut q: Pf<PC> = copy::<PC>(&p0);
                let x = r.f_nz();
                step::<PC>(&mut q, &dirs[i], x);
                step::<PC>(&mut q, &dirs[j], -x * w);
                cx.eval();
                let v = s.verify::<RecFs>(q, &a.i);
                fs::take_log();
                if v.accepted() {
                    return Err(format!("two false values with ratio a batching challenge accepted: {} {:?} and {} {:?}", dirs[i].name, dirs[i].at, dirs[j].name, dirs[j].at));
                }
                cx.obs("weighted pair rejected");
            }
        }
        fs::reset();
        cx.sample(format!("{} values {:?}", c.show(), counts::<PC>(&mut p0)));
        Ok(())
    })
}
both!(p11, p11_pc);

// ------------------------------------------------------------------ P13

fn no_panic(cx: &mut Cx, v: Verdict, what: &str) -> CaseResult {
    cx.eval();
    match v {
        Verdict::Panic(e) => Err(format!("verifier crashed on a proof ({}): {}", what, e)),
        v => {
            cx.obs(format!("{}: {}", v.kind(), what));
            Ok(())
        }
    }
}

fn p13_pc<PC: Open>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let kzg = PC::NAME == "KZG";
    let free = !kzg && cx.idx % 2 == 0;
    let edit = |r: &mut R, c: &mut Circuit, a: &mut Assign| {
        if free {
            trivial_first_gate(r, c, a)
        }
    };
    with_proof!(r, cx, config(r, cx), edit, |c, a, s, p| {
        let mut other = match s.prove::<PlainFs>(&a, r.u64()) {
            Ok(o) => o,
            Err(_) => return Ok(()),
        };
        observe::<PC>(cx, &c, &mut p);
        no_panic(cx, s.verify::<PlainFs>(copy::<PC>(&p), &a.i), "honest")?;
        // element counts
        for l in 0..14 {
            let n = counts::<PC>(&mut p)[l];
            let mut sizes: BTreeSet<usize> = BTreeSet::from([0, 1, n.saturating_sub(1), n + 1, 2 * n, n + 7]);
            sizes.insert(r.below(40));
            sizes.remove(&n);
            for z in sizes {
                if kzg && r.chance(80) {
                    continue;
                }
                let mut q: Pf<PC> = copy::<PC>(&p);
                resize::<PC>(r, &mut q, l, z);
                let name = if l < 5 { COMMS[l] } else { EVALS[l - 5] };
                no_panic(cx, s.verify::<PlainFs>(q, &a.i), &format!("{} elements {}", if z < n { "fewer" } else { "more" }, name))?;
                cx.sig(format!("{} {} {} {}", l, z, n, c.sig()));
            }
        }
        for _ in 0..(if kzg { 3 } else { 40 }) {
            let mut q: Pf<PC> = copy::<PC>(&p);
            let style = r.below(3);
            for l in 0..14 {
                let n = counts::<PC>(&mut q)[l];
                let z = match style {
                    0 => r.below(n + 3),
                    1 => r.below(4),
                    _ => {
                        if r.chance(15) {
                            r.below(2 * n + 2)
                        } else {
                            n
                        }
                    }
                };
                resize::<PC>(r, &mut q, l, z);
            }
            let sig = format!("{:?}", counts::<PC>(&mut q));
            no_panic(cx, s.verify::<PlainFs>(q, &a.i), "random counts")?;
            cx.sig(sig);
        }
        // contents; the identity is neutralised in some runs so that the opening is reached
        for t in 0..(if kzg { 3 } else { 25 }) {
            let mut q: Pf<PC> = copy::<PC>(&p);
            for _ in 0..r.range(1, 5) {
                let m = r.pick(&all_mutations::<PC>(&mut q)).clone();
                let _ = alter::<PC>(r, &mut q, &mut other, &m);
            }
            if t % 4 == 0 {
                let x = r.f_mixed();
                for k in 0..9 {
                    evals(&mut q, k).iter_mut().for_each(|e| *e = x);
                }
            }
            if t % 4 == 1 {
                for k in 0..5 {
                    comms(&mut q, k).iter_mut().for_each(|e| *e = PC::zero_comm());
                }
            }
            no_panic(cx, s.verify::<PlainFs>(q, &a.i), "altered contents")?;
        }
        if free {
            free_values::<PC>(r, cx, &c, &a, &s)?;
        }
        // challenges that hit the domain or each other
        let d: Vec<F> = {
            use ark_poly::EvaluationDomain;
            domain(c.n).elements().collect()
        };
        for t in 0..(if kzg { 1 } else { 8 }) {
            fs::reset();
            // an evaluation challenge in the domain would be a collision of the hash: seen, not judged
            let x = match t {
                0 => F::zero(),
                1 => F::one(),
                2 | 3 => *r.pick(&d),
                _ => r.f_nz(),
            };
            fs::force(4, x);
            if t >= 4 {
                fs::force(7, x * *r.pick(&d));
            }
            if let Ok(q) = s.prove::<RecFs>(&a, r.u64()) {
                fs::take_log();
                let v = s.verify::<RecFs>(q, &a.i);
                if (1..4).contains(&t) {
                    cx.obs(format!("evaluation challenge in the domain: {}", v.kind()));
                } else {
                    no_panic(cx, v, "extreme challenges")?;
                }
            } else {
                cx.obs("no proof: extreme challenges");
            }
        }
        fs::reset();
        // a proof of another circuit
        let (c2, a2) = {
            let cfg2 = config(r, cx);
            gen(r, &cfg2)
        };
        if c2.n == c.n {
            let (ck, vk) = keys::<PC>(c2.n, 7);
            let prep2 = Prep::<PC>::new(&c2, &ck, &vk, 0);
            if let Ok(s2) = prep2.setup(&a2) {
                if let Ok(q) = s2.prove::<PlainFs>(&a2, r.u64()) {
                    no_panic(cx, s.verify::<PlainFs>(q, &a.i), "proof of another circuit")?;
                }
            }
        }
        // byte strings
        let good = bytes(&p);
        let mut unc = vec![];
        p.serialize_uncompressed(&mut unc).unwrap();
        let mut decode = |cx: &mut Cx, b: &[u8], what: &str| -> CaseResult {
            for form in 0..3 {
                let q = guard(|| match form {
                    0 => Pf::<PC>::deserialize(b),
                    1 => Pf::<PC>::deserialize_uncompressed(b),
                    _ => Pf::<PC>::deserialize_unchecked(b),
                });
                cx.eval();
                match q {
                    Err(e) => return Err(format!("decoding crashed ({}): {}", what, e)),
                    Ok(Err(_)) => cx.obs(format!("undecodable: {}", what)),
                    Ok(Ok(q)) => {
                        // points outside the group are not proofs any more
                        if form < 2 || !kzg {
                            no_panic(cx, s.verify::<PlainFs>(q, &a.i), &format!("decoded: {}", what))?
                        }
                    }
                }
            }
            Ok(())
        };
        for _ in 0..(if kzg { 6 } else { 60 }) {
            let mut b = if r.chance(70) { good.clone() } else { unc.clone() };
            let what = match r.below(6) {
                0 => {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                    "bit flipped"
                }
                1 => {
                    let i = r.below(b.len());
                    b.truncate(i);
                    "truncated"
                }
                2 => {
                    let (i, n) = (r.below(b.len()), r.range(1, 40));
                    for k in i..(i + n).min(b.len()) {
                        b[k] = r.u64() as u8;
                    }
                    "bytes overwritten"
                }
                3 => {
                    // a length field
                    let lens: Vec<usize> = (0..b.len().saturating_sub(8)).filter(|i| b[*i] < 64 && b[*i + 1..*i + 8].iter().all(|x| *x == 0)).collect();
                    if let Some(i) = lens.get(r.below(lens.len().max(1))) {
                        b[*i] = r.below(70) as u8;
                        if r.chance(20) {
                            b[*i + r.range(1, 7)] = 255;
                        }
                    }
                    "length changed"
                }
                4 => {
                    let n = r.below(400);
                    b = (0..n).map(|_| if r.chance(50) { r.below(4) as u8 } else { r.u64() as u8 }).collect();
                    "random bytes"
                }
                _ => {
                    let i = r.below(b.len());
                    let n = r.range(1, 48).min(b.len() - i);
                    let part: Vec<u8> = b[i..i + n].to_vec();
                    if r.chance(50) {
                        b.drain(i..i + n);
                    } else {
                        for (k, x) in part.into_iter().enumerate() {
                            b.insert(i + k, x);
                        }
                    }
                    "bytes removed or repeated"
                }
            };
            decode(cx, &b, what)?;
        }
        cx.sample(format!("{} counts {:?}", c.show(), counts::<PC>(&mut p)));
        Ok(())
    })
}
/// Claimed values chosen freely: the constraint identity is neutralised (first
/// constraint trivial, alpha zero), so that every value reaches the opening.
fn free_values<PC: Open>(r: &mut R, cx: &mut Cx, c: &Circuit, a: &Assign, s: &Setup<PC>) -> CaseResult {
    fs::reset();
    fs::force(ALPHA, F::zero());
    let mut p0 = match s.prove::<RecFs>(a, r.u64()) {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    fs::take_log();
    let ok = s.verify::<RecFs>(copy::<PC>(&p0), &a.i).accepted();
    let base = fs::challenges(&fs::take_log());
    if !ok || base.len() != NAMES.len() {
        cx.obs("skipped: free-evaluation run not accepted");
        fs::reset();
        return Ok(());
    }
    let d = domain(c.n);
    let at = |rot: i64| {
        use ark_poly::EvaluationDomain;
        base[4] * d.element(idx(0, rot, c.n))
    };
    // value lists by polynomial: (list, first value, rotations in proof order)
    let mut blocks: Vec<(usize, usize, Vec<i64>)> = vec![];
    // the values are listed by the names of columns and points; when that
    // changes fewer of the values below cancel
    let order = |v: &mut Vec<i64>| {
        v.sort_by_key(|x| if *x == 0 { "xi".to_string() } else { format!("omega_{}_xi", x) });
        v.dedup()
    };
    for (list, k, kind, cols) in [(0, K::W, 'w', c.nw), (1, K::X, 'q', c.x.len())] {
        let mut pos = 0;
        let mut js: Vec<usize> = (0..cols).collect();
        js.sort_by_key(|j| name(s.p.names, kind, *j));
        for j in js {
            let mut v: Vec<i64> = c.opened().iter().filter(|q| q.0 == k && q.1 == j).map(|q| q.2).collect();
            if k == K::W && c.permute[j] {
                v.push(0);
            }
            order(&mut v);
            blocks.push((list, pos, v.clone()));
            pos += v.len();
        }
    }
    let nz = p0.z_commitments.len();
    for z in 0..nz {
        let mut v: Vec<i64> = if z + 1 < nz { vec![0, 1, c.u as i64] } else { vec![0, 1] };
        order(&mut v);
        blocks.push((6, if c.u == 1 { 2 * z } else { 3 * z }, v));
    }
    for _ in 0..25 {
        let mut q: Pf<PC> = copy::<PC>(&p0);
        let crafted = r.chance(60);
        if crafted {
            // values on some points whose interpolation loses its leading coefficient on the way
            let (k, first, mut rots) = r.pick(&blocks).clone();
            if let Some(b) = blocks.iter().filter(|b| b.2.len() > 2).nth(r.below(4)) {
                rots = b.2.clone();
            }
            if rots.len() < 2 || blocks.iter().any(|b| evals(&mut q, b.0).len() < b.1 + b.2.len()) {
                continue;
            }
            let pts: Vec<F> = rots.iter().map(|x| at(*x)).collect();
            let lead = |i: usize| {
                let mut d = F::one();
                for j in 0..pts.len() {
                    if i != j {
                        d *= pts[i] - pts[j];
                    }
                }
                d.inverse().unwrap()
            };
            let _ = (k, first);
            let (i, j) = (r.below(pts.len()), r.below(pts.len()));
            if i == j {
                continue;
            }
            // the same on every polynomial of the opening set
            let alike: Vec<(usize, usize)> = blocks.iter().filter(|b| b.2 == rots).map(|b| (b.0, b.1)).collect();
            for (k, first) in alike {
                let vals = evals(&mut q, k);
                for v in vals[first..first + pts.len()].iter_mut() {
                    *v = r.f_mixed();
                }
                vals[first + i] = r.f_nz();
                vals[first + j] = -vals[first + i] * lead(i) * lead(j).inverse().unwrap();
            }
            if pts.len() > 2 {
                cx.obs("cancelling values on three or more points");
            }
        } else {
            let x = r.f_mixed();
            let k = r.below(9);
            for v in evals(&mut q, k).iter_mut() {
                *v = if r.chance(50) { x } else { r.f_mixed() };
            }
        }
        let v = s.verify::<RecFs>(q, &a.i);
        fs::take_log();
        if let Verdict::Reject(e) = &v {
            if !e.contains("QuotientNotZero") {
                cx.obs(if crafted { "cancelling values reached the opening" } else { "free values reached the opening" });
            }
        }
        no_panic(cx, v, "free values")?;
    }
    fs::reset();
    Ok(())
}

fn resize<PC: Open>(r: &mut R, p: &mut Pf<PC>, l: usize, z: usize) {
    if l < 5 {
        let f = p.multiopen_proof.f_commit.clone();
        let v = comms(p, l);
        v.truncate(z);
        while v.len() < z {
            v.push(if r.chance(30) { PC::zero_comm() } else { f.clone() });
        }
    } else {
        let v = evals(p, l - 5);
        v.truncate(z);
        while v.len() < z {
            v.push(r.f_mixed());
        }
    }
}
both!(p13, p13_pc);

// ------------------------------------------------------------------ P14

fn p14_pc<PC: Open>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let kzg = PC::NAME == "KZG";
    let mut cfg = config(r, cx);
    cfg.inst = 80;
    with_proof!(r, cx, cfg, trivial_first_gate, |c, a, s, p| {
        let mut other = match s.prove::<PlainFs>(&a, r.u64()) {
            Ok(o) => o,
            Err(_) => return Ok(()),
        };
        observe::<PC>(cx, &c, &mut p);
        // proofs whose identity check is neutral, sharing all challenges up to xi
        fs::reset();
        fs::force(ALPHA, F::zero());
        let free = s.prove::<RecFs>(&a, r.u64()).ok();
        fs::take_log();
        let forced: BTreeMap<usize, F> = BTreeMap::from([(ALPHA, F::zero())]);
        fs::reset();
        // a second statement for the same circuit
        let mut inst2 = a.i.clone();
        if c.ni > 0 {
            let t = r.below(7);
            inst2 = other_instance(r, &c, &a.i, t).0;
        }
        let mut session = s.session(&a.i);
        let len = if kzg { 6 } else { r.range(6, 40) };
        let mut hist: Vec<String> = vec![];
        let mut last_was_valid = false;
        let mut sharedi = false;
        for _ in 0..len {
            let kind = r.below(10);
            let mut use_free = false;
            let (q, what): (Pf<PC>, String) = match kind {
                0 | 1 => (copy::<PC>(&p), "valid".into()),
                2 => (copy::<PC>(&other), "other valid".into()),
                3 if free.is_some() => {
                    use_free = true;
                    (copy::<PC>(free.as_ref().unwrap()), "valid free".into())
                }
                4 | 5 if free.is_some() => {
                    // one claimed value changed; every challenge up to xi as in the valid run
                    use_free = true;
                    let mut q: Pf<PC> = copy::<PC>(free.as_ref().unwrap());
                    let mut slots: Vec<(usize, usize)> = (0..9).flat_map(|k| (0..counts::<PC>(&mut q)[5 + k]).map(move |i| (k, i))).collect();
                    r.shuffle(&mut slots);
                    if r.chance(10) || slots.is_empty() {
                        q.q_blind_eval += r.f_nz();
                        (q, "free with q_blind_eval changed".into())
                    } else {
                        let (k, i) = slots[0];
                        evals(&mut q, k)[i] += r.f_nz();
                        (q, format!("free with {} changed", EVALS[k]))
                    }
                }
                6 => {
                    let mut q: Pf<PC> = copy::<PC>(&p);
                    let l = r.below(14);
                    let n = counts::<PC>(&mut q)[l];
                    let z = if r.chance(50) { n + 1 } else { n.saturating_sub(1) };
                    resize::<PC>(r, &mut q, l, z);
                    (q, "malformed".into())
                }
                7 => {
                    // a claimed value changed: same challenges up to xi
                    let mut q: Pf<PC> = copy::<PC>(&p);
                    let k = r.below(9);
                    let n = counts::<PC>(&mut q)[5 + k];
                    if n > 0 {
                        let i = r.below(n);
                        evals(&mut q, k)[i] += r.f_nz();
                    } else {
                        q.q_blind_eval += F::one();
                    }
                    (q, "value changed".into())
                }
                _ => {
                    let mut q: Pf<PC> = copy::<PC>(&p);
                    let m = r.pick(&all_mutations::<PC>(&mut q)).clone();
                    let _ = alter::<PC>(r, &mut q, &mut other, &m);
                    (q, "altered".into())
                }
            };
            let inst = if r.chance(20) { &inst2 } else { &a.i };
            let swapped = r.chance(25) || inst == &inst2 || sharedi;
            if swapped {
                // the public-input objects are replaced, the others stay
                session.i = s.p.verifier_instance(inst);
                sharedi = inst != &a.i;
            }
            let cur: Vec<Vec<F>> = if swapped { inst.clone() } else { a.i.clone() };
            let (v1, v2) = if use_free {
                fs::force_all(&forced);
                let v1 = session.verify::<RecFs>(copy::<PC>(&q));
                fs::take_log();
                let v2 = s.verify::<RecFs>(q, &cur);
                fs::take_log();
                fs::reset();
                (v1, v2)
            } else {
                (session.verify::<PlainFs>(copy::<PC>(&q)), s.verify::<PlainFs>(q, &cur))
            };
            cx.eval();
            hist.push(format!("{}{}", what, if cur != a.i { " (other inputs)" } else { "" }));
            if v1.kind() != v2.kind() {
                return Err(format!("verdict depends on history {:?}: reused objects {:?}, fresh objects {:?}", hist, v1, v2));
            }
            cx.obs(format!("{} {}", v1.kind(), what));
            if v1.accepted() {
                cx.obs(if last_was_valid { "accept after accept" } else { "accept after reject" });
            } else if last_was_valid {
                cx.obs("reject after accept");
            }
            last_was_valid = v1.accepted();
        }
        cx.sig(format!("{:?} {}", hist, c.sig()));
        cx.sample(format!("{} history {:?}", c.show(), hist));
        Ok(())
    })
}
both!(p14, p14_pc);

// ------------------------------------------------------------------ P15

struct Chunky<'a>(&'a [u8], usize);
impl<'a> std::io::Read for Chunky<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn p15_pc<PC: Open>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let kzg = PC::NAME == "KZG";
    with_proof!(r, cx, config(r, cx), no_edit, |c, a, s, p| {
        observe::<PC>(cx, &c, &mut p);
        let mut other = match s.prove::<PlainFs>(&a, r.u64()) {
            Ok(o) => o,
            Err(_) => return Ok(()),
        };
        let mut list: Vec<(Pf<PC>, &str)> = vec![(copy::<PC>(&p), "valid")];
        let mut q = copy::<PC>(&p);
        for l in 0..14 {
            let z = r.below(4);
            resize::<PC>(r, &mut q, l, z);
        }
        list.push((q, "odd counts"));
        let mut q = copy::<PC>(&p);
        let m = r.pick(&all_mutations::<PC>(&mut q)).clone();
        let _ = alter::<PC>(r, &mut q, &mut other, &m);
        list.push((q, "altered"));
        for (p, what) in list.iter_mut() {
            let fresh = |p: &Pf<PC>| s.verify::<PlainFs>(copy::<PC>(p), &a.i);
            let verdict = fresh(p);
            cx.obs(format!("{}: {}", verdict.kind(), what));
            for form in 0..3 {
                let fname = ["compressed", "uncompressed", "unchecked"][form];
                let mut b = vec![];
                let res = match form {
                    0 => p.serialize(&mut b),
                    1 => p.serialize_uncompressed(&mut b),
                    _ => p.serialize_unchecked(&mut b),
                };
                cx.eval();
                if let Err(e) = res {
                    return Err(format!("serialization failed ({}): {:?}", fname, e));
                }
                let announced = match form {
                    0 => p.serialized_size(),
                    1 => p.uncompressed_size(),
                    _ => p.uncompressed_size(),
                };
                if announced != b.len() {
                    return Err(format!("announced size {} but {} bytes written ({}, {})", announced, b.len(), fname, what));
                }
                let read = |mut x: &mut dyn std::io::Read| {
                    guard(|| match form {
                        0 => Pf::<PC>::deserialize(&mut x),
                        1 => Pf::<PC>::deserialize_uncompressed(&mut x),
                        _ => Pf::<PC>::deserialize_unchecked(&mut x),
                    })
                };
                // followed by other data, in small pieces
                let mut stream = b.clone();
                stream.extend_from_slice(&[7; 11]);
                let mut src = Chunky(&stream, r.range(1, 70));
                let mut d = match read(&mut src) {
                    Ok(Ok(d)) => d,
                    x => return Err(format!("own encoding not readable ({}, {}): {:?}", fname, what, x.map(|y| y.map(|_| ())))),
                };
                if src.0.len() != 11 {
                    return Err(format!("decoding consumed {} bytes of an encoding of {} ({})", stream.len() - src.0.len(), b.len(), fname));
                }
                if bytes(&d) != bytes(p) {
                    return Err(format!("decoded proof encodes differently ({}, {})", fname, what));
                }
                let mut b2 = vec![];
                match form {
                    0 => d.serialize(&mut b2),
                    1 => d.serialize_uncompressed(&mut b2),
                    _ => d.serialize_unchecked(&mut b2),
                }
                .map_err(|e| format!("{:?}", e))?;
                if b2 != b {
                    return Err(format!("re-encoding differs ({}, {})", fname, what));
                }
                same::<PC>(p, &mut d).map_err(|e| format!("decoded proof differs in {} ({}, {})", e, fname, what))?;
                let v = fresh(&d);
                if v.kind() != verdict.kind() {
                    return Err(format!("verdict changed by serialization ({}, {}): {:?} then {:?}", fname, what, verdict, v));
                }
                cx.obs(format!("round trip {}", fname));
                cx.sig(format!("{} {} {:?}", fname, what, counts::<PC>(&mut d)));
                // prefixes
                let cuts: Vec<usize> = if kzg { (0..6).map(|_| r.below(b.len())).chain([0, b.len() - 1]).collect() } else { (0..b.len()).collect() };
                for cut in cuts {
                    let mut src = &b[..cut];
                    cx.eval();
                    match read(&mut src) {
                        Ok(Err(_)) => {}
                        Ok(Ok(_)) => return Err(format!("a prefix of {} of {} bytes decodes ({}, {})", cut, b.len(), fname, what)),
                        Err(e) => return Err(format!("decoding a prefix of {} of {} bytes crashed ({}): {}", cut, b.len(), fname, e)),
                    }
                }
                cx.obs(format!("prefixes refused {}", fname));
            }
        }
        cx.sample(format!("{} bytes, counts {:?}", bytes(&p).len(), counts::<PC>(&mut p)));
        Ok(())
    })
}
fn same<PC: Open>(x: &mut Pf<PC>, y: &mut Pf<PC>) -> Result<(), String> {
    for k in 0..5 {
        let (a, b) = (comms(x, k).clone(), comms(y, k).clone());
        if a.len() != b.len() || a.iter().zip(&b).any(|(u, v)| !PC::eq_cm(u, v)) {
            return Err(COMMS[k].into());
        }
    }
    for k in 0..9 {
        if evals(x, k) != evals(y, k) {
            return Err(EVALS[k].into());
        }
    }
    if x.q_blind_eval != y.q_blind_eval {
        return Err("q_blind_eval".into());
    }
    if !PC::eq_cm(&x.multiopen_proof.f_commit, &y.multiopen_proof.f_commit) {
        return Err("f_commit".into());
    }
    if bytes(&x.multiopen_proof.opening_proof) != bytes(&y.multiopen_proof.opening_proof) {
        return Err("opening_proof".into());
    }
    Ok(())
}
both!(p15, p15_pc);

// ------------------------------------------------------------------ P16

fn equal_columns(r: &mut R, c: &mut Circuit, a: &mut Assign) {
    // columns no constraint reads, equal to others
    for _ in 0..r.range(1, 2) {
        let from = r.below(c.nw);
        c.nw += 1;
        c.permute.push(false);
        let v = a.w[from].clone();
        a.w.push(v);
    }
    if r.chance(50) {
        c.nw += 1;
        c.permute.push(false);
        a.w.push(vec![F::zero(); c.n]);
    }
}
fn cbytes<PC: Scheme>(c: &PC::Commitment) -> Vec<u8> {
    let mut b = vec![];
    c.write(&mut b).unwrap();
    b
}

fn p16_pc<PC: Open + Blinded>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let tau = PC::NAME != "KZG";
    // unread columns would make for a second opening set
    let flat = cx.idx % 21 == 0;
    let edit = |r: &mut R, c: &mut Circuit, a: &mut Assign| {
        if !flat {
            equal_columns(r, c, a)
        }
    };
    with_proof!(r, cx, config(r, cx), edit, |c, a, s, p| {
        drop(p);
        fs::reset();
        taupc::log_start();
        let mut p1 = match s.prove::<RecFs>(&a, r.u64()) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        let l1 = taupc::log_take();
        let ch = fs::challenges(&fs::take_log());
        let forced: BTreeMap<usize, F> = ch.iter().cloned().enumerate().collect();
        // the same statement and challenges, other prover randomness
        fs::force_all(&forced);
        taupc::log_start();
        let mut p2 = match s.prove::<RecFs>(&a, r.u64()) {
            Ok(p) => p,
            Err(_) => return Ok(()),
        };
        let l2 = taupc::log_take();
        fs::take_log();
        let v = s.verify::<RecFs>(copy::<PC>(&p2), &a.i);
        fs::take_log();
        fs::reset();
        if !v.accepted() {
            cx.obs("skipped: second proof not accepted");
            return Ok(());
        }
        cx.obs("second proof accepted");
        observe::<PC>(cx, &c, &mut p1);
        cx.eval();
        let mut all: BTreeMap<Vec<u8>, String> = BTreeMap::new();
        for (n, p) in [("first", &mut p1), ("second", &mut p2)] {
            let mut list: Vec<(String, PC::Commitment)> = (0..5).flat_map(|k| comms(p, k).iter().enumerate().map(|(i, x)| (format!("{}[{}]", COMMS[k], i), x.clone())).collect::<Vec<_>>()).collect();
            list.push(("f_commit".into(), p.multiopen_proof.f_commit.clone()));
            for (name, x) in list {
                cx.obs(format!("blinded commitment {}", name.split('[').next().unwrap()));
                let what = format!("{} of the {} proof", name, n);
                if PC::is_zero(&x) {
                    return Err(format!("{} is the zero commitment", what));
                }
                if let Some(o) = all.insert(cbytes::<PC>(&x), what.clone()) {
                    return Err(format!("commitments coincide: {} and {}", o, what));
                }
            }
        }
        if bytes(&p1.multiopen_proof.opening_proof) == bytes(&p2.multiopen_proof.opening_proof) {
            return Err("the opening does not depend on the prover's randomness".into());
        }
        PC::check_blinded(&p1.multiopen_proof.opening_proof, &p2.multiopen_proof.opening_proof)?;
        // values of blinded columns at the same point
        let blind_rows = c.n - 1 - c.u;
        let mut moved = |name: &str, x: &[F], y: &[F]| -> CaseResult {
            for (i, (a, b)) in x.iter().zip(y).enumerate() {
                if a == b {
                    return Err(format!("{}[{}] does not depend on the prover's randomness", name, i));
                }
                cx.obs(format!("blinded opening {}", name));
            }
            Ok(())
        };
        if c.needs_u() && blind_rows > 0 {
            moved("lookup_z_evals", &p1.lookup_z_evals, &p2.lookup_z_evals)?;
            moved("z_evals", &p1.z_evals, &p2.z_evals)?;
        }
        moved("lookup_evals", &p1.lookup_evals, &p2.lookup_evals)?;
        cx.sig(format!("{} {}", c.sig(), blind_rows));
        let mut r2 = R::new(r.u64());
        if tau {
            // what was committed: witness, a' and s', z, lookup z, quotient, f, final
            let want: usize = counts::<PC>(&mut p1)[..5].iter().sum::<usize>() + 1;
            if l1.len() < want || l2.len() < want {
                cx.obs("skipped: commitments not seen");
                return Ok(());
            }
            let mut seen: BTreeSet<F> = BTreeSet::new();
            for l in [&l1, &l2] {
                for k in l[..want].iter() {
                    if !k.hiding {
                        return Err(format!("commitment to {} is not hiding", k.label));
                    }
                    if k.blind.coeffs.len() < 2 {
                        return Err(format!("commitment to {} is blinded for no opening", k.label));
                    }
                    for x in &k.blind.coeffs {
                        if x.is_zero() || !seen.insert(*x) {
                            return Err(format!("blinding of {} is not fresh", k.label));
                        }
                    }
                    cx.obs("fresh blinding polynomial");
                }
            }
            let n = counts::<PC>(&mut p1);
            use ark_poly::EvaluationDomain;
            let d = domain(c.n);
            let mut at = n[0];
            let mut rows: BTreeSet<F> = BTreeSet::new();
            for (cnt, from, name) in [(n[1], c.u, "permuted lookup column"), (n[2], c.u + 1, "copy product"), (n[3], c.u + 1, "lookup product")] {
                for k in at..at + cnt {
                    for l in [&l1, &l2] {
                        let ev = d.fft(&l[k].poly.coeffs);
                        for i in from..c.n {
                            cx.obs(format!("blinding row of {}", name));
                            if ev[i].is_zero() || !rows.insert(ev[i]) {
                                return Err(format!("row {} of {} ({}) is not fresh randomness", i, name, l[k].label));
                            }
                        }
                    }
                }
                at += cnt;
            }
            for x in rows.iter().chain(seen.iter()) {
                if narrow(*x) || narrow(-*x) {
                    return Err("a blinding value comes from a small range".into());
                }
            }
            if cx.idx % 16 == 3 && c.n <= 16 {
                independent(r, cx, &c, &n, || {
                    fs::force_all(&forced);
                    taupc::log_start();
                    let p = s.prove::<RecFs>(&a, r2.u64());
                    let l = taupc::log_take();
                    fs::take_log();
                    fs::reset();
                    p.ok().map(|_| l)
                })?;
            }
        }
        cx.sample(format!("{} commitments {:?}", c.show(), counts::<PC>(&mut p1)));
        Ok(())
    })
}
fn narrow(x: F) -> bool {
    use ark_ff::PrimeField;
    let l = x.into_repr().0;
    l[3] == 0 && l[2] == 0
}
/// No linear relation holds between blinding values of one proof (nor are any
/// constant): over enough proofs of one statement their vectors span everything.
fn independent(r: &mut R, cx: &mut Cx, c: &Circuit, n: &[usize], mut prove: impl FnMut() -> Option<Vec<taupc::Committed>>) -> CaseResult {
    use ark_poly::EvaluationDomain;
    let d = domain(c.n);
    // (commitment, row or blinding coefficient)
    let mut vars: Vec<(usize, usize, bool)> = vec![];
    let mut at = n[0];
    for (cnt, from) in [(n[1], c.u), (n[2], c.u + 1), (n[3], c.u + 1)] {
        for k in at..at + cnt {
            vars.extend((from..c.n).map(|i| (k, i, false)));
        }
        at += cnt;
    }
    let total = n[..5].iter().sum::<usize>() + 1;
    for k in 0..total {
        vars.extend((0..2).map(|i| (k, i, true)));
    }
    while vars.len() > 40 {
        let k = r.below(vars.len());
        vars.remove(k);
    }
    let mut m: Vec<Vec<F>> = vec![];
    for _ in 0..vars.len() + 3 {
        let Some(l) = prove() else { return Ok(()) };
        if l.len() < total {
            return Ok(());
        }
        let mut row = vec![F::one()];
        for (k, i, b) in &vars {
            row.push(if *b { l[*k].blind.coeffs.get(*i).cloned().unwrap_or_else(F::zero) } else { d.fft(&l[*k].poly.coeffs)[*i] });
        }
        m.push(row);
    }
    cx.eval();
    let k = rank(m, vars.len() + 1);
    if k < vars.len() + 1 {
        let names: Vec<String> = vars.iter().map(|(k, i, b)| format!("{} {} {}", k, if *b { "coefficient" } else { "row" }, i)).collect();
        return Err(format!("the {} blinding values of a proof span {} dimensions only ({:?})", vars.len(), k.saturating_sub(1), names));
    }
    cx.obs_n("independent blinding values", vars.len() as u64);
    Ok(())
}
trait Blinded: Scheme {
    fn check_blinded(a: &Self::Proof, b: &Self::Proof) -> CaseResult;
}
fn blinds(a: Option<F>, b: Option<F>) -> CaseResult {
    match (a, b) {
        (Some(x), Some(y)) if x != y && !x.is_zero() && !y.is_zero() => Ok(()),
        _ => Err(format!("the final opening is not blinded: {:?} {:?}", a.is_some(), b.is_some())),
    }
}
impl Blinded for TauPC {
    fn check_blinded(a: &Self::Proof, b: &Self::Proof) -> CaseResult {
        blinds(a.random_v, b.random_v)
    }
}
impl Blinded for Kzg {
    fn check_blinded(a: &Self::Proof, b: &Self::Proof) -> CaseResult {
        blinds(a.random_v, b.random_v)
    }
}
both!(p16, p16_pc);

fn main() {
    zokmon::report::main(&[
        Spec {
            id: "P07",
            level: "exploration",
            rule: "every kind of single alteration (and sampled combinations) of valid proofs of random circuits, verified by the real code; non-trivial when alteration, place and circuit signature are new",
            quick: 4800,
            thorough: 96000,
            require: &["honest proof accepted", "real KZG", "rejected: f_commit altered", "rejected: q_evals appended", "rejected: lookup_z_evals altered", "rejected: z_evals altered", "rejected: opening w + 1", "rejected: batched opening spliced", "rejected: several alterations"],
            assumptions: &["seven of eight cases use an idealised commitment scheme with the algebra of the real one"],
            case: p07,
        },
        Spec {
            id: "P10",
            level: "exploration",
            rule: "recorded transcripts of prover and verifier compared event by event, and of the verifier on altered messages and inputs; non-trivial when altered message, place and circuit signature are new",
            quick: 1200,
            thorough: 24000,
            require: &["free-evaluation run accepted", "real KZG", "challenges moved: witness_commitments", "challenges moved: lookup_commitments", "challenges moved: z_commitments", "challenges moved: lookup_z_commitments", "challenges moved: quotient_chunk_commitments", "challenges moved: witness_evals", "challenges moved: fixed_oracle_evals", "challenges moved: table_oracle_evals", "challenges moved: permutation_oracle_evals", "challenges moved: lookup_evals", "challenges moved: lookup_z_evals", "challenges moved: z_evals", "challenges moved: q_evals", "challenges moved: q_blind_eval", "challenges moved: f_commit", "challenges moved: quotient_chunks_evals", "challenges moved: quotient_chunks_evals, few bits", "challenges moved: two evaluations exchanged", "challenges moved: two evaluations with the same sum", "challenges moved: two commitments with the same sum", "challenges moved: one byte of a public coefficient changed", "challenges moved: one public value changed", "challenges moved: column boundary"],
            assumptions: &["one challenge is fixed in some runs so that altered evaluations reach the opening rounds"],
            case: p10,
        },
        Spec {
            id: "P11",
            level: "exploration",
            rule: "false claimed values, singly and in pairs chosen after the challenges, in runs where the constraint identity holds for any claimed values; non-trivial when the altered values and circuit signature are new",
            quick: 1200,
            thorough: 24000,
            require: &["free-evaluation run accepted", "real KZG", "false value rejected: witness_evals", "false value rejected: fixed_oracle_evals", "false value rejected: table_oracle_evals", "false value rejected: permutation_oracle_evals", "false value rejected: lookup_evals", "false value rejected: lookup_z_evals", "false value rejected: z_evals", "false value rejected: q_evals", "false value rejected: q_blind_eval", "false value rejected: quotient_chunks_evals", "cancelling pair rejected", "weighted pair rejected", "reopened: table_oracle_evals", "reopened: q_blind_eval", "batching challenges tell all false values apart", "more than eight quotient chunks"],
            assumptions: &["the separation challenge is fixed to zero on both sides, which makes the identity hold for any claimed values"],
            case: p11,
        },
        Spec {
            id: "P13",
            level: "exploration",
            rule: "malformed proofs (element counts, contents, encodings) given to the real verifier with arithmetic-overflow checks on; non-trivial when the element counts and circuit signature are new",
            quick: 2700,
            thorough: 54000,
            require: &["real KZG", "reject: fewer elements lookup_evals", "reject: more elements z_commitments", "reject: random counts", "undecodable: truncated", "reject: decoded: length changed", "reject: proof of another circuit", "reject: altered contents"],
            assumptions: &["encodings with points outside the group are only decoded with checks"],
            case: p13,
        },
        Spec {
            id: "P14",
            level: "exploration",
            rule: "random sequences of valid, altered and malformed proofs verified with reused objects, every verdict compared with the one of fresh objects; non-trivial when the history and circuit are new",
            quick: 3600,
            thorough: 72000,
            require: &["real KZG", "accept after reject", "reject after accept", "accept after accept", "accept valid free", "reject free with z_evals changed", "reject free with lookup_evals changed", "reject malformed"],
            assumptions: &[],
            case: p14,
        },
        Spec {
            id: "P15",
            level: "exploration",
            rule: "valid, altered and odd-shaped proofs written and read in every form, with all prefixes of their encodings; non-trivial when form and element counts are new",
            quick: 1200,
            thorough: 24000,
            require: &["real KZG", "round trip compressed", "round trip uncompressed", "round trip unchecked", "prefixes refused compressed", "accept: valid", "reject: odd counts"],
            assumptions: &["prefixes of real-scheme encodings are sampled, those of the idealised scheme are exhaustive"],
            case: p15,
        },
        Spec {
            id: "P16",
            level: "exploration",
            rule: "two proofs of one statement with equal challenges and different prover randomness, compared commitment by commitment, opening by opening and blinding row by blinding row; non-trivial when the circuit signature is new",
            quick: 4800,
            thorough: 96000,
            require: &["real KZG", "a single opening set", "second proof accepted", "fresh blinding polynomial", "blinded opening z_evals", "blinded opening lookup_evals", "blinded opening lookup_z_evals", "blinding row of copy product", "blinding row of permuted lookup column", "blinding row of lookup product"],
            assumptions: &["rows are inspected through the idealised commitment scheme"],
            case: p16,
        },
    ]);
}
