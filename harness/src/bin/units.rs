//! The mock prover (P17), ready-made gates (P18), expressions (P19), the
//! lookup rearrangement (P21), the transcript generator (P24) and
//! misconfigurations (P26).
use ark_ff::{FftField, to_bytes, Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use ark_std::rand::RngCore;
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};
use zero_over_k::verif::{compute_vanishing_poly_over_coset, MockProver, TurboPlonk};
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled::logic::{Delta, DeltaXorAnd};
use zero_over_k::vo::precompiled::mul::PrecompiledMul;
use zero_over_k::vo::precompiled::plonk_arith::{PlonkArith4, PrecompiledPlonkArith};
use zero_over_k::vo::precompiled::rescue::PrecompiledRescue;
use zero_over_k::vo::precompiled::PrecompiledVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;
use zokmon::adv;
use zokmon::circuit::*;
use zokmon::fs::PlainFs;
use zokmon::report::*;
use zokmon::run::*;
use zokmon::taupc::TauPC;
use zokmon::util::*;
use zokmon::*;

type D = GeneralEvaluationDomain<F>;

// ------------------------------------------------------------------ P17

fn mock(s: &Setup<TauPC>, a: &Assign) -> Result<(), String> {
    let (mut w, mut i, vos) = s.p.prover_side(a);
    let vr: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as _).collect();
    let mut zk = zokmon::fs::ZkRng::new(1);
    match guard(|| MockProver::<F, TauPC, PlainFs>::prove(&s.pk, &s.pp, &mut w, &mut i, &vr, s.p.c.n, &mut zk).map(|_| ())) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(p) => Err(format!("panic {}", p)),
    }
}

fn p17(r: &mut R, cx: &mut Cx) -> CaseResult {
    let large = cx.idx % 40 == 7;
    let cfg = Cfg {
        ns: if large { vec![64, 128, 256] } else { vec![4, 8, 8, 16, 32] },
        gates: (1, if large { 2 } else { 4 }),
        lookups: (0, 0),
        perm: if cx.idx % 5 == 0 { 50 } else { 0 },
        zh: 0,
        max_deg: 5,
        inst: 60,
        ..Cfg::default()
    };
    let (c, a) = gen(r, &cfg);
    cx.note(c.show());
    cx.sample(c.show());
    let (ck, vk) = keys::<TauPC>(c.n, 1);
    let names = r.u64();
    let prep = Prep::<TauPC>::new(&c, &ck, &vk, names);
    let s = prep.setup(&a).map_err(|e| format!("indexing: {}", e))?;
    let mut judge = |cx: &mut Cx, c: &Circuit, s: &Setup<TauPC>, b: &Assign, what: &str, real: bool| -> CaseResult {
        let v = c.check(b);
        let got = mock(s, b);
        cx.eval();
        if got.is_ok() != v.gates.is_empty() {
            return Err(format!(
                "{}: the mock prover says {:?}, violated (gate, row) pairs: {:?}",
                what,
                got,
                v.gates.iter().take(5).collect::<Vec<_>>()
            ));
        }
        cx.obs(format!("{} {}", if got.is_ok() { "accepted:" } else { "refused:" }, what));
        cx.sig(format!("{} {} {}", what, v.gates.len(), c.sig()));
        if let Some((g, row)) = v.gates.first() {
            if *row >= 64 {
                cx.obs("first violation beyond row 64");
            }
            if v.gates.len() == 1 {
                cx.obs("single violation");
                if *row + 1 == c.n {
                    cx.obs("single violation in the last row");
                }
                if *g > 0 && *g + 1 == c.gates.len() {
                    cx.obs("single violation of the last gate");
                }
            }
        }
        if real && v.copies.is_empty() {
            let accepted = match s.prove::<PlainFs>(b, 7) {
                Ok(p) => s.verify::<PlainFs>(p, &b.i).accepted(),
                Err(_) => false,
            };
            cx.eval();
            if accepted != got.is_ok() {
                return Err(format!("{}: mock prover {:?}, real proof accepted: {}", what, got, accepted));
            }
            cx.obs("agrees with the real prover");
        }
        Ok(())
    };
    judge(cx, &c, &s, &a, "satisfying", true)?;
    for k in 0..6 {
        let mut b = a.clone();
        let what = match k {
            0 | 1 => match adv::break_gates(r, &c, &a) {
                Some((c2, b2, kind)) => {
                    let prep2 = Prep::<TauPC>::new(&c2, &ck, &vk, names);
                    let s2 = prep2.setup(&b2).map_err(|e| format!("indexing: {}", e))?;
                    judge(cx, &c2, &s2, &b2, kind, k == 0)?;
                    continue;
                }
                None => continue,
            },
            2 => {
                // a violation of chosen size at an edge row
                let g = r.below(c.gates.len());
                let row = adv::edge_row(r, c.n);
                let e = r.f_mixed();
                match adv::set_residual(&c, &a, g, row, e) {
                    Some(x) => {
                        b = x;
                        "chosen residual"
                    }
                    None => continue,
                }
            }
            3 => {
                for col in b.w.iter_mut().chain(b.i.iter_mut()) {
                    for x in col.iter_mut() {
                        *x = F::zero();
                    }
                }
                "all zero"
            }
            4 => {
                // the assignment moved by one row
                for col in b.w.iter_mut().chain(b.i.iter_mut()) {
                    col.rotate_left(1);
                }
                "rotated"
            }
            _ => {
                if c.nw + c.ni == 0 {
                    continue;
                }
                let j = r.below(c.nw + c.ni);
                let row = adv::edge_row(r, c.n);
                let d = r.f_nz();
                if j < c.nw {
                    b.w[j][row] += d
                } else {
                    b.i[j - c.nw][row] += d
                }
                "one cell"
            }
        };
        judge(cx, &c, &s, &b, what, k == 2)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ P18

/// A ready-made gate and the relation it documents.
struct Gate {
    name: &'static str,
    cfg: fn() -> (VirtualExpression<F>, Vec<VirtualQuery>),
    nw: usize,
    ni: usize,
    nx: usize,
    /// value of the documented polynomial; next-row values of the witness second
    value: fn(&[F], &[F], &[F], &[F]) -> F,
}
fn p5(x: F) -> F {
    x * x * x * x * x
}
fn f(x: u64) -> F {
    F::from(x)
}
const GATES: &[Gate] = &[
    Gate { name: "mul", cfg: <PrecompiledMul as PrecompiledVO<F>>::get_expr_and_queries, nw: 2, ni: 1, nx: 0, value: |w, _, i, _| w[0] * w[1] - i[0] },
    Gate {
        name: "three-wire arithmetic",
        cfg: <PrecompiledPlonkArith as PrecompiledVO<F>>::get_expr_and_queries,
        nw: 3,
        ni: 1,
        nx: 5,
        value: |w, _, i, q| q[0] * w[0] * w[1] + q[1] * w[0] + q[2] * w[1] + q[3] * w[2] + q[4] + i[0],
    },
    Gate {
        name: "four-wire arithmetic",
        cfg: <PlonkArith4 as PrecompiledVO<F>>::get_expr_and_queries,
        nw: 4,
        ni: 1,
        nx: 6,
        value: |w, _, i, q| q[0] * w[0] * w[1] + q[1] * w[0] + q[2] * w[1] + q[3] * w[3] + q[4] * w[2] + q[5] + i[0],
    },
    Gate {
        name: "rescue",
        cfg: <PrecompiledRescue as PrecompiledVO<F>>::get_expr_and_queries,
        nw: 5,
        ni: 0,
        nx: 4,
        value: |w, _, _, q| q[0] * p5(w[0]) + q[1] * p5(w[1]) + q[2] * p5(w[2]) + q[3] * p5(w[3]) - w[4],
    },
    Gate {
        name: "delta",
        cfg: <Delta as PrecompiledVO<F>>::get_expr_and_queries,
        nw: 1,
        ni: 0,
        nx: 1,
        value: |w, nx, _, q| {
            let e = nx[0] - f(4) * w[0];
            (F::one() - q[0]) * e * (e - f(1)) * (e - f(2)) * (e - f(3))
        },
    },
    Gate {
        name: "xor and",
        cfg: <DeltaXorAnd as PrecompiledVO<F>>::get_expr_and_queries,
        nw: 4,
        ni: 0,
        nx: 1,
        value: |w, _, _, q| {
            let (a, b, c, d) = (w[0], w[1], w[2], w[3]);
            let ff = c * (c * (f(4) * c - f(18) * (a + b) + f(81)) + f(18) * (a * a + b * b) - f(81) * (a + b) + f(83));
            let e = f(3) * (a + b + d) - f(2) * ff;
            let h = q[0] * (f(9) * d - f(3) * (a + b));
            h + e
        },
    },
];

struct Cols {
    w: Vec<Vec<F>>,
    i: Vec<Vec<F>>,
    x: Vec<Vec<F>>,
}
/// the value of a configured expression on every row
fn on_rows(vo: &dyn VirtualOracle<F>, n: usize, w: &[WitnessProverOracle<F>], i: &[InstanceProverOracle<F>], x: &[FixedProverOracle<F>]) -> Result<Vec<F>, String> {
    let e = vo.get_expression().map_err(|e| format!("{:?}", e))?;
    let get = |q: &OracleQuery, row: usize| -> F {
        match q.oracle_type {
            OracleType::Witness => w.iter().find(|o| o.get_label() == q.label).unwrap().query_at_omega_in_original_domain(row, q.rotation),
            OracleType::Instance => i.iter().find(|o| o.get_label() == q.label).unwrap().query_at_omega_in_original_domain(row, q.rotation),
            OracleType::Fixed => x.iter().find(|o| o.get_label() == q.label).unwrap().query_at_omega_in_original_domain(row, q.rotation),
        }
    };
    (0..n)
        .map(|row| guard(|| e.evaluate(&|c| c, &|q| get(q, row), &|x: F| -x, &|x: F, y: F| x + y, &|x: F, y: F| x * y, &|x: F, y: F| x * y)))
        .collect()
}

fn tag_of(i: &[F]) -> Vec<String> {
    i.iter().map(fstr).collect()
}

fn gate_rows(r: &mut R, g: &Gate, n: usize, sat: bool) -> Cols {
    let mixed = |r: &mut R, k: usize| -> Vec<Vec<F>> { (0..k).map(|_| (0..n).map(|_| r.f_mixed()).collect()).collect() };
    let mut c = Cols { w: mixed(r, g.nw), i: mixed(r, g.ni), x: mixed(r, g.nx) };
    for row in 0..n {
        match g.name {
            "delta" => {
                c.x[0][row] = if row + 1 == n { F::one() } else if r.chance(15) { F::one() } else { F::zero() };
                if !sat && r.chance(20) {
                    c.x[0][row] = r.f_mixed();
                }
            }
            "xor and" => {
                let (a, b) = (r.below(4) as u64, r.below(4) as u64);
                c.w[0][row] = f(a);
                c.w[1][row] = f(b);
                c.w[2][row] = f(a * b);
                let xor = r.chance(50);
                c.x[0][row] = if xor { -F::one() } else { F::one() };
                c.w[3][row] = if xor { f(a ^ b) } else { f(a & b) };
            }
            _ => {}
        }
    }
    if g.name == "delta" {
        c.w[0][0] = f(r.below(4) as u64);
        for row in 1..n {
            c.w[0][row] = if c.x[0][row - 1].is_one() { r.f_mixed() } else { f(4) * c.w[0][row - 1] + f(r.below(4) as u64) };
        }
    } else if g.name != "xor and" {
        // solve for the last term
        for row in 0..n {
            let w: Vec<F> = c.w.iter().map(|v| v[row]).collect();
            let i: Vec<F> = c.i.iter().map(|v| v[row]).collect();
            let x: Vec<F> = c.x.iter().map(|v| v[row]).collect();
            let v = (g.value)(&w, &w, &i, &x);
            match g.name {
                "mul" => c.i[0][row] += v,
                "rescue" => c.w[4][row] += v,
                _ => {
                    if r.chance(50) {
                        c.i[0][row] -= v
                    } else {
                        let k = c.x.len() - 1;
                        c.x[k][row] -= v
                    }
                }
            }
        }
    }
    if !sat {
        for _ in 0..r.range(1, 2) {
            let k = r.below(g.nw + g.ni + g.nx);
            let row = adv::edge_row(r, n);
            let d = match r.below(4) {
                0 => F::one(),
                1 => -F::one(),
                2 => f(r.below(7) as u64),
                _ => r.f(),
            };
            if k < g.nw {
                c.w[k][row] += d
            } else if k < g.nw + g.ni {
                c.i[k - g.nw][row] += d
            } else {
                c.x[k - g.nw - g.ni][row] += d
            }
        }
    }
    c
}

fn p18(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx % 7 == 6 {
        return p18_lookup(r, cx);
    }
    let g = &GATES[cx.idx % 7];
    let n = *r.pick(&[4usize, 8, 16]);
    let sat = r.chance(50);
    let c = gate_rows(r, g, n, sat);
    let names = r.u64();
    let mut wo: Vec<_> = c.w.iter().enumerate().map(|(i, e)| WitnessProverOracle::new(name(names, 'w', i), interp(e), e, false)).collect();
    let mut io = ins_oracles(names, &c.i);
    let mut xo = fixed_oracles(names, 'q', &c.x);
    let mut vo = GenericVO::<F>::init((g.cfg)());
    guard(|| vo.configure(&mut wo, &mut io, &mut xo)).map_err(|p| format!("{}: needs other columns than documented: {}", g.name, p))?;
    let got = on_rows(&vo, n, &wo, &io, &xo).map_err(|p| format!("{}: {}", g.name, p))?;
    cx.note(format!("gate {} n={}", g.name, n));
    let mut all = true;
    for row in 0..n {
        let at = |v: &Vec<Vec<F>>, row: usize| -> Vec<F> { v.iter().map(|c| c[row]).collect() };
        let nx = (row + 1) % n;
        let want = (g.value)(&at(&c.w, row), &at(&c.w, nx), &at(&c.i, row), &at(&c.x, row));
        cx.eval();
        if want.is_zero() != got[row].is_zero() {
            return Err(format!(
                "gate {}: witness {:?} next {:?} instance {:?} selectors {:?}: documented relation {}, gate {}",
                g.name,
                tag_of(&at(&c.w, row)),
                tag_of(&at(&c.w, nx)),
                tag_of(&at(&c.i, row)),
                tag_of(&at(&c.x, row)),
                if want.is_zero() { "holds" } else { "violated" },
                if got[row].is_zero() { "vanishes" } else { "does not vanish" }
            ));
        }
        all &= want.is_zero();
        cx.obs(format!("{} {}", g.name, if want.is_zero() { "holds" } else { "violated" }));
        // the meaning of the gate, not only its documented polynomial
        if g.name == "xor and" {
            let (a, b, p, d, q) = (c.w[0][row], c.w[1][row], c.w[2][row], c.w[3][row], c.x[0][row]);
            if let (Some(x), Some(y)) = ((0..4u64).find(|x| f(*x) == a), (0..4u64).find(|x| f(*x) == b)) {
                if p == a * b && (q == F::one() || q == -F::one()) {
                    let res = if q.is_one() { f(x & y) } else { f(x ^ y) };
                    if (res == d) != got[row].is_zero() {
                        return Err(format!("gate xor and: {} {} {} with result {}", x, if q.is_one() { "&" } else { "^" }, y, fstr(&d)));
                    }
                    cx.obs("bitwise result decided");
                    cx.sig(format!("bit {} {} {} {}", x, y, fstr(&q), res == d));
                }
            }
        }
        if g.name == "delta" && c.x[0][row].is_zero() {
            let e = c.w[0][nx] - f(4) * c.w[0][row];
            let ok = (0..4u64).any(|k| f(k) == e);
            if ok != got[row].is_zero() {
                return Err(format!("gate delta: step {} {}", fstr(&e), ok));
            }
            cx.sig(format!("step {}", if fstr(&e).len() < 6 { fstr(&e) } else { "big".into() }));
        }
        if g.name == "delta" && c.x[0][row].is_one() && !got[row].is_zero() {
            return Err("gate delta: the last row is constrained".into());
        }
    }
    cx.sig(format!("{} {} {}", g.name, sat, n));
    cx.sample(format!("{} n={} satisfied={}", g.name, n, all));
    // the whole way: proved and verified exactly when the relation holds
    if cx.idx % 3 == 0 || cx.thorough {
        let ve = (g.cfg)();
        let verdict = prove_vo(r, n, &c, ve, names)?;
        cx.eval();
        if verdict != all {
            return Err(format!("gate {}: relation holds on all rows: {}, proof accepted: {}", g.name, all, verdict));
        }
        cx.obs(format!("proof {} {}", g.name, if verdict { "accepted" } else { "rejected" }));
    }
    Ok(())
}

/// Proves one gate with the real system.
fn prove_vo(r: &mut R, n: usize, c: &Cols, ve: (VirtualExpression<F>, Vec<VirtualQuery>), names: u64) -> Result<bool, String> {
    use zero_over_k::data_structures::*;
    use zero_over_k::indexer::Indexer;
    use zero_over_k::oracles::fixed::FixedVerifierOracle;
    type PC = TauPC;
    type PK = TurboPlonk<F, PC, PlainFs>;
    let (ck, vk) = keys::<PC>(n, 1);
    let mut wo: Vec<_> = c.w.iter().enumerate().map(|(i, e)| WitnessProverOracle::new(name(names, 'w', i), interp(e), e, false)).collect();
    let mut io = ins_oracles(names, &c.i);
    let mut xo = fixed_oracles(names, 'q', &c.x);
    let mut vo = GenericVO::<F>::init(ve.clone());
    vo.configure(&mut wo, &mut io, &mut xo);
    let zero = vec![F::zero(); n];
    let qb = FixedProverOracle::new("q_blind", P::zero(), &zero);
    let zh = vanishing(n, 0);
    let run = guard(|| -> Result<bool, String> {
        let key = Indexer::<F, PC>::index(&vk, &[&vo], vec![], &wo, &io, &xo, domain(n), &zh, PermutationInfo::dummy(), 0).map_err(|e| format!("indexing: {:?}", e))?;
        let pk = ProverKey::from_ck_and_vk(&ck, &key);
        let pp = ProverPreprocessedInput::new(&xo, &[], &[], &qb, &key.index_info);
        let mut zk = zokmon::fs::ZkRng::new(r.u64());
        let proof = match guard(|| PK::prove(&pk, &pp, &mut wo, &mut io, &[&vo], n, &mut zk)) {
            Ok(Ok(p)) => p,
            _ => return Ok(false),
        };
        let mut wv: Vec<WitnessVerifierOracle<F, PC>> = (0..c.w.len()).map(|i| WitnessVerifierOracle::new(name(names, 'w', i), false)).collect();
        let mut iv: Vec<_> = c.i.iter().enumerate().map(|(i, e)| InstanceVerifierOracle::new(name(names, 'i', i), interp(e))).collect();
        let l: Vec<_> = xo.iter().map(|x| x.to_labeled()).collect();
        use ark_poly_commit::PolynomialCommitment;
        let (cm, _) = PC::commit(&ck, l.iter(), None).map_err(|e| format!("{:?}", e))?;
        let mut xv: Vec<FixedVerifierOracle<F, PC>> = cm.iter().map(FixedVerifierOracle::from_labeled_commitment).collect();
        let mut vo2 = GenericVO::<F>::init(ve.clone());
        vo2.configure(&mut wv, &mut iv, &mut xv);
        let mut vp = VerifierPreprocessedInput::new_wo_blind(xv, vec![], vec![]);
        Ok(PK::verify(&key, &mut vp, proof, &mut wv, &mut iv, &[&vo2], n, &zh).is_ok())
    });
    match run {
        Ok(x) => x,
        Err(p) => Err(format!("crash: {}", p)),
    }
}

fn p18_lookup(r: &mut R, cx: &mut Cx) -> CaseResult {
    let three = r.chance(60);
    let k = if three { 3 } else { 1 };
    let n = 8;
    let names = r.u64();
    let cfg = || {
        if three {
            <PrecompiledSimple3ArithLookup<F> as PrecompiledLookupVO<F>>::get_expressions_and_queries()
        } else {
            <PrecompiledSimple1ArithLookup<F> as PrecompiledLookupVO<F>>::get_expressions_and_queries()
        }
    };
    let rows = |r: &mut R| -> Vec<Vec<F>> { (0..k).map(|_| (0..n).map(|_| r.f()).collect()).collect() };
    let w = rows(r);
    let t = rows(r);
    let mut wo: Vec<_> = w.iter().enumerate().map(|(i, e)| WitnessProverOracle::new(name(names, 'w', i), interp(e), e, false)).collect();
    let mut io: Vec<InstanceProverOracle<F>> = vec![];
    let mut xo: Vec<FixedProverOracle<F>> = vec![];
    let mut to = fixed_oracles(names, 't', &t);
    let mut vo = GenericLookupVO::<F>::init(cfg());
    guard(|| vo.configure(&mut wo, &mut io, &mut xo, &mut to))
        .map_err(|p| format!("ready-made lookup needs other columns than documented: {}", p))?
        .map_err(|e| format!("ready-made lookup: {:?}", e))?;
    let exprs = vo.get_expressions().map_err(|e| format!("{:?}", e))?;
    let tq = vo.get_table_queries().map_err(|e| format!("{:?}", e))?;
    cx.eval();
    if exprs.len() != k || tq.len() != k {
        return Err(format!("ready-made lookup of {} columns has {} expressions and {} table columns", k, exprs.len(), tq.len()));
    }
    for j in 0..k {
        for row in 0..n {
            let v = exprs[j].evaluate(
                &|c| c,
                &|q| wo.iter().find(|o| o.get_label() == q.label).unwrap().query_at_omega_in_original_domain(row, q.rotation),
                &|x: F| -x,
                &|x: F, y: F| x + y,
                &|x: F, y: F| x * y,
                &|x: F, y: F| x * y,
            );
            let tv = to.iter().find(|o| o.get_label() == tq[j].label).unwrap().query_at_omega_in_original_domain(row, tq[j].rotation);
            cx.eval();
            if v != w[j][row] || tv != t[j][row] {
                return Err(format!("ready-made lookup of {} columns: column {} is not looked up in table column {}", k, j, j));
            }
        }
    }
    for (j, o) in wo.iter().enumerate() {
        if o.get_queried_rotations().len() != 1 || to[j].get_queried_rotations().len() != 1 {
            return Err("ready-made lookup leaves a column unopened".into());
        }
    }
    cx.obs(format!("lookup of {} columns", k));
    cx.sig(format!("lookup {}", k));
    Ok(())
}

// ------------------------------------------------------------------ P19

fn rand_expr(r: &mut R, cols: [usize; 3], n: usize, depth: usize, budget: usize) -> E {
    let leaf = depth == 0 || budget == 0 || r.chance(20);
    if leaf {
        let have: Vec<usize> = (0..3).filter(|k| cols[*k] > 0).collect();
        if budget == 0 || have.is_empty() || r.chance(15) {
            return E::C(r.f_mixed());
        }
        let k = *r.pick(&have);
        let kind = [K::W, K::I, K::X][k];
        let rot = match r.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => -1,
            4 => r.below(n) as i64,
            _ => -(r.below(n) as i64),
        };
        let rot = if rot.unsigned_abs() as usize >= n { 0 } else { rot };
        return E::O(kind, r.below(cols[k]), rot);
    }
    match r.below(7) {
        0 => E::Neg(Box::new(rand_expr(r, cols, n, depth - 1, budget))),
        1 => {
            let x = r.f_mixed();
            E::Scale(Box::new(rand_expr(r, cols, n, depth - 1, budget)), x)
        }
        2 | 3 => E::Add(Box::new(rand_expr(r, cols, n, depth - 1, budget)), Box::new(rand_expr(r, cols, n, depth - 1, budget))),
        4 => E::Sub(Box::new(rand_expr(r, cols, n, depth - 1, budget)), Box::new(rand_expr(r, cols, n, depth - 1, budget))),
        _ => {
            let b = r.range(1, budget);
            E::Mul(Box::new(rand_expr(r, cols, n, depth - 1, b)), Box::new(rand_expr(r, cols, n, depth - 1, budget - b)))
        }
    }
}
fn ops(e: &E, s: &mut BTreeSet<&'static str>) {
    match e {
        E::C(_) => {
            s.insert("constant");
        }
        E::O(_, _, rot) => {
            s.insert(if *rot == 0 {
                "current row"
            } else if *rot > 0 {
                "row ahead"
            } else {
                "row behind"
            });
        }
        E::Neg(a) => {
            s.insert("negation");
            ops(a, s)
        }
        E::Scale(a, _) => {
            s.insert("scaling");
            ops(a, s)
        }
        E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
            s.insert(match e {
                E::Add(..) => "sum",
                E::Sub(..) => "difference",
                _ => "product",
            });
            ops(a, s);
            ops(b, s)
        }
    }
}

fn to_named(e: &E, names: u64) -> Expression<F> {
    match e {
        E::C(x) => Expression::Constant(*x),
        E::O(k, c, rot) => {
            let (ch, ty) = match k {
                K::W => ('w', OracleType::Witness),
                K::I => ('i', OracleType::Instance),
                K::X => ('q', OracleType::Fixed),
            };
            Expression::from(OracleQuery { label: name(names, ch, *c), rotation: rotation(*rot), oracle_type: ty })
        }
        E::Neg(a) => -to_named(a, names),
        E::Scale(a, x) => to_named(a, names) * *x,
        E::Add(a, b) => to_named(a, names) + to_named(b, names),
        E::Sub(a, b) => to_named(a, names) - to_named(b, names),
        E::Mul(a, b) => to_named(a, names) * to_named(b, names),
    }
}

fn p19(r: &mut R, cx: &mut Cx) -> CaseResult {
    // now and then a domain on which offsets do not fit one byte
    let large = r.chance(3);
    let n = if large { *r.pick(&[256usize, 512, 1024]) } else { *r.pick(&[2usize, 4, 8, 8, 16, 32]) };
    let cols = [r.range(1, 3), r.below(3), r.below(3)];
    let depth = r.range(1, 6);
    let maxdeg = if large { r.range(1, 2) } else { r.range(1, 6) };
    let e = rand_expr(r, cols, n, depth, maxdeg);
    let random_cols = r.chance(60);
    let mut mk = |r: &mut R, k: usize| -> Vec<Vec<F>> {
        (0..k).map(|_| (0..n).map(|_| if random_cols { r.f() } else { r.f_mixed() }).collect()).collect()
    };
    let (w, i, x) = (mk(r, cols[0]), mk(r, cols[1]), mk(r, cols[2]));
    let names = r.u64();
    let shown = e.show();
    cx.note(format!("n={} {}", n, shown));
    let deg = e.degree();
    let size = ((deg * (n - 1) + 1).max(n)).next_power_of_two() * if r.chance(30) { 2 } else { 1 };
    let ext: D = GeneralEvaluationDomain::new(size).unwrap();
    let d = domain(n);
    let mut wo: Vec<_> = w.iter().enumerate().map(|(k, e)| WitnessProverOracle::new(name(names, 'w', k), interp(e), e, false)).collect();
    let mut io = ins_oracles(names, &i);
    let mut xo = fixed_oracles(names, 'q', &x);
    let mut vo = GenericVO::<F>::init((e.to_ve(), e.queries().iter().map(vq).collect()));
    guard(|| vo.configure(&mut wo, &mut io, &mut xo)).map_err(|p| format!("configuring: {}", p))?;
    // coset values are needed first
    cx.eval();
    if wo[0].query_in_coset(0, rotation(0)).is_ok() {
        return Err("coset values exist before they were computed".into());
    }
    wo.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
    io.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
    xo.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
    let expr = vo.get_expression().map_err(|e| format!("{:?}", e))?;
    // columns by label
    fn by<'a, T: Instantiable<F>>(v: &'a [T], l: &str) -> &'a dyn Instantiable<F> {
        v.iter().find(|o| o.get_label() == l).expect("label")
    }
    let col = |q: &OracleQuery| -> &dyn Instantiable<F> {
        match q.oracle_type {
            OracleType::Witness => by(&wo, &q.label),
            OracleType::Instance => by(&io, &q.label),
            OracleType::Fixed => by(&xo, &q.label),
        }
    };
    let eval = |get: &dyn Fn(&OracleQuery) -> F| -> Result<F, String> {
        guard(|| expr.evaluate(&|c| c, &|q| get(q), &|x: F| -x, &|x: F, y: F| x + y, &|x: F, y: F| x * y, &|x: F, y: F| x * y)).map_err(|p| format!("crash: {}", p))
    };
    // rows
    let model = |row: usize| {
        e.eval(&|k, c, rot| {
            let at = idx(row, rot, n);
            match k {
                K::W => w[c][at],
                K::I => i[c][at],
                K::X => x[c][at],
            }
        })
    };
    for row in 0..n {
        let got = eval(&|q| col(q).query_at_omega_in_original_domain(row, q.rotation))?;
        cx.eval();
        if got != model(row) {
            return Err(format!("{} at row {} of {}: row-wise value is wrong", shown, row, n));
        }
    }
    // the same expression written with named columns and operators
    let direct = to_named(&e, names);
    for _ in 0..4 {
        let row = r.below(n);
        let got = guard(|| {
            direct.evaluate(&|c| c, &|q| col(q).query_at_omega_in_original_domain(row, q.rotation), &|x: F| -x, &|x: F, y: F| x + y, &|x: F, y: F| x * y, &|x: F, y: F| x * y)
        })
        .map_err(|p| format!("crash: {}", p))?;
        cx.eval();
        if got != model(row) {
            return Err(format!("{} at row {} of {}: wrong value when written with operators", shown, row, n));
        }
    }
    let dd = direct.degree(&|q| Ok(col(q).get_degree(n))).map_err(|e| format!("degree: {:?}", e))?;
    if dd != deg * (n - 1) {
        return Err(format!("{}: degree {} when written with operators instead of {}", shown, dd, deg * (n - 1)));
    }
    cx.obs("written with operators");
    // a constant column built with its coset values at once
    if !x.is_empty() {
        let k = r.below(x.len());
        let o = FixedProverOracle::from_evals_and_domains(name(names, 'q', k), &x[k], &d, &ext);
        for _ in 0..4 {
            let (at, rot) = (r.below(size), r.below(n) as i64 * if r.chance(50) { 1 } else { -1 });
            cx.eval();
            if o.query_in_coset(at, rotation(rot)).ok() != xo[k].query_in_coset(at, rotation(rot)).ok() || o.get_label() != name(names, 'q', k) {
                return Err(format!("constant column built with coset values: other value at coset index {} offset {}", at, rot));
            }
            let (row, want) = (at % n, x[k][idx(at % n, rot, n)]);
            if o.query_at_omega_in_original_domain(row, rotation(rot)) != want || o.polynomial() != xo[k].polynomial() {
                return Err("constant column built with coset values: other rows".into());
            }
        }
    }
    // coset
    let mut cv = vec![];
    for k in 0..size {
        cv.push(eval(&|q| col(q).query_in_coset(k, q.rotation).expect("coset values"))?);
    }
    let poly = P::from_coefficients_vec(ext.coset_ifft(&cv));
    for row in 0..n {
        cx.eval();
        if poly.evaluate(&d.element(row)) != model(row) {
            return Err(format!("{} at row {} of {}: the polynomial from the extended coset has another value", shown, row, n));
        }
    }
    // challenges
    let omegas: Vec<F> = d.elements().collect();
    for _ in 0..2 {
        let xi = r.f();
        let got = eval(&|q| {
            let at = q.rotation.compute_evaluation_point(xi, &omegas);
            col(q).query(&at).expect("query")
        })?;
        cx.eval();
        if got != poly.evaluate(&xi) {
            return Err(format!("{}: value at a challenge differs from the coset polynomial (n={}, coset {})", shown, n, size));
        }
        for (k, c, rot) in e.queries() {
            let p = rotation(rot).compute_evaluation_point(xi, &omegas);
            let want = xi * d.element(idx(0, rot, n));
            let info = rotation(rot).get_point_info("xi", xi, &omegas);
            cx.eval();
            if p != want || info.1 != want {
                return Err(format!("offset {} of column {:?}{}: opened at a wrong point", rot, k, c));
            }
        }
    }
    // point labels identify points
    let xi = r.f_nz();
    let mut seen: BTreeMap<String, F> = BTreeMap::new();
    for rot in -(n as i64 - 1)..n as i64 {
        let (l, p) = rotation(rot).get_point_info("xi", xi, &omegas);
        if let Some(q) = seen.insert(l.clone(), p) {
            if q != p {
                return Err(format!("two points share the label {}", l));
            }
        }
    }
    // degree
    let reported = expr
        .degree(&|q| Ok(col(q).get_degree(n)))
        .map_err(|e| format!("degree: {:?}", e))?;
    let actual = poly.coeffs.iter().rposition(|c| !c.is_zero()).unwrap_or(0);
    cx.eval();
    if actual > reported {
        return Err(format!("{}: polynomial of degree {}, reported degree {}", shown, actual, reported));
    }
    if reported != deg * (n - 1) {
        return Err(format!("{}: reported degree {} is not tight, columns have degree {}", shown, reported, n - 1));
    }
    if actual == reported && deg > 0 {
        cx.obs("reported degree attained");
    }
    // registered offsets
    for (k, c, rot) in e.queries() {
        let set = match k {
            K::W => wo[c].get_queried_rotations(),
            K::I => io[c].get_queried_rotations(),
            K::X => xo[c].get_queried_rotations(),
        };
        cx.eval();
        if !set.contains(&rotation(rot)) {
            return Err(format!("configuring did not register offset {} of column {:?}{}", rot, k, c));
        }
    }
    // evaluation from rows
    let xi = r.f();
    let lag = d.evaluate_all_lagrange_coefficients(xi);
    for o in io.iter() {
        cx.eval();
        if o.query_in_evals_form(&lag) != o.polynomial().evaluate(&xi) {
            return Err("evaluation from rows differs from the polynomial".into());
        }
    }
    // the vanishing polynomial over a coset
    if size > n {
        let v = guard(|| compute_vanishing_poly_over_coset::<F, D>(ext, n as u64)).map_err(|p| format!("vanishing values: {}", p))?;
        for (k, z) in v.iter().enumerate() {
            cx.eval();
            let at = F::multiplicative_generator() * ext.element(k);
            if *z != at.pow([n as u64]) - F::one() {
                return Err(format!("vanishing polynomial has a wrong value at coset index {}", k));
            }
        }
    }
    let mut s = BTreeSet::new();
    ops(&e, &mut s);
    for o in &s {
        cx.obs(format!("expression with {}", o));
    }
    if e.queries().iter().any(|q| q.2 < -1) {
        cx.obs("far row behind");
    }
    cx.sig(format!("{:?} d{} n{} s{} {:?}", s, deg, n, size / n, e.queries().len()));
    cx.sample(format!("n={} coset={} {}", n, size, shown));
    Ok(())
}

// ------------------------------------------------------------------ P21

fn p21(r: &mut R, cx: &mut Cx) -> CaseResult {
    use zero_over_k::lookup::permute::permute_for_lookup;
    let n = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => r.range(1, 6),
        3 if r.chance(if cx.thorough { 5 } else { 1 }) => r.range(250, 1100),
        _ => r.range(3, if cx.thorough { 300 } else { 70 }),
    };
    let alphabet = if r.chance(20) { r.range(1, 4) } else { r.range(1, n + 2) };
    let pool: Vec<F> = (0..alphabet).map(|k| if r.chance(50) { F::from(k as u64) } else { r.f_mixed() }).collect();
    let s: Vec<F> = (0..n).map(|_| *r.pick(&pool)).collect();
    let style = *r.pick(&["from table", "one value", "two values", "identical", "reversed", "each once"]);
    let a: Vec<F> = match style {
        "one value" => vec![*r.pick(&s); n],
        "two values" => {
            let (x, y) = (*r.pick(&s), *r.pick(&s));
            (0..n).map(|_| if r.chance(50) { x } else { y }).collect()
        }
        "identical" => s.clone(),
        "reversed" => s.iter().rev().cloned().collect(),
        "each once" => {
            let mut t = s.clone();
            t.sort();
            t.dedup();
            let k = t.len();
            (0..n).map(|i| t[i % k]).collect()
        }
        _ => (0..n).map(|_| *r.pick(&s)).collect(),
    };
    cx.note(format!("{} inputs, {}, {} distinct table values", n, style, s.iter().collect::<BTreeSet<_>>().len()));
    let sorted = |v: &[F]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    let (ap, sp) = guard(|| permute_for_lookup(&a, &s)).map_err(|p| format!("crash on a satisfiable lookup of {} rows: {}", n, p))?;
    cx.eval();
    if sorted(&ap) != sorted(&a) {
        return Err(format!("permuted inputs are no rearrangement of the inputs ({} rows)", n));
    }
    if sorted(&sp) != sorted(&s) {
        return Err(format!("permuted table is no rearrangement of the table ({} rows)", n));
    }
    for i in 0..n {
        if ap[i] != sp[i] && (i == 0 || ap[i] != ap[i - 1]) {
            return Err(format!("row {} of {}: permuted input is neither its table entry nor its predecessor", i, n));
        }
    }
    cx.obs(format!("paired: {}", style));
    cx.sig(format!("{} n{} d{}", style, n, s.iter().collect::<BTreeSet<_>>().len()));
    cx.sample(format!("{} rows, {}, {} distinct table values", n, style, s.iter().collect::<BTreeSet<_>>().len()));
    // inputs outside the table
    let mut bad = a.clone();
    let k = adv::edge_row(r, n);
    let set: BTreeSet<F> = s.iter().cloned().collect();
    let v = match r.below(5) {
        0 => F::zero(),
        1 => s[k] + F::one(),
        2 => *set.iter().next_back().unwrap() + F::one(),
        3 => -*set.iter().next().unwrap(),
        _ => r.f(),
    };
    if !set.contains(&v) {
        bad[k] = v;
        if r.chance(20) {
            bad.iter_mut().for_each(|x| *x = v);
        }
        let res = guard(|| permute_for_lookup(&bad, &s));
        cx.eval();
        if res.is_ok() {
            return Err(format!("an input outside the table was accepted ({} rows, row {})", n, k));
        }
        cx.obs("refused: input outside the table");
        cx.sig(format!("outside n{} k{}", n, k));
    }
    Ok(())
}

// ------------------------------------------------------------------ P24

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Absorb(Vec<u8>),
    U32,
    U64,
    Fill(usize),
    Try(usize),
    Field,
}
fn apply<S: FiatShamirRng>(f: &mut S, o: &Op) -> Vec<u8> {
    use ark_ff::UniformRand;
    match o {
        Op::Absorb(b) => {
            f.absorb(b);
            vec![]
        }
        Op::U32 => f.next_u32().to_le_bytes().to_vec(),
        Op::U64 => f.next_u64().to_le_bytes().to_vec(),
        Op::Fill(k) => {
            let mut v = vec![0u8; *k];
            f.fill_bytes(&mut v);
            v
        }
        Op::Try(k) => {
            let mut v = vec![0u8; *k];
            f.try_fill_bytes(&mut v).expect("fill");
            v
        }
        Op::Field => bytes(&F::rand(f)),
    }
}
fn play<S: FiatShamirRng>(init: &Vec<u8>, h: &[Op]) -> (Vec<Vec<u8>>, S) {
    let mut f = S::initialize(init);
    let out = h.iter().map(|o| apply(&mut f, o)).collect();
    (out, f)
}
fn tail<S: FiatShamirRng>(mut f: S) -> Vec<u8> {
    let mut v = vec![0u8; 48];
    f.fill_bytes(&mut v);
    v
}
fn blob(r: &mut R) -> Vec<u8> {
    // now and then as long as a transcript of a large circuit
    let k = match r.below(60) {
        0..=9 => 0,
        10..=19 => 1,
        20..=29 => 32,
        30..=39 => r.range(60, 140),
        40 => r.range(1000, 9000),
        41 => r.range(60_000, 70_000),
        _ => r.range(1, 40),
    };
    match r.below(4) {
        0 => vec![0u8; k],
        _ => (0..k).map(|_| r.u64() as u8).collect(),
    }
}

fn p24_s<S: FiatShamirRng>(r: &mut R, cx: &mut Cx, kind: &str) -> CaseResult {
    let init = blob(r);
    let len = r.range(1, 12);
    let h: Vec<Op> = (0..len)
        .map(|_| match r.below(9) {
            0 => Op::U32,
            1 => Op::U64,
            2 => Op::Fill(r.range(0, 70)),
            3 => Op::Try(r.range(0, 70)),
            4 => Op::Field,
            _ => Op::Absorb(blob(r)),
        })
        .collect();
    let long = init.len().max(h.iter().map(|o| if let Op::Absorb(b) = o { b.len() } else { 0 }).max().unwrap_or(0));
    if long >= 1000 {
        cx.obs("long inputs");
        cx.note(format!("{} history of {} steps with inputs of up to {} bytes", kind, len, long));
    } else {
        cx.note(format!("{} init {:?} history {:?}", kind, init, h));
        cx.sample(format!("{} {:?}", kind, h));
    }
    let (o1, s1) = play::<S>(&init, &h);
    let (o2, s2) = play::<S>(&init, &h);
    let t1 = tail(s1);
    cx.eval();
    if o1 != o2 || t1 != tail(s2) {
        return Err("equal histories give different streams".into());
    }
    cx.obs("equal histories, equal streams");
    cx.sig(format!("same {} {}", kind, h.iter().map(|o| format!("{:?}", o).chars().next().unwrap()).collect::<String>()));
    let mut differs = |cx: &mut Cx, what: &str, init2: &Vec<u8>, h2: &[Op], at: usize| -> CaseResult {
        let (o, s) = play::<S>(init2, h2);
        cx.eval();
        if tail(s) == t1 {
            return Err(format!("{}: the stream is the same afterwards", what));
        }
        // every later draw of at least eight bytes differs too
        if h2.len() == h.len() {
            for k in at..h.len() {
                if o1[k].len() >= 8 && h[k] == h2[k] && o1[k] == o[k] {
                    return Err(format!("{}: the draw number {} is the same", what, k));
                }
            }
        }
        cx.obs(format!("streams differ: {}", what));
        cx.sig(format!("{} {} at {} of {}", kind, what, at, h.len()));
        Ok(())
    };
    // initial input
    let mut i2 = init.clone();
    match r.below(3) {
        0 => i2.push(0),
        1 if !i2.is_empty() => {
            let k = r.below(i2.len());
            i2[k] ^= 1 << r.below(8);
        }
        _ => i2.insert(0, 1),
    }
    differs(cx, "initial input", &i2, &h, 0)?;
    let abs: Vec<usize> = (0..h.len()).filter(|k| matches!(h[*k], Op::Absorb(_))).collect();
    for &k in &abs {
        let mut h2 = h.clone();
        let what = if let Op::Absorb(b) = &mut h2[k] {
            match r.below(4) {
                0 => {
                    b.push(0);
                    "byte appended"
                }
                1 if !b.is_empty() => {
                    b.pop();
                    "byte removed"
                }
                2 => {
                    b.insert(0, 0);
                    "byte prepended"
                }
                _ if !b.is_empty() => {
                    let j = match r.below(3) {
                        0 => 0,
                        1 => b.len() - 1,
                        _ => r.below(b.len()),
                    };
                    b[j] ^= 1 << r.below(8);
                    "bit flipped"
                }
                _ => {
                    b.push(7);
                    "byte appended"
                }
            }
        } else {
            unreachable!()
        };
        differs(cx, what, &init, &h2, k)?;
        // absorption left out, or made twice
        let mut h3 = h.clone();
        h3.remove(k);
        differs(cx, "absorption left out", &init, &h3, k)?;
        let mut h4 = h.clone();
        h4.insert(k, h[k].clone());
        differs(cx, "absorption repeated", &init, &h4, k)?;
        // the same bytes in other portions
        if let (Some(Op::Absorb(x)), Some(Op::Absorb(y))) = (h.get(k), h.get(k + 1)) {
            let all: Vec<u8> = x.iter().chain(y).cloned().collect();
            let mut h5 = h.clone();
            h5.remove(k);
            h5[k] = Op::Absorb(all.clone());
            differs(cx, "absorptions joined", &init, &h5, k)?;
            let cut = r.range(0, all.len());
            if cut != x.len() {
                let mut h6 = h.clone();
                h6[k] = Op::Absorb(all[..cut].to_vec());
                h6[k + 1] = Op::Absorb(all[cut..].to_vec());
                differs(cx, "absorptions divided elsewhere", &init, &h6, k)?;
            }
        }
        if k == 0 {
            if let Op::Absorb(x) = &h[0] {
                let all: Vec<u8> = init.iter().chain(x).cloned().collect();
                differs(cx, "first absorption joined with the initial input", &all, &h[1..], 0)?;
            }
        }
    }
    for w in abs.windows(2) {
        if h[w[0]] != h[w[1]] {
            let mut h2 = h.clone();
            h2.swap(w[0], w[1]);
            differs(cx, "order of absorptions", &init, &h2, w[0])?;
        }
    }
    if abs.len() >= 2 {
        let (x, y) = (abs[0], *abs.last().unwrap());
        if h[x] != h[y] {
            let mut h2 = h.clone();
            h2.swap(x, y);
            differs(cx, "order of absorptions", &init, &h2, x)?;
        }
    }
    // widths
    let fresh = || play::<S>(&init, &h).1;
    let mut big = vec![0u8; 64];
    let mut a = fresh();
    a.fill_bytes(&mut big);
    cx.eval();
    let mut b2 = vec![0u8; 64];
    fresh().try_fill_bytes(&mut b2).expect("fill");
    if b2 != big {
        return Err("filling and trying to fill draw differently".into());
    }
    if fresh().next_u32().to_le_bytes() != big[..4] || fresh().next_u64().to_le_bytes() != big[..8] {
        return Err("word and byte draws come from different states".into());
    }
    // nor does a long draw repeat itself, in whole or across draws
    if cx.idx % 16 == 0 {
        let mut long = vec![];
        let mut f = fresh();
        for _ in 0..r.range(1, 4) {
            let k = r.range(40, 400);
            let how = if r.chance(50) { Op::Fill(k) } else { Op::Try(k) };
            long.extend(apply(&mut f, &how));
        }
        cx.eval();
        let mut seen = std::collections::HashMap::new();
        for (i, w) in long.windows(16).enumerate() {
            if let Some(j) = seen.insert(w, i) {
                return Err(format!("the stream repeats itself: bytes {} and {} on", j, i));
            }
        }
        cx.obs("long draws without repetition");
    }
    // drawing moves on
    for o in [Op::U32, Op::U64, Op::Fill(8), Op::Try(8), Op::Field] {
        let mut x = fresh();
        let first = apply(&mut x, &o);
        let second = apply(&mut x, &o);
        let third = apply(&mut x, &o);
        cx.eval();
        if first == second && second == third {
            return Err(format!("{:?} draws the same value again", o));
        }
        if tail(x) == t1 {
            return Err(format!("{:?} does not advance the stream", o));
        }
        cx.obs(format!("advancing draws: {}", format!("{:?}", o).split('(').next().unwrap()));
    }
    let ones: u32 = t1.iter().map(|b| b.count_ones()).sum();
    if ones < 100 || ones > 290 {
        return Err(format!("{} of 384 stream bits are set", ones));
    }
    // absorbing after drawing restarts from what was absorbed, never from the past stream
    let mut x = fresh();
    x.absorb(&vec![1u8]);
    let mut y = fresh();
    y.absorb(&vec![2u8]);
    let (tx, ty) = (tail(x), tail(y));
    cx.eval();
    if tx == ty || tx == t1 || ty == t1 {
        return Err("absorbing does not change the stream".into());
    }
    let _ = to_bytes![F::one()];
    Ok(())
}
fn p24(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx % 4 == 3 {
        p24_s::<SimpleHashFiatShamirRng<blake2::Blake2s, rand_chacha::ChaCha8Rng>>(r, cx, "ChaCha8")
    } else if cx.idx % 8 == 5 {
        p24_s::<SimpleHashFiatShamirRng<blake2::Blake2b, rand_chacha::ChaCha20Rng>>(r, cx, "Blake2b")
    } else {
        p24_s::<PlainFs>(r, cx, "ChaCha20")
    }
}

// ------------------------------------------------------------------ P26

fn p26(r: &mut R, cx: &mut Cx) -> CaseResult {
    use zero_over_k::data_structures::*;
    use zero_over_k::indexer::Indexer;
    type PC = TauPC;
    type PK = TurboPlonk<F, PC, PlainFs>;
    let mut cfg = Cfg { ns: vec![4, 8], gates: (1, 3), lookups: (0, 2), perm: 0, zh: 10, max_deg: 3, inst: 80, ..Cfg::default() };
    if cx.idx % 3 == 0 {
        cfg.lookups = (1, 2);
    }
    let (c, a) = gen(r, &cfg);
    cx.note(c.show());
    let (ck, vk) = keys::<PC>(c.n, 1);
    let names = r.u64() % 256;
    let prep = Prep::<PC>::new(&c, &ck, &vk, names);
    let s = prep.setup(&a).map_err(|e| format!("indexing: {}", e))?;
    let d = domain(c.n);
    let u = if c.needs_u() { c.u } else { 0 };
    // outcome of a call that must report an error
    fn outcome<T, X: std::fmt::Debug>(x: Result<Result<T, X>, String>) -> Result<String, String> {
        match x {
            Ok(Ok(_)) => Err("succeeded".into()),
            Ok(Err(e)) => Ok(format!("{:?}", e)),
            Err(p) => Err(format!("panic {}", p)),
        }
    }
    let mut must = |cx: &mut Cx, what: &str, hint: &[&str], res: Result<String, String>| -> CaseResult {
        cx.eval();
        match res {
            Err(e) => Err(format!("{}: {} instead of an error", what, e)),
            Ok(e) => {
                if !hint.is_empty() && !hint.iter().all(|h| e.contains(h)) {
                    return Err(format!("{}: the error {} does not identify the problem ({:?})", what, e, hint));
                }
                cx.obs(format!("reported: {}", what));
                cx.sig(format!("{} {}", what, c.sig()));
                Ok(())
            }
        }
    };
    // --- unbound gates and lookups
    let raw = build_vos(&c);
    for v in &raw {
        must(cx, "unbound gate asked for its expression", &[], outcome(guard(|| v.get_expression())))?;
    }
    let rawl = build_lookups(&c);
    for l in &rawl {
        must(cx, "unbound lookup asked for its expressions", &[], outcome(guard(|| l.get_expressions())))?;
        must(cx, "unbound lookup asked for its tables", &[], outcome(guard(|| l.get_table_queries())))?;
    }
    let bad = r.below(raw.len().max(1));
    let (w0, i0, vos) = prep.prover_side(&a);
    let mixed: Vec<&dyn VirtualOracle<F>> = vos.iter().enumerate().map(|(k, v)| if k == bad { &raw[bad] as _ } else { v as _ }).collect();
    let good: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as _).collect();
    let lks: Vec<GenericLookupVO<F>> = {
        let mut w = w0.clone();
        let mut i = i0.clone();
        let mut x = prep.xp.clone();
        let mut t = prep.tp.clone();
        let mut l = build_lookups(&c);
        for v in l.iter_mut() {
            v.configure(&mut w, &mut i, &mut x, &mut t).map_err(|e| format!("{:?}", e))?;
        }
        l
    };
    fn lr(v: &[GenericLookupVO<F>]) -> Vec<&dyn LookupVirtualOracle<F>> {
        v.iter().map(|x| x as _).collect()
    }
    let index = |vos: &[&dyn VirtualOracle<F>], l: &[GenericLookupVO<F>], w: &[WitnessProverOracle<F>], i: &[InstanceProverOracle<F>], x: &[FixedProverOracle<F>]| {
        outcome(guard(|| {
            Indexer::<F, PC>::index(&vk, vos, lr(l), w, i, x, d, &prep.zh, prep.perm_info(), u).map(|_| ())
        }))
    };
    let prove = |pk: &ProverKey<F, PC>, pp: &ProverPreprocessedInput<F, PC>, vos: &[&dyn VirtualOracle<F>], w: &[WitnessProverOracle<F>], i: &[InstanceProverOracle<F>]| {
        let mut w = w.to_vec();
        let mut i = i.to_vec();
        let mut zk = zokmon::fs::ZkRng::new(3);
        guard(|| PK::prove(pk, pp, &mut w, &mut i, vos, c.n, &mut zk))
    };
    must(cx, "unbound gate indexed", &["UninitializedExpr"], index(&mixed, &lks, &w0, &i0, &prep.xp))?;
    must(cx, "unbound gate proved", &["UninitializedExpr"], outcome(prove(&s.pk, &s.pp, &mixed, &w0, &i0)))?;
    if !rawl.is_empty() {
        must(cx, "unbound lookup indexed", &["Uninitialized"], index(&good, &rawl, &w0, &i0, &prep.xp))?;
        // a key that holds unbound lookups
        let mut vk2 = s.pk.vk.clone();
        vk2.index_info.lookups = lr(&rawl);
        let pk2 = ProverKey::<F, PC>::from_ck_and_vk(&ck, &vk2);
        must(cx, "unbound lookup proved", &["Uninitialized"], outcome(prove(&pk2, &s.pp, &good, &w0, &i0)))?;
    }
    // --- verification
    let proof = match s.prove::<PlainFs>(&a, 5) {
        Ok(p) => p,
        Err(e) => return Err(format!("honest proof: {}", e)),
    };
    let v = s.verify::<PlainFs>(dup(&proof), &a.i);
    cx.eval();
    if !v.accepted() {
        return Err(format!("honest proof: {:?}", v));
    }
    cx.obs("honest proof accepted");
    let vos_v: Vec<GenericVO<F>> = {
        let mut w = prep.wv.clone();
        let mut i = prep.verifier_instance(&a.i);
        let mut x = prep.xv.clone();
        let mut v = build_vos(&c);
        for g in v.iter_mut() {
            g.configure(&mut w, &mut i, &mut x);
        }
        v
    };
    let verify = |vk: &VerifierKey<F, PC>, vp: VerifierPreprocessedInput<F, PC>, vos: &[&dyn VirtualOracle<F>], w: Vec<WitnessVerifierOracle<F, PC>>, i: Vec<InstanceVerifierOracle<F>>| {
        let (mut vp, mut w, mut i) = (vp, w, i);
        outcome(guard(|| PK::verify(vk, &mut vp, dup(&proof), &mut w, &mut i, vos, c.n, &prep.zh)))
    };
    let goodv: Vec<&dyn VirtualOracle<F>> = vos_v.iter().map(|v| v as _).collect();
    let mixedv: Vec<&dyn VirtualOracle<F>> = vos_v.iter().enumerate().map(|(k, v)| if k == bad { &raw[bad] as _ } else { v as _ }).collect();
    must(cx, "unbound gate verified", &["UninitializedExpr"], verify(&s.vk, s.vp.clone(), &mixedv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
    if !rawl.is_empty() {
        let mut vk2 = s.vk.clone();
        vk2.index_info.lookups = lr(&rawl);
        must(cx, "unbound lookup verified", &["Uninitialized"], verify(&vk2, s.vp.clone(), &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
    }
    // --- columns that are not there (supplied under another name)
    let used = c.queried();
    let in_gates: BTreeSet<Q> = c.gates.iter().flat_map(|g| g.queries()).collect();
    let rename_w = |k: usize| -> Vec<WitnessProverOracle<F>> {
        let mut w = w0.clone();
        let mut o = WitnessProverOracle::new(format!("other {}", k), w[k].polynomial().clone(), w[k].evals(), false);
        for q in w[k].get_queried_rotations().clone() {
            o.register_rotation(q);
        }
        w[k] = o;
        w
    };
    let uw: Vec<usize> = (0..c.nw).filter(|k| used.iter().any(|q| q.0 == K::W && q.1 == *k)).collect();
    if !uw.is_empty() {
        let k = *r.pick(&uw);
        let lab = name(names, 'w', k);
        let hint = ["MissingWitnessOracle", lab.as_str()];
        let w = rename_w(k);
        must(cx, "missing witness column indexed", &hint, index(&good, &lks, &w, &i0, &prep.xp))?;
        must(cx, "missing witness column proved", &hint, outcome(prove(&s.pk, &s.pp, &good, &w, &i0)))?;
        let mut wv = prep.wv.clone();
        let mut o = WitnessVerifierOracle::<F, PC>::new(format!("other {}", k), false);
        for q in wv[k].get_queried_rotations().clone() {
            o.register_rotation(q);
        }
        wv[k] = o;
        must(cx, "missing witness column verified", &hint[..0], verify(&s.vk, s.vp.clone(), &goodv, wv, prep.verifier_instance(&a.i)))?;
        if !c.gates.is_empty() && c.nw > 0 {
            let mut w = w0.clone();
            w.remove(k);
            must(cx, "witness column left out when indexing", &hint, index(&good, &lks, &w, &i0, &prep.xp))?;
            must(cx, "witness column left out when proving", &hint, outcome(prove(&s.pk, &s.pp, &good, &w, &i0)))?;
            let mut wv = prep.wv.clone();
            wv.remove(k);
            must(cx, "witness column left out when verifying", &[], verify(&s.vk, s.vp.clone(), &goodv, wv, prep.verifier_instance(&a.i)))?;
        }
    }
    let ui: Vec<usize> = (0..c.ni).filter(|k| used.iter().any(|q| q.0 == K::I && q.1 == *k)).collect();
    if !ui.is_empty() {
        let k = *r.pick(&ui);
        let lab = name(names, 'i', k);
        let hint = ["MissingInstanceOracle", lab.as_str()];
        let mut i = i0.clone();
        i.remove(k);
        must(cx, "missing instance column indexed", &hint, index(&good, &lks, &w0, &i, &prep.xp))?;
        must(cx, "missing instance column proved", &hint, outcome(prove(&s.pk, &s.pp, &good, &w0, &i)))?;
        let mut iv = prep.verifier_instance(&a.i);
        iv.remove(k);
        must(cx, "missing instance column verified", &[], verify(&s.vk, s.vp.clone(), &goodv, prep.wv.clone(), iv))?;
        let mut iv = prep.verifier_instance(&a.i);
        iv[k] = InstanceVerifierOracle::new("other", interp(&a.i[k]));
        must(cx, "renamed instance column verified", &hint[..0], verify(&s.vk, s.vp.clone(), &goodv, prep.wv.clone(), iv))?;
    }
    let ux: Vec<usize> = (0..c.x.len()).filter(|k| used.iter().any(|q| q.0 == K::X && q.1 == *k)).collect();
    if !ux.is_empty() {
        let k = *r.pick(&ux);
        let lab = name(names, 'q', k);
        let hint = ["MissingFixedOracle", lab.as_str()];
        let mut x = prep.xp.clone();
        x.remove(k);
        must(cx, "missing fixed column indexed", &hint, index(&good, &lks, &w0, &i0, &x))?;
        let pp = ProverPreprocessedInput::new(&x, &prep.sp, &prep.tp, &prep.qbp, &s.pk.vk.index_info);
        must(cx, "missing fixed column proved", &hint, outcome(prove(&s.pk, &pp, &good, &w0, &i0)))?;
        let mut vp = s.vp.clone();
        vp.fixed_oracles.remove(k);
        must(cx, "missing fixed column verified", &[], verify(&s.vk, vp, &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
    }
    let _ = &in_gates;
    let ut: Vec<usize> = (0..c.tables.len()).filter(|k| c.lookups.iter().any(|l| l.tables.iter().any(|t| t.0 == *k))).collect();
    if !ut.is_empty() {
        let k = *r.pick(&ut);
        let lab = name(names, 't', k);
        let mut t = prep.tp.clone();
        t.remove(k);
        let pp = ProverPreprocessedInput::new(&prep.xp, &prep.sp, &t, &prep.qbp, &s.pk.vk.index_info);
        must(cx, "missing table column proved", &[lab.as_str()], outcome(prove(&s.pk, &pp, &good, &w0, &i0)))?;
        let mut vp = s.vp.clone();
        vp.table_oracles.remove(k);
        must(cx, "missing table column verified", &[], verify(&s.vk, vp, &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
    }
    // --- columns under another name, opened at the same points: only what
    // --- the constraints refer to is missing
    if !ux.is_empty() {
        let k = *r.pick(&ux);
        let lab = name(names, 'q', k);
        let mut vp = s.vp.clone();
        let old = &vp.fixed_oracles[k];
        let mut o = FixedVerifierOracle::<F, PC>::new(format!("{}'", lab), old.get_commitment().ok().cloned());
        for q in old.get_queried_rotations().clone() {
            o.register_rotation(q);
        }
        vp.fixed_oracles[k] = o;
        must(cx, "renamed fixed column verified", &["MissingFixedOracle", lab.as_str()], verify(&s.vk, vp, &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
    }
    if !ut.is_empty() {
        let k = *r.pick(&ut);
        let lab = name(names, 't', k);
        let mut vp = s.vp.clone();
        let old = &vp.table_oracles[k];
        let mut o = FixedVerifierOracle::<F, PC>::new(format!("{}'", lab), old.get_commitment().ok().cloned());
        for q in old.get_queried_rotations().clone() {
            o.register_rotation(q);
        }
        vp.table_oracles[k] = o;
        must(cx, "renamed table column verified", &["Missing", lab.as_str()], verify(&s.vk, vp, &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
    }
    // --- lookups bound by other means than the library's own binding
    if !lks.is_empty() {
        struct Bound {
            e: Vec<Expression<F>>,
            t: Vec<OracleQuery>,
        }
        impl LookupVirtualOracle<F> for Bound {
            fn get_expressions(&self) -> Result<&[Expression<F>], zero_over_k::vo::error::Error> {
                Ok(&self.e)
            }
            fn get_table_queries(&self) -> Result<&[OracleQuery], zero_over_k::vo::error::Error> {
                Ok(&self.t)
            }
        }
        let at = r.below(lks.len());
        let own: Vec<Bound> = lks.iter().map(|l| Bound { e: l.get_expressions().unwrap().to_vec(), t: l.get_table_queries().unwrap().to_vec() }).collect();
        let col = r.below(own[at].t.len());
        for (what, ty, lab, hint) in [
            ("private table", Some(OracleType::Witness), name(names, 'w', 0), "WitnessTableNotAllowed"),
            ("public table", Some(OracleType::Instance), name(names, 'i', 0), "InstanceTableNotAllowed"),
            ("unknown table", None, "nowhere".to_string(), "nowhere"),
            ("table that is a constant column", None, name(names, 'q', 0), "Missing"),
        ] {
            let mut own: Vec<Bound> = own.iter().map(|b| Bound { e: b.e.clone(), t: b.t.clone() }).collect();
            let q = &mut own[at].t[col];
            if let Some(ty) = ty {
                q.oracle_type = ty;
            }
            q.label = lab.clone();
            let refs: Vec<&dyn LookupVirtualOracle<F>> = own.iter().map(|b| b as _).collect();
            let mut vk2 = s.pk.vk.clone();
            vk2.index_info.lookups = refs.clone();
            let pk2 = ProverKey::<F, PC>::from_ck_and_vk(&ck, &vk2);
            must(cx, &format!("{} proved", what), &[hint, lab.as_str()], outcome(prove(&pk2, &s.pp, &good, &w0, &i0)))?;
            let mut vk2 = s.vk.clone();
            vk2.index_info.lookups = refs;
            must(cx, &format!("{} verified", what), &[hint, lab.as_str()], verify(&vk2, s.vp.clone(), &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
        }
        // an expression over a column that is not there
        {
            let mut own: Vec<Bound> = own.iter().map(|b| Bound { e: b.e.clone(), t: b.t.clone() }).collect();
            let e = r.below(own[at].e.len());
            let ty = r.pick(&[OracleType::Witness, OracleType::Instance, OracleType::Fixed]).clone();
            let q = OracleQuery { label: "nowhere".to_string(), rotation: rotation(0), oracle_type: ty };
            let old = own[at].e[e].clone();
            own[at].e[e] = old + Expression::from(q);
            let refs: Vec<&dyn LookupVirtualOracle<F>> = own.iter().map(|b| b as _).collect();
            let mut vk2 = s.pk.vk.clone();
            vk2.index_info.lookups = refs.clone();
            let pk2 = ProverKey::<F, PC>::from_ck_and_vk(&ck, &vk2);
            let hint = ["Missing", "nowhere"];
            must(cx, "lookup of an unknown column indexed", &hint, {
                let refs = refs.clone();
                outcome(guard(|| Indexer::<F, PC>::index(&vk, &good, refs, &w0, &i0, &prep.xp, d, &prep.zh, prep.perm_info(), u).map(|_| ())))
            })?;
            must(cx, "lookup of an unknown column proved", &hint, outcome(prove(&pk2, &s.pp, &good, &w0, &i0)))?;
            let mut vk2 = s.vk.clone();
            vk2.index_info.lookups = refs;
            must(cx, "lookup of an unknown column verified", &hint, verify(&vk2, s.vp.clone(), &goodv, prep.wv.clone(), prep.verifier_instance(&a.i)))?;
        }
    }
    // --- tables that are not fixed: any position, any index, any offset, any number of columns, on both sides
    for _ in 0..4 {
        let arity = r.range(1, 6);
        let cols = r.range(1, 7);
        let at = r.below(arity);
        let kinds = if r.chance(50) { (OracleType::Witness, "WitnessTableNotAllowed") } else { (OracleType::Instance, "InstanceTableNotAllowed") };
        let rot = |r: &mut R| if r.chance(60) { rotation(0) } else { rotation(r.range(0, 6) as i64 - 3) };
        let which = |r: &mut R| r.below(cols);
        let qs: Vec<VirtualQuery> = (0..arity)
            .map(|k| VirtualQuery::new(which(r), rot(r), if k == at || (k > at && r.chance(20)) { kinds.0.clone() } else { OracleType::Fixed }))
            .collect();
        let ins: Vec<VirtualQuery> = (0..arity)
            .map(|_| VirtualQuery::new(which(r), rot(r), r.pick(&[OracleType::Witness, OracleType::Instance, OracleType::Fixed]).clone()))
            .collect();
        let ev = vec![F::zero(); 8];
        let mut l = GenericLookupVO::<F>::init((ins.iter().map(|q| q.clone().into()).collect(), ins.clone(), qs));
        let res = if r.chance(50) {
            let mut wo: Vec<_> = (0..cols).map(|k| WitnessProverOracle::new(format!("a{}", k), P::zero(), &ev, false)).collect();
            let mut io: Vec<_> = (0..cols).map(|k| InstanceProverOracle::new(format!("b{}", k), P::zero(), &ev)).collect();
            let mut xo: Vec<_> = (0..cols).map(|k| FixedProverOracle::new(format!("c{}", k), P::zero(), &ev)).collect();
            let mut to: Vec<_> = (0..cols).map(|k| FixedProverOracle::new(format!("t{}", k), P::zero(), &ev)).collect();
            outcome(guard(|| l.configure(&mut wo, &mut io, &mut xo, &mut to)))
        } else {
            let mut wo: Vec<WitnessVerifierOracle<F, PC>> = (0..cols).map(|k| WitnessVerifierOracle::new(format!("a{}", k), false)).collect();
            let mut io: Vec<_> = (0..cols).map(|k| InstanceVerifierOracle::new(format!("b{}", k), P::zero())).collect();
            let mut xo: Vec<FixedVerifierOracle<F, PC>> = (0..cols).map(|k| FixedVerifierOracle::new(format!("c{}", k), None)).collect();
            let mut to: Vec<FixedVerifierOracle<F, PC>> = (0..cols).map(|k| FixedVerifierOracle::new(format!("t{}", k), None)).collect();
            outcome(guard(|| l.configure(&mut wo, &mut io, &mut xo, &mut to)))
        };
        must(cx, "table of private or public values", &[kinds.1], res)?;
        must(cx, "refused lookup asked for its tables", &[], outcome(guard(|| l.get_table_queries())))?;
    }
    cx.sample(c.show());
    Ok(())
}

fn main() {
    zokmon::report::main(&[
        Spec {
            id: "P17",
            level: "exploration",
            rule: "verdict of the mock prover on satisfying and broken assignments of random gate circuits against a row-by-row model and against the real prover; non-trivial when the defect, the number of violations and the circuit signature are new",
            quick: 18000,
            thorough: 360000,
            require: &["first violation beyond row 64", "accepted: satisfying", "refused: one cell", "single violation", "single violation in the last row", "single violation of the last gate", "agrees with the real prover"],
            assumptions: &["gates are constrained on the whole domain"],
            case: p17,
        },
        Spec {
            id: "P18",
            level: "exploration",
            rule: "rows of satisfied and broken ready-made gates judged by the documented relation, gate by gate and through complete proofs; non-trivial when gate, outcome and values are new",
            quick: 84000,
            thorough: 1680000,
            require: &["mul holds", "mul violated", "three-wire arithmetic holds", "three-wire arithmetic violated", "four-wire arithmetic holds", "four-wire arithmetic violated", "rescue holds", "rescue violated", "delta holds", "delta violated", "xor and holds", "xor and violated", "bitwise result decided", "lookup of 1 columns", "lookup of 3 columns", "proof rescue accepted", "proof four-wire arithmetic rejected"],
            assumptions: &["the documentation comments in the source define the relations"],
            case: p18,
        },
        Spec {
            id: "P19",
            level: "exploration",
            rule: "random expressions over random columns evaluated on rows, on extended cosets and at challenges, each against an independent evaluation; non-trivial when operators, degree, sizes and number of column reads are new",
            quick: 80000,
            thorough: 1600000,
            require: &["expression with product", "expression with difference", "expression with scaling", "expression with negation", "expression with row behind", "expression with row ahead", "far row behind", "written with operators", "reported degree attained"],
            assumptions: &["row offsets are smaller than the domain"],
            case: p19,
        },
        Spec {
            id: "P21",
            level: "exploration",
            rule: "random input and table lists, with repetitions and with inputs outside the table; non-trivial when sizes, repetition style and number of distinct values are new",
            quick: 300000,
            thorough: 6000000,
            require: &["paired: from table", "paired: one value", "paired: identical", "refused: input outside the table"],
            assumptions: &[],
            case: p21,
        },
        Spec {
            id: "P24",
            level: "exploration",
            rule: "random histories of absorptions and draws replayed, altered in one place, reordered and cut; non-trivial when the kind and place of the alteration and the history are new",
            quick: 120000,
            thorough: 2400000,
            require: &["equal histories, equal streams", "streams differ: initial input", "streams differ: bit flipped", "streams differ: byte appended", "streams differ: byte prepended", "streams differ: byte removed", "streams differ: order of absorptions", "streams differ: absorption left out", "streams differ: absorption repeated", "streams differ: absorptions joined", "streams differ: absorptions divided elsewhere", "long draws without repetition", "advancing draws: U32", "advancing draws: Try"],
            assumptions: &["Blake2s does not collide"],
            case: p24,
        },
        Spec {
            id: "P26",
            level: "exploration",
            rule: "random circuits with one unbound gate or lookup, one column missing or one table of the wrong kind, given to indexing, proving and verifying; non-trivial when the misconfiguration and the circuit signature are new",
            quick: 18000,
            thorough: 360000,
            require: &["honest proof accepted", "reported: unbound gate indexed", "reported: unbound gate proved", "reported: unbound gate verified", "reported: unbound lookup indexed", "reported: unbound lookup proved", "reported: unbound lookup verified", "reported: missing witness column indexed", "reported: missing witness column proved", "reported: missing witness column verified", "reported: missing instance column proved", "reported: missing instance column verified", "reported: missing fixed column indexed", "reported: missing fixed column proved", "reported: missing fixed column verified", "reported: missing table column proved", "reported: missing table column verified", "reported: renamed fixed column verified", "reported: renamed table column verified", "reported: private table proved", "reported: public table verified", "reported: unknown table verified", "reported: lookup of an unknown column verified", "reported: table of private or public values"],
            assumptions: &[],
            case: p26,
        },
    ]);
}
