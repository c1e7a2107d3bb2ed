//! Completeness: honest proofs of satisfied circuits (P01, P02, P03).
use ark_ff::{One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use ark_serialize::CanonicalSerialize;
use std::collections::BTreeSet;
use std::sync::Barrier;
use zero_over_k::data_structures::{PermutationInfo, VerifierKey};
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::FixedVerifierOracle;
use zero_over_k::oracles::instance::InstanceVerifierOracle;
use zero_over_k::oracles::witness::WitnessVerifierOracle;
use zero_over_k::verif::{MockProver, TurboPlonk};
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use ark_poly_commit::{PCCommitterKey, PCUniversalParams};
use zero_over_k::{Proof, PIL};
use zokmon::circuit::*;
use zokmon::proofs::{counts, Pf};
use zokmon::fs::{self, JitFs, PlainFs};
use zokmon::report::*;
use zokmon::run::*;
use zokmon::taupc::TauPC;
use zokmon::util::*;
use zokmon::*;

fn observe(cx: &mut Cx, c: &Circuit, scaling: usize) {
    cx.obs(format!("n={}", c.n));
    cx.obs(format!("gate degree={}", c.gate_degree()));
    cx.obs(format!("extension={}", scaling));
    for t in &c.tags {
        cx.obs(format!("shape {}", t));
    }
    for (k, _, r) in c.queried() {
        let s = match r {
            0 => "0",
            1 => "+1",
            -1 => "-1",
            x if x > 0 => "+far",
            _ => "-far",
        };
        cx.obs(format!("query {:?}{}", k, s));
    }
    if c.t > 0 {
        cx.obs("custom vanishing polynomial");
    }
    if c.np() > 0 {
        cx.obs(format!("permuted columns={}", c.np().min(10)));
        cx.obs(format!("grand products={}", (c.np() + scaling - 2) / (scaling - 1)));
        if c.u == 1 {
            cx.obs("one usable row");
        }
        if c.u + 1 + c.t == c.n {
            cx.obs("no blinding rows besides the last");
        }
        let links = c.nontrivial_cells();
        cx.obs(if links == 0 { "no linked cells" } else { "linked cells" });
        let cross = c.next.iter().enumerate().any(|(j, v)| v.iter().any(|x| x.0 != j));
        if cross {
            cx.obs("cross-column cycle");
        }
    }
    for l in &c.lookups {
        cx.obs(format!("lookup arity={}", l.exprs.len()));
        cx.obs(format!("lookup degree={}", l.exprs.iter().map(|e| e.degree()).max().unwrap()));
    }
    if c.lookups.len() > 1 {
        cx.obs("several lookups");
    }
}

fn accept<PC: Scheme>(r: &mut R, cx: &mut Cx, c: &Circuit, a: &Assign, seed: u64) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    cx.note(c.show());
    let (ck, vk) = keys::<PC>(c.n, seed);
    let names = zokmon::run::pick_names(r.u64());
    // lookups without copy constraints are also used with an empty permutation info
    let dummy = c.np() == 0 && !c.lookups.is_empty() && r.chance(30);
    let prep = if dummy {
        cx.obs("lookups with empty permutation info");
        let qb = (0..c.n).map(|i| if i >= c.u { F::one() } else { F::zero() }).collect();
        Prep::<PC>::with(c, &ck, &vk, names, UMode::Dummy, qb, sigma_evals(c))
    } else {
        Prep::<PC>::new(c, &ck, &vk, names)
    };
    let s = prep.setup(a).map_err(|e| format!("indexing a satisfiable circuit failed: {}", e))?;
    observe(cx, c, s.scaling());
    match (names >> 8) % 16 {
        1 => cx.obs("columns of different kinds share names"),
        2 => cx.obs("columns named as the protocol's own"),
        _ => {}
    }
    for round in 0..2 {
        let proof = s
            .prove::<PlainFs>(a, r.u64())
            .map_err(|e| format!("proving a satisfied circuit failed: {}", e))?;
        cx.eval();
        match s.verify::<PlainFs>(proof, &a.i) {
            Verdict::Accept => {}
            v => return Err(format!("honest proof of a satisfied circuit not accepted: {:?}", v)),
        }
        if round == 0 && r.chance(75) {
            break;
        }
    }
    cx.sig(c.sig());
    cx.sample(c.show());
    Ok(())
}

fn run(r: &mut R, cx: &mut Cx, cfg: &Cfg) -> CaseResult {
    let kzg = cx.idx % 6 == 5;
    let mut cfg = cfg.clone();
    if kzg {
        cfg.ns.retain(|n| *n <= 16);
    } else if cx.idx % 120 == 67 {
        // sizes that no longer fit one byte
        cfg.ns = if cx.idx % 480 == 67 { vec![512, 1024] } else { vec![256] };
        cfg.max_deg = cfg.max_deg.min(3);
        cfg.gates.1 = cfg.gates.1.min(2);
        cfg.lookups.1 = cfg.lookups.1.min(cfg.lookups.0.max(1));
        cx.obs("domain of 256 rows or more");
    }
    let (c, a) = gen(r, &cfg);
    if !c.check(&a).none() {
        return Err(format!("generator bug: {:?} {}", c.check(&a), c.show()));
    }
    if kzg {
        cx.obs("real KZG");
        accept::<Kzg>(r, cx, &c, &a, 7)
    } else {
        accept::<TauPC>(r, cx, &c, &a, 7)
    }
}

fn p01(r: &mut R, cx: &mut Cx) -> CaseResult {
    let mut cfg = Cfg { gates: (1, 6), zh: 35, max_deg: 7, flat: cx.idx % 30 == 17, ..Cfg::default() };
    if cx.idx % 40 == 38 {
        cfg.ns = vec![64, 128];
        cfg.max_deg = 4;
    }
    if cx.idx % 10 == 9 {
        // every gate degree, tightly around the powers of two
        cfg.ns = vec![4, 8, 16];
        cfg.max_deg = 18;
        cfg.gates = (1, 2);
    }
    run(r, cx, &cfg)?;
    if cx.idx % 4 == 1 {
        meeting(r, cx)?;
    }
    Ok(())
}

/// A column read at two offsets that meet in the same row (one ahead, one
/// behind). The protocol may refuse that for the columns it opens, but it must
/// not crash or make a proof that is then rejected; public columns are not opened.
fn meeting(r: &mut R, cx: &mut Cx) -> CaseResult {
    let cfg = Cfg { gates: (1, 3), ns: vec![4, 8, 16], max_deg: 4, inst: 70, ..Cfg::default() };
    let (mut c, a) = gen(r, &cfg);
    let kinds: Vec<(K, usize)> = (0..c.nw).map(|i| (K::W, i)).chain((0..c.ni).map(|i| (K::I, i))).chain((0..c.x.len()).map(|i| (K::X, i))).collect();
    let (k, i) = *r.pick(&kinds);
    let rot = r.range(1, c.n - 1) as i64;
    c.gates.push(o(k, i, rot) - o(k, i, rot - c.n as i64));
    cx.note(format!("meeting offsets {}", c.show()));
    let (ck, vk) = keys::<TauPC>(c.n, 7);
    let prep = Prep::<TauPC>::new(&c, &ck, &vk, zokmon::run::pick_names(r.u64()));
    let s = prep.setup(&a).map_err(|e| format!("indexing a satisfiable circuit failed: {}", e))?;
    match s.prove::<PlainFs>(&a, r.u64()) {
        Ok(proof) => {
            cx.eval();
            match s.verify::<PlainFs>(proof, &a.i) {
                Verdict::Accept => cx.obs("offsets that meet: proved"),
                v => return Err(format!("honest proof with offsets that meet not accepted: {:?}", v)),
            }
        }
        Err(Fail::Err(_)) if k != K::I => cx.obs("offsets that meet: refused"),
        Err(e) => return Err(format!("proving a satisfied circuit with offsets that meet failed: {}", e)),
    }
    Ok(())
}

fn p02(r: &mut R, cx: &mut Cx) -> CaseResult {
    let mut cfg = Cfg { gates: (0, 3), perm: 100, max_perm: 8, max_deg: 4, zh: 25, ..Cfg::default() };
    match cx.idx % 8 {
        0 => cfg.gates = (0, 0),
        1 => {
            // narrow products: many columns, low degree
            cfg.max_deg = 2;
            cfg.max_perm = 14;
        }
        2 => cfg.max_deg = 9,
        3 => {
            cfg.ns = vec![4, 8];
            cfg.zh = 60;
        }
        _ => {}
    }
    run(r, cx, &cfg)
}

fn p03(r: &mut R, cx: &mut Cx) -> CaseResult {
    let mut cfg = Cfg { gates: (0, 2), lookups: (1, 2), perm: 35, max_perm: 4, max_deg: 4, zh: 20, ..Cfg::default() };
    match cx.idx % 6 {
        0 => {
            cfg.gates = (0, 0);
            cfg.perm = 0;
            cfg.lookups = (1, 1)
        }
        1 => cfg.lookups = (2, 4),
        _ => {}
    }
    run(r, cx, &cfg)
}

/// What a key says, apart from its own copy of the commitment key.
fn key_view<PC: Scheme>(k: &VerifierKey<F, PC>, np: usize) -> String {
    let i = &k.index_info;
    // a circuit without permuted columns may have no room for any
    let z: Vec<usize> =
        if np == 0 { vec![] } else { (0..=np + 3).map(|m| i.permutation_argument.number_of_z_polys(m)).collect() };
    let al: Vec<usize> = (1..=4).map(|m| i.permutation_argument.number_of_alphas(m)).collect();
    format!(
        "quotient degree {} extended domain {} products {:?} alphas {:?} lookups {} usable {} zh inverses {:?}",
        i.quotient_degree,
        i.extended_coset_domain.size(),
        z,
        al,
        i.lookups.len(),
        i.usable_rows,
        k.zh_inverses_over_coset
    )
}

/// Is the key enough for this circuit?
fn key_ok<PC: Scheme>(c: &Circuit, zh: &P, k: &VerifierKey<F, PC>) -> CaseResult {
    let (n, ext) = (c.n, k.index_info.extended_coset_domain);
    let mut need: Vec<(&str, usize)> = vec![];
    if !c.gates.is_empty() {
        need.push(("gates", c.gate_degree() * (n - 1)));
    }
    for l in &c.lookups {
        let d = l.exprs.iter().map(|e| e.degree()).max().unwrap().max(1);
        need.push(("lookups", (3 + d) * (n - 1)));
    }
    let np = c.np();
    if np > 0 {
        let pa = &k.index_info.permutation_argument;
        let chunk = (1..=np).rev().find(|m| pa.number_of_z_polys(*m) == 1).unwrap_or(0);
        if chunk == 0 {
            return Err("no permuted column fits one product".into());
        }
        need.push(("copy constraints", (chunk + 2) * (n - 1)));
    }
    for (what, d) in need {
        let q = d.saturating_sub(zh.degree());
        if ext.size() < q + 1 {
            return Err(format!("{}: quotient of degree {} does not fit the extended domain of {}", what, q, ext.size()));
        }
    }
    if ext.size() % n != 0 || ext.size() < n {
        return Err(format!("extended domain {} is no multiple of the domain {}", ext.size(), n));
    }
    if k.zh_inverses_over_coset.len() != ext.size() {
        return Err(format!("{} vanishing inverses for {} points", k.zh_inverses_over_coset.len(), ext.size()));
    }
    let g = ark_ff_gen();
    for (i, inv) in k.zh_inverses_over_coset.iter().enumerate() {
        if zh.evaluate(&(g * ext.element(i))) * inv != F::one() {
            return Err(format!("wrong inverse of the vanishing polynomial at coset point {}", i));
        }
    }
    if k.index_info.lookups.len() != c.lookups.len() {
        return Err("lookups lost".into());
    }
    Ok(())
}
fn ark_ff_gen() -> F {
    use ark_ff::FftField;
    F::multiplicative_generator()
}

fn p20(r: &mut R, cx: &mut Cx) -> CaseResult {
    match cx.idx % 4 {
        3 => return p20_errors(r, cx),
        _ => {}
    }
    let mut cfg = Cfg { gates: (0, 3), perm: 50, max_perm: 9, lookups: (0, 2), zh: 50, max_deg: 9, ..Cfg::default() };
    if cx.idx % 8 == 0 {
        cfg.lookups = (0, 0);
        cfg.ns = vec![4, 8];
        cfg.max_deg = 20;
    }
    if cx.idx % 8 == 1 {
        cfg.ns = vec![64, 128, 256];
        cfg.max_deg = 4;
    }
    if cx.idx % 8 == 2 {
        cfg.max_deg = 2;
        cfg.perm = 100;
        cfg.lookups = (0, 0);
        cfg.zh = 80;
    }
    let (c, a) = gen(r, &cfg);
    cx.note(c.show());
    observe(cx, &c, 2);
    let (ck, vk) = keys::<TauPC>(c.n, 7);
    let names = zokmon::run::pick_names(r.u64());
    let prep = Prep::<TauPC>::new(&c, &ck, &vk, names);
    let kv = prep.index_verifier().map_err(|e| format!("verifier side: {}", e))?;
    key_ok(&c, &prep.zh, &kv)?;
    cx.eval();
    let want = key_view(&kv, c.np());
    let n = c.n;
    let zero = Assign { w: vec![vec![F::zero(); n]; c.nw], i: vec![vec![F::zero(); n]; c.ni] };
    let konst = Assign { w: vec![vec![r.f(); n]; c.nw], i: vec![vec![r.f(); n]; c.ni] };
    let rand = Assign { w: (0..c.nw).map(|_| r.fs(n)).collect(), i: (0..c.ni).map(|_| r.fs(n)).collect() };
    for (what, a) in [("satisfying", &a), ("zero", &zero), ("constant", &konst), ("random", &rand)] {
        let k = prep.index_prover(a).map_err(|e| format!("prover side, {} columns: {}", what, e))?;
        key_ok(&c, &prep.zh, &k).map_err(|e| format!("prover side, {} columns: {}", what, e))?;
        let got = key_view(&k, c.np());
        if got != want {
            return Err(format!("key made from the prover's {} columns differs: {} / {}", what, got, want));
        }
        cx.eval();
        cx.obs(format!("prover key from {} columns", what));
    }
    cx.obs(format!("extension={}", kv.index_info.extended_coset_domain.size() / n));
    // the key has to be enough for an honest proof
    if cx.idx % 4 == 0 && n <= 32 {
        let s = prep.setup(&a).map_err(|e| format!("setup: {}", e))?;
        let proof = s.prove::<PlainFs>(&a, r.u64()).map_err(|e| format!("prove: {}", e))?;
        let v = s.verify::<PlainFs>(proof, &a.i);
        if !v.accepted() {
            return Err(format!("honest proof with this key: {:?}", v));
        }
        cx.eval();
        cx.obs("honest proof with the key");
    }
    cx.sig(c.sig());
    cx.sample(c.show());
    Ok(())
}

/// Circuits the system can not handle are refused.
fn p20_errors(r: &mut R, cx: &mut Cx) -> CaseResult {
    let big = (cx.idx / 4) % 2 == 0;
    let n = if big { 1usize << r.range(26, 30) } else { 1 << r.range(2, 6) };
    let mut c = Circuit::empty(n);
    c.nw = 1;
    c.permute = vec![big && r.chance(30)];
    let lookup = big && r.chance(30);
    let deg = if big {
        // degree * n beyond the two-adicity of the field
        (1usize << 32) / n + r.range(2, 8)
    } else {
        r.range(0, 1)
    };
    let mut e = E::C(r.f());
    for i in 0..deg {
        e = if i == 0 { o(K::W, 0, 0) } else { e * o(K::W, 0, 0) };
    }
    if !big {
        for _ in 0..r.below(3) {
            e = match r.below(3) {
                0 => e + E::C(r.f()),
                1 => e * r.f(),
                _ => -e,
            };
        }
    }
    if lookup {
        c.lookups.push(Lk { exprs: vec![e], tables: vec![(0, 0)] });
    } else {
        c.gates.push(e);
    }
    cx.note(format!("n={} degree={} lookup={} permuted={:?}", n, deg, lookup, c.permute));
    let (_, pvk) = keys::<TauPC>(8, 7);
    let mut w = vec![WitnessVerifierOracle::<F, TauPC>::new("w", c.permute[0])];
    let mut iv: Vec<InstanceVerifierOracle<F>> = vec![];
    let mut xv: Vec<FixedVerifierOracle<F, TauPC>> = vec![];
    let mut tv = vec![FixedVerifierOracle::<F, TauPC>::new("t", None)];
    let mut vos = build_vos(&c);
    for v in vos.iter_mut() {
        v.configure(&mut w, &mut iv, &mut xv);
    }
    let mut lks = build_lookups(&c);
    for l in lks.iter_mut() {
        l.configure(&mut w, &mut iv, &mut xv, &mut tv).map_err(|e| format!("configure: {:?}", e))?;
    }
    let vr: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as _).collect();
    let lk: Vec<&dyn LookupVirtualOracle<F>> = lks.iter().map(|v| v as _).collect();
    let zh = if big { P::from_coefficients_vec(vec![-F::one(), F::one()]) } else { vanishing(n, 0) };
    let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let info = PermutationInfo { u: n - 1, deltas: vec![F::one()] };
    let res = guard(|| {
        Indexer::<F, TauPC>::index(&pvk, &vr, lk, &w, &iv, &xv, d, &zh, info, n - 1).map(|_| ()).map_err(|e| format!("{:?}", e))
    })
    .map_err(|p| format!("indexing crashed: {}", p))?;
    cx.eval();
    match res {
        Err(e) => {
            cx.obs(format!("refused: {}", e));
            cx.sig(format!("refused {} {} {}", n, deg, lookup));
            Ok(())
        }
        Ok(()) => Err("an unsupported circuit was indexed".into()),
    }
}

/// Elements of each kind a proof of this circuit has to have.
fn expected_counts<PC: Scheme>(c: &Circuit, k: &VerifierKey<F, PC>) -> Vec<usize> {
    let n = c.n;
    let mut cols: BTreeSet<Q> = c.opened();
    for j in c.pcols() {
        cols.insert((K::W, j, 0));
    }
    let of = |k: K| cols.iter().filter(|q| q.0 == k).count();
    let tabs: BTreeSet<(usize, i64)> = c.lookups.iter().flat_map(|l| l.tables.iter().cloned()).collect();
    let nl = c.lookups.len();
    let np = c.np();
    let nz = k.index_info.permutation_argument.number_of_z_polys(np);
    let nq = k.index_info.extended_coset_domain.size() / n;
    // opening sets, columns that nothing reads included
    let mut sets: BTreeSet<BTreeSet<i64>> = BTreeSet::new();
    let read = |k: K, j: usize| cols.iter().filter(|q| q.0 == k && q.1 == j).map(|q| q.2).collect();
    sets.extend((0..c.nw).map(|j| read(K::W, j)));
    sets.extend((0..c.x.len()).map(|j| read(K::X, j)));
    sets.extend((0..c.tables.len()).map(|j| tabs.iter().filter(|t| t.0 == j).map(|t| t.1).collect()));
    // quotient pieces, blinding selector, copy permutation columns
    sets.insert(BTreeSet::from([0]));
    if nl > 0 {
        sets.insert(BTreeSet::from([0, -1])); // a'
        sets.insert(BTreeSet::from([0, 1])); // running product
    }
    if nz > 0 {
        sets.insert(BTreeSet::from([0, 1])); // last product
    }
    if nz > 1 {
        sets.insert(BTreeSet::from([0, 1, c.u as i64]));
    }
    let z_evals = if nz == 0 { 0 } else { 3 * (nz - 1) + 2 - if nz > 1 && c.u == 1 { nz - 1 } else { 0 } };
    vec![
        c.nw,
        2 * nl,
        nz,
        nl,
        nq,
        of(K::W),
        of(K::X),
        tabs.len(),
        np,
        3 * nl,
        2 * nl,
        z_evals,
        nq,
        sets.len(),
    ]
}

fn number_after(text: &str, label: &str) -> Option<usize> {
    for l in text.lines() {
        let l = l.trim();
        if let Some(rest) = l.strip_prefix(label) {
            let d: String = rest.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
            if !rest.trim_start_matches(':').trim().starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            return d.parse().ok();
        }
    }
    None
}
fn number_before(text: &str, label: &str) -> Option<usize> {
    for l in text.lines() {
        if let Some(rest) = l.trim().strip_suffix(label) {
            return rest.trim().parse().ok();
        }
    }
    None
}

fn shape_of<PC: Scheme>(p: &mut Pf<PC>, want: &[usize]) -> CaseResult {
    let got = counts(p);
    if got != want {
        return Err(format!("element counts {:?}, the circuit prescribes {:?} ({:?} {:?})", got, want, zokmon::proofs::COMMS, zokmon::proofs::EVALS));
    }
    let info = p.info();
    let labels = [
        ("witness commitments", 0),
        ("lookup commitments", 1),
        ("z commitments", 2),
        ("lookup z commitments", 3),
        ("quotient chunk commitments", 4),
        ("witness evals", 5),
        ("fixed oracle evals", 6),
        ("table oracle evals", 7),
        ("permutation oracle evals", 8),
        ("lookup evals", 9),
        ("lookup z evals", 10),
        ("z evals", 11),
        ("quotient chunks evals", 12),
        ("q_evals", 13),
    ];
    for (l, i) in labels {
        if number_after(&info, l) != Some(want[i]) {
            return Err(format!("the printed summary says {:?} {}, not {}", number_after(&info, l), l, want[i]));
        }
    }
    for l in ["q blind eval", "f_commit", "opening_proof"] {
        if number_after(&info, l) != Some(1) {
            return Err(format!("the printed summary says {:?} {}, not 1", number_after(&info, l), l));
        }
    }
    let cum = p.cumulative_info();
    if number_before(&cum, "PC::Proof") != Some(1) {
        return Err(format!("the printed totals are {:?}, there is one opening proof", cum));
    }
    let comms: usize = want[..5].iter().sum::<usize>() + 1;
    let fields: usize = want[5..].iter().sum::<usize>() + 1;
    if number_before(&cum, "commitments") != Some(comms) || number_before(&cum, "field elements") != Some(fields) {
        return Err(format!("the printed totals are {:?}, not {} and {}", cum, comms, fields));
    }
    Ok(())
}

fn p27(r: &mut R, cx: &mut Cx) -> CaseResult {
    let mut cfg = Cfg { gates: (0, 3), perm: 50, max_perm: 6, lookups: (0, 2), max_deg: 6, ..Cfg::default() };
    let degenerate = cx.idx % 2 == 0;
    if degenerate {
        cfg.lookups = (0, 0);
        cfg.gates = (1, 3);
        cfg.max_deg = 5;
    }
    let (mut c, mut a) = gen(r, &cfg);
    let n = c.n;
    let mut all: Vec<(&str, Assign)> = vec![];
    if degenerate {
        // a factor that is zero satisfies every gate whatever the other columns hold
        let e = c.nw;
        c.nw += 1;
        c.permute.push(false);
        for g in c.gates.iter_mut() {
            *g = o(K::W, e, 0) * g.clone();
        }
        a.w.push(r.fs(n));
        if r.chance(50) {
            // a lookup whose table contains zero
            let t = c.tables.len();
            let mut tab: Vec<F> = r.fs(n);
            tab[r.below(c.u)] = F::zero();
            let l = c.nw;
            c.nw += 1;
            c.permute.push(false);
            a.w.push((0..n).map(|_| tab[r.below(c.u)]).collect());
            c.tables.push(tab);
            c.lookups.push(Lk { exprs: vec![o(K::W, l, 0)], tables: vec![(t, 0)] });
        }
        let zero = Assign { w: vec![vec![F::zero(); n]; c.nw], i: vec![vec![F::zero(); n]; c.ni] };
        let mut konst = zero.clone();
        // linked cells are equal when all permuted columns are the same constant
        let k = r.f_nz();
        let mut linear = zero.clone();
        let lk: BTreeSet<usize> = c.lookups.iter().flat_map(|l| l.exprs.iter().flat_map(|e| e.queries())).map(|q| q.1).collect();
        for j in 0..c.nw {
            if j != e && !lk.contains(&j) {
                konst.w[j] = vec![k; n];
                if !c.permute[j] {
                    linear.w[j] = (0..n).map(|i| domain(n).element(i) * k).collect();
                }
            }
        }
        let mut extra = zero.clone();
        extra.w[e] = vec![F::zero(); n];
        all.push(("zero", zero));
        all.push(("constant", konst));
        all.push(("linear", linear));
    }
    all.push(("generated", a));
    cx.note(c.show());
    observe(cx, &c, 2);
    let (ck, vk) = keys::<TauPC>(n, 7);
    let prep = Prep::<TauPC>::new(&c, &ck, &vk, zokmon::run::pick_names(r.u64()));
    let mut first: Option<usize> = None;
    for (what, a) in &all {
        if !c.check(a).none() {
            return Err(format!("generator bug: {} {:?}", what, c.check(a)));
        }
        let s = prep.setup(a).map_err(|e| format!("{}: indexing: {}", what, e))?;
        let want = expected_counts(&c, &s.vk);
        let mut p = s.prove::<PlainFs>(a, r.u64()).map_err(|e| format!("{} columns: proving failed: {}", what, e))?;
        shape_of(&mut p, &want).map_err(|e| format!("{} columns: {}", what, e))?;
        // hiding makes the encodings equally long
        let len = p.serialized_size();
        if *first.get_or_insert(len) != len {
            return Err(format!("{} columns: the proof has {} bytes, another assignment's {}", what, len, first.unwrap()));
        }
        let v = s.verify::<PlainFs>(p, &a.i);
        if !v.accepted() {
            return Err(format!("{} columns: honest proof not accepted: {:?}", what, v));
        }
        cx.eval();
        cx.obs(format!("columns {}", what));
    }
    cx.sig(c.sig());
    cx.sample(c.show());
    Ok(())
}

fn p25(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx % 8 == 7 {
        p25_with::<Kzg>(r, cx)
    } else {
        p25_with::<TauPC>(r, cx)
    }
}
fn p25_with<PC: Scheme>(r: &mut R, cx: &mut Cx) -> CaseResult
where
    Keys<PC>: Send + Clone,
{
    let mut cfg = Cfg { gates: (0, 2), perm: 60, max_perm: 4, lookups: (0, if cx.idx % 3 == 0 { 3 } else { 1 }), max_deg: 4, ..Cfg::default() };
    cfg.ns = vec![4, 8, 16];
    let (c, a) = gen(r, &cfg);
    let (c2, a2) = gen(r, &cfg);
    cx.note(c.show());
    observe(cx, &c, 2);
    let (ck, vk) = keys::<PC>(c.n, 7);
    let (ck2, vk2) = keys::<PC>(c2.n, 7);
    let names = zokmon::run::pick_names(r.u64());
    let prep = Prep::<PC>::new(&c, &ck, &vk, names);
    let s = prep.setup(&a).map_err(|e| format!("indexing: {}", e))?;
    let prep2 = Prep::<PC>::new(&c2, &ck2, &vk2, names);
    let s2 = prep2.setup(&a2).map_err(|e| format!("indexing: {}", e))?;
    let view = (key_view(&s.pk.vk, c.np()), pp_view(&s.pp));
    let zk = r.u64();
    let (mut w, mut i, vos) = prep.prover_side(&a);
    let base = bytes(&s.prove_with::<PlainFs>(&mut w, &mut i, &vos, zk).map_err(|e| format!("prove: {}", e))?);
    let same = |what: &str, got: Result<Pf<PC>, Fail>, cx: &mut Cx| -> CaseResult {
        let got = bytes(&got.map_err(|e| format!("{}: {}", what, e))?);
        cx.eval();
        cx.obs(what);
        if got != base {
            let at = got.iter().zip(&base).position(|(a, b)| a != b);
            return Err(format!("{}: the proof differs (byte {:?} of {})", what, at, base.len()));
        }
        Ok(())
    };
    let steps = r.range(3, 7);
    let mut hist = String::new();
    for _ in 0..steps {
        let st = r.below(8);
        hist.push_str(&format!("{} ", st));
        match st {
            0 => same("repeated with fresh columns", s.prove::<PlainFs>(&a, zk), cx)?,
            1 => same("repeated with the same column objects", s.prove_with::<PlainFs>(&mut w, &mut i, &vos, zk), cx)?,
            2 => {
                // another statement of the same circuit, perhaps false
                let mut b = a.clone();
                if let Some(col) = b.w.last_mut() {
                    let k = r.below(c.n);
                    col[k] = r.f();
                }
                let _ = s.prove::<PlainFs>(&b, r.u64());
                cx.obs("another assignment proved in between");
                same("repeated after another assignment", s.prove::<PlainFs>(&a, zk), cx)?;
            }
            3 => {
                let _ = s2.prove::<PlainFs>(&a2, r.u64());
                same("repeated after another circuit", s.prove::<PlainFs>(&a, zk), cx)?;
            }
            4 => {
                let p = s.prove::<PlainFs>(&a, r.u64()).map_err(|e| format!("{}", e))?;
                let v = s.verify::<PlainFs>(p, &a.i);
                if !v.accepted() {
                    return Err(format!("honest proof not accepted: {:?}", v));
                }
                same("repeated after a verification", s.prove::<PlainFs>(&a, zk), cx)?;
            }
            5 => {
                // keys indexed again
                let t = prep.setup(&a).map_err(|e| format!("indexing: {}", e))?;
                same("repeated with a new key", t.prove::<PlainFs>(&a, zk), cx)?;
            }
            6 if !c.gates.is_empty() && !c.gates[0].queries().is_empty() => {
                // the same columns first used in a circuit with a gate of another degree
                let mut c3 = c.clone();
                let q = *r.pick(&c3.gates[0].queries());
                for _ in 0..r.range(1, 6) {
                    c3.gates[0] = c3.gates[0].clone() * o(q.0, q.1, q.2);
                }
                let prep3 = Prep::<PC>::new(&c3, &ck, &vk, names);
                let s3 = prep3.setup(&a).map_err(|e| format!("indexing: {}", e))?;
                let (mut w3, mut i3, vos3) = prep3.prover_side(&a);
                let first = bytes(&s3.prove_with::<PlainFs>(&mut w3, &mut i3, &vos3, zk).map_err(|e| format!("prove: {}", e))?);
                if s3.scaling() != s.scaling() {
                    cx.obs("columns used under a key with another extended domain");
                }
                same("repeated with columns used under another key", s.prove_with::<PlainFs>(&mut w3, &mut i3, &vos, zk), cx)?;
                let again = bytes(&s3.prove_with::<PlainFs>(&mut w3, &mut i3, &vos3, zk).map_err(|e| format!("prove: {}", e))?);
                if again != first {
                    return Err("columns returned to an earlier key: the proof differs".into());
                }
            }
            _ => {
                let other = s.prove::<PlainFs>(&a, zk ^ (1 + r.u64() % 1000)).map_err(|e| format!("{}", e))?;
                if bytes(&other) == base {
                    return Err("different prover randomness gave the same proof".into());
                }
                cx.obs("other randomness, other proof");
            }
        }
    }
    if (key_view(&s.pk.vk, c.np()), pp_view(&s.pp)) != view {
        return Err("proving altered the key or the preprocessed input".into());
    }
    cx.eval();
    // concurrently, interleaved with proofs of another circuit
    if cx.idx % 3 == 0 {
        let t = r.range(2, 6);
        let rounds = if std::any::TypeId::of::<PC>() == std::any::TypeId::of::<TauPC>() { 5 } else { 2 };
        let bar = Barrier::new(t);
        // what each thread proves, first on this thread alone
        let mut jobs: Vec<(&Circuit, &Assign, u64, Vec<u8>)> = vec![];
        for k in 0..t {
            let z = if r.chance(20) { zk } else { r.u64() };
            if k % 2 == 0 {
                jobs.push((&c, &a, z, bytes(&s.prove::<PlainFs>(&a, z).map_err(|e| format!("prove: {}", e))?)));
            } else {
                jobs.push((&c2, &a2, z, bytes(&s2.prove::<PlainFs>(&a2, z).map_err(|e| format!("prove: {}", e))?)));
            }
        }
        let pauses = r.u64();
        let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = jobs
                .iter()
                .enumerate()
                .map(|(k, (c, a, z, b))| {
                    let bar = &bar;
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(sc, move || {
                            let (ck, vk) = keys::<PC>(c.n, 7);
                            let prep = Prep::<PC>::new(c, &ck, &vk, names);
                            let s = prep.setup(a).map_err(|e| format!("indexing: {}", e));
                            bar.wait();
                            let s = s?;
                            for n in 0..rounds {
                                fs::set_jitter(if n % 2 == 0 { mix(pauses, k as u64 + 1) | 1 } else { 0 });
                                let p = s.prove::<JitFs>(a, *z).map_err(|e| format!("prove: {}", e))?;
                                if &bytes(&p) != b {
                                    return Err("the proof differs".to_string());
                                }
                                let v = s.verify::<JitFs>(p, &a.i);
                                if !v.accepted() {
                                    return Err(format!("{:?}", v));
                                }
                            }
                            Ok(())
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(last_panic()))).collect()
        });
        for x in res {
            cx.eval();
            x.map_err(|e| format!("proving on {} threads: {}", t, e))?;
        }
        cx.obs("concurrent proving");
        cx.obs_n("concurrent proofs compared", (rounds * t) as u64);
    }
    cx.sig(format!("{} {}", hist, c.sig()));
    cx.sample(c.show());
    Ok(())
}

/// everything public in the preprocessed input
fn pp_view<PC: Scheme>(pp: &zero_over_k::data_structures::ProverPreprocessedInput<F, PC>) -> String {
    let mut s = String::new();
    for o in pp.fixed_oracles.iter().chain(&pp.permutation_oracles).chain(&pp.table_oracles).chain(std::iter::once(&pp.q_blind)) {
        use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
        s.push_str(&format!("{} {:?} {:?};", o.get_label(), o.polynomial(), o.get_queried_rotations()));
    }
    s.push_str(&format!("{}", pp.empty_rands_for_fixed.len()));
    s
}

type Mock<PC> = MockProver<F, PC, PlainFs>;
type Real<PC> = TurboPlonk<F, PC, PlainFs>;
enum Made<PC: Scheme> {
    Keys(usize, usize, Keys<PC>),
    Refused,
}
/// universal_setup and prepare_keys; Err: neither keys nor an error value
fn make_keys<PC: Scheme>(max: usize, seed: u64, mock: bool) -> Result<Made<PC>, String> {
    let got = guard(|| {
        let mut r = R::new(seed);
        let srs = if mock { Mock::<PC>::universal_setup(max, &mut r.0) } else { Real::<PC>::universal_setup(max, &mut r.0) };
        let srs = match srs {
            Ok(s) => s,
            Err(_) => return None,
        };
        let k = if mock { Mock::<PC>::prepare_keys(&srs) } else { Real::<PC>::prepare_keys(&srs) };
        k.ok().map(|k| (srs.max_degree(), k))
    });
    match got {
        Ok(Some((d, k))) => Ok(Made::Keys(d, k.0.supported_degree(), k)),
        Ok(None) => Ok(Made::Refused),
        Err(p) => Err(format!("setup for degree {} panics: {}", max, p)),
    }
}
fn p28(r: &mut R, cx: &mut Cx) -> CaseResult {
    if cx.idx % 4 == 3 {
        p28_with::<Kzg>(r, cx, true)
    } else {
        p28_with::<TauPC>(r, cx, false)
    }
}
fn p28_with<PC: Scheme>(r: &mut R, cx: &mut Cx, real: bool) -> CaseResult {
    let mut cfg = Cfg { gates: (0, 2), perm: 50, max_perm: 4, lookups: (0, 2), max_deg: 4, ..Cfg::default() };
    cfg.ns = if real { vec![4, 4, 8] } else { vec![4, 8, 16, 32] };
    let mut cs = vec![gen(r, &cfg), gen(r, &cfg)];
    if r.chance(30) {
        cs.push(gen(r, &cfg));
    }
    let top = cs.iter().map(|(c, _)| c.n).max().unwrap();
    let seed = r.u64();
    let mock = r.chance(30);
    // a setup that is large enough, by any margin
    let max = top - 1
        + match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.below(top) + 1,
            3 => top,
            _ => 2 * top + r.below(top),
        };
    let (ck, vk) = match make_keys::<PC>(max, seed, mock)? {
        Made::Refused => return Err(format!("no keys from a setup for degree {}", max)),
        Made::Keys(d, s, k) => {
            if d < max || s < max {
                return Err(format!("setup for degree {} holds {}, the key {}", max, d, s));
            }
            k
        }
    };
    cx.obs(if max == top - 1 { "setup of the least degree" } else { "setup larger than needed" });
    // a setup drawn from the same randomness is the same, another one is not
    let (ck2, vk2) = match make_keys::<PC>(max, seed, !mock)? {
        Made::Keys(_, _, k) => k,
        Made::Refused => return Err("setup refused".into()),
    };
    let (ck3, vk3) = match make_keys::<PC>(max, seed ^ (1 << r.below(64)), mock)? {
        Made::Keys(_, _, k) => k,
        Made::Refused => return Err("setup refused".into()),
    };
    let names = zokmon::run::pick_names(r.u64());
    let mut sizes = BTreeSet::new();
    for (k, (c, a)) in cs.iter().enumerate() {
        cx.note(c.show());
        sizes.insert(c.n);
        let prep = Prep::<PC>::new(c, &ck, &vk, names);
        let s = prep.setup(a).map_err(|e| format!("indexing: {}", e))?;
        let zk = r.u64();
        let p = s.prove::<PlainFs>(a, zk).map_err(|e| format!("setup for degree {}, domain {}: proving failed: {}", max, c.n, e))?;
        let v = s.verify::<PlainFs>(dup(&p), &a.i);
        if !v.accepted() {
            return Err(format!("setup for degree {}, domain {}: honest proof not accepted: {:?}", max, c.n, v));
        }
        cx.eval();
        if k == 0 {
            let prep2 = Prep::<PC>::new(c, &ck2, &vk2, names);
            let s2 = prep2.setup(a).map_err(|e| format!("indexing: {}", e))?;
            let v = s2.verify::<PlainFs>(dup(&p), &a.i);
            if !v.accepted() {
                return Err(format!("keys made again from the same setup randomness refuse the proof: {:?}", v));
            }
            cx.eval();
            cx.obs("keys made again from the same randomness");
            if c.np() > 0 || !c.lookups.is_empty() || a.w.iter().flatten().any(|x| !x.is_zero()) {
                let prep3 = Prep::<PC>::new(c, &ck3, &vk3, names);
                let s3 = prep3.setup(a).map_err(|e| format!("indexing: {}", e))?;
                let v = s3.verify::<PlainFs>(dup(&p), &a.i);
                if v.accepted() || matches!(v, Verdict::Panic(_)) {
                    return Err(format!("proof under the keys of another setup: {:?}", v));
                }
                cx.eval();
                cx.obs("proof refused under another setup");
            }
        }
        // keys too small for a column
        let deg = a.w.iter().map(|e| interp(e).degree()).max().unwrap_or(0);
        let small = match r.below(3) {
            0 => deg.saturating_sub(1),
            1 => c.n / 2,
            _ => r.below(c.n),
        };
        match make_keys::<PC>(small, seed, mock)? {
            Made::Refused => {
                if small > 0 {
                    return Err(format!("no keys from a setup for degree {}", small));
                }
                cx.obs("setup for degree zero refused");
            }
            Made::Keys(d, sup, (ck, _)) => {
                let mut q = Prep::<PC>::new(c, &s.p.ck, &vk, names);
                q.ck = ck;
                let s = q.setup(a).map_err(|e| format!("indexing: {}", e))?;
                match s.prove::<PlainFs>(a, zk) {
                    Err(Fail::Panic(e)) => {
                        return Err(format!("setup for degree {}, columns of degree {}: proving panics: {}", small, deg, e))
                    }
                    Err(Fail::Err(_)) if small + 1 >= c.n => {
                        return Err(format!("proving under a large enough key (degree {}) fails", small))
                    }
                    Err(Fail::Err(_)) => cx.obs("too small a key is an error"),
                    Ok(_) if deg > d.max(sup) => {
                        return Err(format!("a column of degree {} proved under keys for degree {}", deg, d.max(sup)))
                    }
                    Ok(_) => cx.obs("columns small enough for the key"),
                }
                cx.eval();
            }
        }
        cx.sig(format!("{} {} {}", max, small, c.sig()));
    }
    if sizes.len() > 1 {
        cx.obs("one setup, domains of several sizes");
    }
    cx.obs(if real { "real KZG" } else { "idealised scheme" });
    if mock {
        cx.obs("keys made by the mock prover");
    }
    cx.sample(cs[0].0.show());
    Ok(())
}

fn main() {
    main_(&[
        Spec {
            id: "P01",
            level: "exploration",
            rule: "random satisfied gate circuits (columns, offsets, degrees, selectors, recurrences, custom vanishing polynomials) proved and verified by the real code; a case is non-trivial when its circuit signature (size, columns, degree, offsets by kind, shapes) is new",
            quick: 15000,
            thorough: 300000,
            require: &["real KZG", "custom vanishing polynomial", "query W+far", "query W-far", "query I+1", "query X-1", "shape recurrence", "shape range"],
            assumptions: &["five of six cases use an idealised commitment scheme with the algebra of the real one", "domains up to 1024 rows, gate degree up to 20", "a circuit that opens a column at two offsets meeting in one row may be refused with an error"],
            case: p01,
        },
        Spec {
            id: "P02",
            level: "exploration",
            rule: "random circuits with copy constraints whose linked cells are equal, proved and verified by the real code; non-trivial when the circuit signature (size, usable rows, permuted columns, links, gates) is new",
            quick: 12000,
            thorough: 240000,
            require: &["real KZG", "cross-column cycle", "grand products=2", "grand products=3", "one usable row", "shape copy-only-column"],
            assumptions: &["five of six cases use an idealised commitment scheme with the algebra of the real one"],
            case: p02,
        },
        Spec {
            id: "P03",
            level: "exploration",
            rule: "random circuits with satisfied lookups (expression inputs, table offsets, shared tables, selectors), proved and verified by the real code; non-trivial when the circuit signature is new",
            quick: 10000,
            thorough: 200000,
            require: &["real KZG", "several lookups", "lookup arity=3", "lookup degree=2", "shape table-rot", "shape lk-shared", "shape lk-selected", "lookups with empty permutation info"],
            assumptions: &["five of six cases use an idealised commitment scheme with the algebra of the real one"],
            case: p03,
        },
        Spec {
            id: "P20",
            level: "exploration",
            rule: "random circuits indexed from the verifier's and from the prover's columns with satisfying, zero, constant and random values; the keys are compared with each other, with the degrees of the circuit and with the vanishing polynomial; unsupported circuits must be refused; non-trivial when the circuit signature is new",
            quick: 9000,
            thorough: 180000,
            require: &["custom vanishing polynomial", "refused: IndexTooLarge", "refused: QuotientTooSmall", "extension=2", "extension=4", "extension=8", "honest proof with the key", "prover key from zero columns"],
            assumptions: &["domains up to 256 rows (up to 2^30 for refused circuits)"],
            case: p20,
        },
        Spec {
            id: "P25",
            level: "exploration",
            rule: "random histories of proofs (repeated, other assignments, other circuits, columns used under other keys, verifications, new keys) and concurrent proofs on 2 to 6 threads, each compared byte by byte with the first proof of the same statement and prover randomness; non-trivial when history and circuit signature are new",
            quick: 1800,
            thorough: 36000,
            require: &["concurrent proving", "repeated with fresh columns", "repeated with the same column objects", "repeated after another circuit", "repeated after another assignment", "repeated with a new key", "columns used under a key with another extended domain"],
            assumptions: &["threads use keys of their own for the same circuit, since keys are not shareable between threads in safe Rust"],
            case: p25,
        },
        Spec {
            id: "P27",
            level: "exploration",
            rule: "element counts, printed summary and encoded size of proofs of random circuits compared with the numbers the circuit prescribes, for generated and degenerate (zero, constant, linear) assignments; non-trivial when the circuit signature is new",
            quick: 20000,
            thorough: 400000,
            require: &["columns zero", "columns constant", "columns linear", "columns generated", "several lookups", "cross-column cycle"],
            assumptions: &["idealised commitment scheme"],
            case: p27,
        },
        Spec {
            id: "P28",
            level: "exploration",
            rule: "universal setups of degrees from zero to several times the domain; keys made from them prove and verify random circuits of several sizes, keys for smaller degrees must end in error values, keys made again from the same randomness are interchangeable and others are not; non-trivial when degrees and circuit signature are new",
            quick: 3000,
            thorough: 60000,
            require: &["real KZG", "setup of the least degree", "setup larger than needed", "one setup, domains of several sizes", "too small a key is an error", "setup for degree zero refused", "keys made again from the same randomness", "proof refused under another setup", "keys made by the mock prover"],
            assumptions: &["three of four cases use an idealised commitment scheme with the algebra of the real one", "setups up to three times the domain"],
            case: p28,
        },
    ]);
}
use zokmon::report::main as main_;
