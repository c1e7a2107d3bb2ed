//! The batched opening protocol on its own (P12) and the linear algebra of
//! commitments (P23).
use ark_ff::{to_bytes, Field, One, UniformRand, Zero};
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, PolynomialCommitment};
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::multiproof::poly::{construct_lagrange_basis, construct_vanishing};
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;
use zokmon::circuit::rotation;
use zokmon::fs::{self, PlainFs, RecFs, ZkRng};
use zokmon::proofs::*;
use zokmon::report::*;
use zokmon::run::*;
use zokmon::taupc::{Comm, Opening, TauPC};
use zokmon::util::*;
use zokmon::*;

type MoProof<PC> = zero_over_k::multiproof::Proof<F, PC>;

/// Polynomials with the row offsets they are opened at.
struct Job {
    n: usize,
    rots: Vec<Vec<i64>>,
    polys: Vec<P>,
    fixed: Vec<bool>,
    xi: F,
    salt: [u8; 8],
    style: &'static str,
}

fn trim(mut v: Vec<F>) -> P {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
    P::from_coefficients_vec(v)
}
fn point(n: usize, xi: F, rot: i64) -> F {
    let d = domain(n);
    xi * d.element(rot.rem_euclid(n as i64) as usize)
}

fn job(r: &mut R, kzg: bool) -> Job {
    let n = if kzg { *r.pick(&[4usize, 8]) } else { *r.pick(&[4usize, 8, 8, 16, 32]) };
    // now and then a crowd: many polynomials in one group, or many groups
    let crowd = !kzg && r.chance(15);
    let m = if crowd { r.range(9, 40) } else { r.range(1, if kzg { 4 } else { 8 }) };
    // a pool of offset sets, so that groups get several members
    let pool: Vec<Vec<i64>> = (0..if crowd { r.range(1, 9) } else { r.range(1, 4) })
        .map(|_| {
            let k = match r.below(6) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 3,
                _ => r.range(1, 6.min(n)),
            }
            .min(n - 1);
            let mut s: BTreeMap<i64, i64> = BTreeMap::new();
            while s.len() < k {
                let x = match r.below(3) {
                    0 => r.range(0, 2) as i64 - 1,
                    1 => r.below(n) as i64,
                    _ => -(r.below(n) as i64),
                };
                s.entry(x.rem_euclid(n as i64)).or_insert(x);
            }
            s.values().cloned().collect()
        })
        .collect();
    let style = *r.pick(&["random", "random", "low degree", "constants", "cancelling", "mixed"]);
    let rots: Vec<Vec<i64>> = (0..m).map(|_| r.pick(&pool).clone()).collect();
    let xi = r.f_nz();
    let mut polys: Vec<P> = vec![];
    for j in 0..m {
        let st = if style == "mixed" { *r.pick(&["random", "low degree", "constants", "cancelling", "equal", "zero"]) } else { style };
        let p = match st {
            "random" => trim(r.fs(n)),
            "low degree" => {
                let d = r.below(n.min(4));
                trim(r.fs(d + 1))
            }
            "constants" => trim(vec![r.f_mixed()]),
            "zero" => P::zero(),
            "equal" if j > 0 => {
                let k = r.below(j);
                polys[k].clone()
            }
            _ => {
                // low degree on the opened points, high degree elsewhere
                let pts: Vec<F> = rots[j].iter().map(|x| point(n, xi, *x)).collect();
                let mut v = trim(vec![F::one()]);
                for x in &pts {
                    v = &v * &trim(vec![-*x, F::one()]);
                }
                let room = (n - 1).saturating_sub(v.degree());
                let k = r.range(0, room);
                let low = r.below(pts.len().max(1)) + 1;
                let high = &v * &trim(r.fs(k + 1));
                let p = &trim(r.fs(low)) + &high;
                if p.degree() < n {
                    p
                } else {
                    trim(r.fs(n))
                }
            }
        };
        polys.push(p);
    }
    let fixed = (0..m).map(|_| r.chance(30)).collect();
    Job { n, rots, polys, fixed, xi, salt: r.u64().to_le_bytes(), style }
}

enum VO<PC: Scheme> {
    W(WitnessVerifierOracle<F, PC>),
    X(FixedVerifierOracle<F, PC>),
}
impl<PC: Scheme> Clone for VO<PC> {
    fn clone(&self) -> Self {
        match self {
            VO::W(x) => VO::W(x.clone()),
            VO::X(x) => VO::X(x.clone()),
        }
    }
}
impl<PC: Scheme> VO<PC> {
    fn get(&self) -> &dyn CommittedOracle<F, PC> {
        match self {
            VO::W(x) => x,
            VO::X(x) => x,
        }
    }
    fn claim(&mut self, at: F, v: F) {
        match self {
            VO::W(x) => x.register_eval_at_challenge(at, v),
            VO::X(x) => x.register_eval_at_challenge(at, v),
        }
    }
    fn comm(&self) -> PC::Commitment {
        self.get().get_commitment().unwrap().clone()
    }
    fn set_comm(&mut self, c: PC::Commitment) {
        match self {
            VO::W(x) => x.register_commitment(c),
            VO::X(x) => x.register_commitment(c),
        }
    }
}

struct Run<PC: Scheme> {
    proof: MoProof<PC>,
    vos: Vec<VO<PC>>,
    rands: Vec<PC::Randomness>,
}

fn prove<PC: Scheme, FS: FiatShamirRng>(j: &Job, ck: &PC::CommitterKey, zk: u64) -> Result<Run<PC>, String> {
    let mut zk = ZkRng::new(zk);
    let mut w: Vec<Option<WitnessProverOracle<F>>> = vec![];
    let mut x: Vec<Option<FixedProverOracle<F>>> = vec![];
    let mut vos: Vec<VO<PC>> = vec![];
    let mut rands = vec![];
    for (i, p) in j.polys.iter().enumerate() {
        let name = format!("p{}", i);
        let ev = domain(j.n).fft(p);
        let l: LabeledPolynomial<F, P> = if j.fixed[i] {
            let mut o = FixedProverOracle::new(name.clone(), p.clone(), &ev);
            for k in &j.rots[i] {
                o.register_rotation(rotation(*k));
            }
            let l = o.to_labeled();
            x.push(Some(o));
            w.push(None);
            l
        } else {
            let mut o = WitnessProverOracle::new(name.clone(), p.clone(), &ev, false);
            for k in &j.rots[i] {
                o.register_rotation(rotation(*k));
            }
            let l = o.to_labeled();
            w.push(Some(o));
            x.push(None);
            l
        };
        let (c, rd) = PC::commit(ck, std::iter::once(&l), Some(&mut zk)).map_err(|e| format!("commit: {:?}", e))?;
        rands.push(rd[0].clone());
        let mut v = if j.fixed[i] {
            VO::X(FixedVerifierOracle::new(name, Some(c[0].commitment().clone())))
        } else {
            let mut v = WitnessVerifierOracle::new(name, false);
            v.register_commitment(c[0].commitment().clone());
            VO::W(v)
        };
        for k in &j.rots[i] {
            match &mut v {
                VO::W(o) => o.register_rotation(rotation(*k)),
                VO::X(o) => o.register_rotation(rotation(*k)),
            }
            let at = point(j.n, j.xi, *k);
            v.claim(at, p.evaluate(&at));
        }
        vos.push(v);
    }
    let os: Vec<&dyn Instantiable<F>> = (0..j.polys.len())
        .map(|i| match &w[i] {
            Some(o) => o as &dyn Instantiable<F>,
            None => x[i].as_ref().unwrap() as &dyn Instantiable<F>,
        })
        .collect();
    let mut f = FS::initialize(&to_bytes![&j.salt[..]].unwrap());
    match guard(|| Multiopen::<F, PC, FS>::prove(ck, &os, &rands, j.xi, j.n, &mut f, &mut zk)) {
        Ok(Ok(proof)) => Ok(Run { proof, vos, rands }),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(p) => Err(format!("panic {}", p)),
    }
}
fn verify<PC: Scheme, FS: FiatShamirRng>(j: &Job, vk: &PC::VerifierKey, proof: &MoProof<PC>, vos: &[VO<PC>]) -> Verdict {
    let os: Vec<&dyn CommittedOracle<F, PC>> = vos.iter().map(|v| v.get()).collect();
    let mut f = FS::initialize(&to_bytes![&j.salt[..]].unwrap());
    let p = copy_mo::<PC>(proof);
    match guard(|| Multiopen::<F, PC, FS>::verify(vk, p, &os, j.xi, j.n, &mut f)) {
        Ok(Ok(())) => Verdict::Accept,
        Ok(Err(e)) => Verdict::Reject(format!("{:?}", e)),
        Err(p) => Verdict::Panic(p),
    }
}

fn delta(r: &mut R) -> F {
    match r.below(4) {
        0 => F::one(),
        1 => -F::one(),
        _ => r.f_nz(),
    }
}

fn p12_pc<PC: Open>(r: &mut R, cx: &mut Cx, kzg: bool) -> Result<Option<(Job, Run<PC>)>, String>
where
    Keys<PC>: Send + Clone,
{
    let j = job(r, kzg);
    let (ck, vk) = keys::<PC>(j.n, 1);
    cx.note(format!(
        "n={} style={} offsets={:?} degrees={:?} public={:?} xi={}",
        j.n,
        j.style,
        j.rots,
        j.polys.iter().map(|p| p.degree()).collect::<Vec<_>>(),
        j.fixed,
        j.xi
    ));
    let groups: BTreeSet<&Vec<i64>> = j.rots.iter().collect();
    let shape = format!("{:?} n{} m{} g{:?} {}", kzg, j.n, j.polys.len(), groups.iter().map(|g| g.len()).collect::<Vec<_>>(), j.style);
    cx.sample(format!("n={} {} polynomials, {}, offsets {:?}", j.n, j.polys.len(), j.style, j.rots));
    let zk = r.u64();
    let run = prove::<PC, PlainFs>(&j, &ck, zk).map_err(|e| format!("honest batched opening not produced: {}", e))?;
    let v = verify::<PC, PlainFs>(&j, &vk, &run.proof, &run.vos);
    cx.eval();
    if !v.accepted() {
        return Err(format!("honest batched opening of {} polynomials in {} groups: {:?}", j.polys.len(), groups.len(), v));
    }
    cx.obs("honest opening accepted");
    if kzg {
        cx.obs("real KZG");
    }
    cx.obs(format!("polynomials {}", j.style));
    if groups.iter().any(|g| g.len() >= 3) {
        cx.obs("group with three or more offsets");
    }
    if groups.len() >= 2 {
        cx.obs("several groups");
    }
    cx.sig(&shape);
    let mut bad = |cx: &mut Cx, what: &str, v: Verdict| -> CaseResult {
        cx.eval();
        match v {
            Verdict::Accept => Err(format!("accepted: {}", what)),
            Verdict::Panic(p) => Err(format!("verifier crashed on {}: {}", what, p)),
            Verdict::Reject(_) => {
                cx.obs(format!("rejected: {}", what));
                cx.sig(format!("{} {}", what, shape));
                Ok(())
            }
        }
    };
    // every single false value
    let mut places: Vec<(usize, i64)> = vec![];
    for (i, rs) in j.rots.iter().enumerate() {
        for k in rs {
            places.push((i, *k));
        }
    }
    r.shuffle(&mut places);
    let limit = if kzg { 3 } else { 40 };
    for (i, k) in places.iter().take(limit) {
        let mut vos = run.vos.clone();
        let at = point(j.n, j.xi, *k);
        let t = j.polys[*i].evaluate(&at);
        let fake = match r.below(4) {
            0 if !t.is_zero() => F::zero(),
            1 => j.polys[*r.pick(&(0..j.polys.len()).collect::<Vec<_>>())].evaluate(&at),
            2 if *k != 0 => j.polys[*i].evaluate(&j.xi),
            _ => t + delta(r),
        };
        if fake == t {
            continue;
        }
        vos[*i].claim(at, fake);
        bad(cx, "one false value", verify::<PC, PlainFs>(&j, &vk, &run.proof, &vos))?;
    }
    // lies that add up to nothing when the batching challenges are ignored
    for _ in 0..3 {
        if places.len() < 2 {
            break;
        }
        let (x, y) = (*r.pick(&places), *r.pick(&places));
        if x == y {
            continue;
        }
        let mut vos = run.vos.clone();
        let d = delta(r);
        for (p, d) in [(x, d), (y, -d)] {
            let at = point(j.n, j.xi, p.1);
            vos[p.0].claim(at, j.polys[p.0].evaluate(&at) + d);
        }
        let what = if j.rots[x.0] == j.rots[y.0] { "two false values of one group" } else { "two false values of two groups" };
        bad(cx, what, verify::<PC, PlainFs>(&j, &vk, &run.proof, &vos))?;
    }
    // values of two columns exchanged
    for _ in 0..2 {
        let (a, b) = (r.below(j.polys.len()), r.below(j.polys.len()));
        let mut vos = run.vos.clone();
        let mut changed = false;
        for k in &j.rots[a] {
            if j.rots[b].contains(k) {
                let at = point(j.n, j.xi, *k);
                let (x, y) = (j.polys[a].evaluate(&at), j.polys[b].evaluate(&at));
                changed |= x != y;
                vos[a].claim(at, y);
                vos[b].claim(at, x);
            }
        }
        if changed {
            bad(cx, "values of two polynomials exchanged", verify::<PC, PlainFs>(&j, &vk, &run.proof, &vos))?;
        }
        let (ca, cb) = (run.vos[a].comm(), run.vos[b].comm());
        if a != b && !PC::eq_cm(&ca, &cb) && !(j.rots[a].is_empty() && j.rots[b].is_empty() && false) {
            let mut vos = run.vos.clone();
            vos[a].set_comm(cb);
            vos[b].set_comm(ca);
            bad(cx, "commitments exchanged", verify::<PC, PlainFs>(&j, &vk, &run.proof, &vos))?;
        }
    }
    // one commitment replaced
    {
        let a = r.below(j.polys.len());
        let mut vos = run.vos.clone();
        let c = run.vos[a].comm();
        let c2 = match r.below(3) {
            0 => PC::zero_comm(),
            1 => PC::add(&c, &c),
            _ => random_comm::<PC>(r, &c),
        };
        if !PC::eq_cm(&c, &c2) {
            vos[a].set_comm(c2);
            bad(cx, "commitment replaced", verify::<PC, PlainFs>(&j, &vk, &run.proof, &vos))?;
        }
    }
    // altered openings
    let q = run.proof.q_evals.len();
    for way in 0..9 {
        let mut p = copy_mo::<PC>(&run.proof);
        let what = match way {
            0 => {
                if q == 0 {
                    continue;
                }
                let i = r.below(q);
                p.q_evals.remove(i);
                "group value missing".to_string()
            }
            1 => {
                let i = r.below(q + 1);
                let v = if r.chance(50) { F::zero() } else { r.f() };
                p.q_evals.insert(i, v);
                "group value added".into()
            }
            2 => {
                if q == 0 {
                    continue;
                }
                let i = r.below(q);
                p.q_evals[i] += delta(r);
                "group value altered".into()
            }
            3 => {
                if q < 2 {
                    continue;
                }
                let (a, b) = (r.below(q), r.below(q));
                if p.q_evals[a] == p.q_evals[b] {
                    continue;
                }
                p.q_evals.swap(a, b);
                "group values exchanged".into()
            }
            4 => {
                if q == 0 {
                    continue;
                }
                p.q_evals.clear();
                "no group values".into()
            }
            5 => {
                p.f_commit = if r.chance(30) { PC::zero_comm() } else { random_comm::<PC>(r, &p.f_commit) };
                if PC::eq_cm(&p.f_commit, &run.proof.f_commit) {
                    continue;
                }
                "aggregate commitment altered".into()
            }
            6 => {
                let extra = r.range(1, 40);
                for _ in 0..extra {
                    p.q_evals.push(F::zero());
                }
                "many group values added".into()
            }
            _ => {
                let w = r.below(PC::OPENING_WAYS);
                let was = bytes(&p.opening_proof);
                let s = PC::alter_opening(r, &mut p.opening_proof, w);
                if bytes(&p.opening_proof) == was {
                    continue;
                }
                // dropping or adding a blinding value of zero changes nothing
                s
            }
        };
        bad(cx, &what, verify::<PC, PlainFs>(&j, &vk, &p, &run.vos))?;
    }
    // an opening for another transcript or another point
    {
        let mut j2 = Job { n: j.n, rots: j.rots.clone(), polys: j.polys.clone(), fixed: j.fixed.clone(), xi: j.xi, salt: j.salt, style: j.style };
        j2.salt[r.below(8)] ^= 1 << r.below(8);
        bad(cx, "other transcript", verify::<PC, PlainFs>(&j2, &vk, &run.proof, &run.vos))?;
    }
    Ok(Some((j, run)))
}

/// A prover with false values that fixes its messages after seeing challenges.
fn p12_adaptive(r: &mut R, cx: &mut Cx, j: &Job, run: &Run<TauPC>) -> CaseResult {
    let (_, vk) = keys::<TauPC>(j.n, 1);
    let mut order: BTreeMap<BTreeSet<Rotation>, Vec<usize>> = BTreeMap::new();
    for (i, rs) in j.rots.iter().enumerate() {
        order.entry(rs.iter().map(|k| rotation(*k)).collect()).or_default().push(i);
    }
    let groups: Vec<Vec<usize>> = order.values().cloned().collect();
    let cands: Vec<usize> = (0..groups.len()).filter(|g| !j.rots[groups[*g][0]].is_empty()).collect();
    if cands.is_empty() {
        return Ok(());
    }
    // the honest polynomials of the opening, rebuilt
    let observe = |proof: &MoProof<TauPC>, vos: &[VO<TauPC>]| -> (Verdict, Vec<F>, Option<(F, F)>) {
        fs::take_log();
        zokmon::taupc::take_checked();
        let v = verify::<TauPC, RecFs>(j, &vk, proof, vos);
        let log = fs::take_log();
        (v, fs::challenges(&log), zokmon::taupc::take_checked())
    };
    let (v, ch, checked) = observe(&run.proof, &run.vos);
    if !v.accepted() || ch.len() != 4 || checked.is_none() {
        cx.obs("adaptive prover not applicable");
        return Ok(());
    }
    let (x1, x2) = (ch[0], ch[1]);
    let qs: Vec<(P, P)> = groups
        .iter()
        .map(|g| {
            let (mut p, mut b, mut k) = (P::zero(), P::zero(), F::one());
            for i in g {
                p = &p + &(&j.polys[*i] * k);
                b = &b + &(&run.rands[*i].blind * k);
                k *= x1;
            }
            (p, b)
        })
        .collect();
    let z_and_interp = |g: usize, vals: &dyn Fn(usize, F) -> F| -> (P, P) {
        let pts: Vec<F> = j.rots[groups[g][0]].iter().map(|k| point(j.n, j.xi, *k)).collect();
        let mut z = trim(vec![F::one()]);
        for p in &pts {
            z = &z * &trim(vec![-*p, F::one()]);
        }
        let mut out = P::zero();
        for (a, pa) in pts.iter().enumerate() {
            let mut l = trim(vec![F::one()]);
            for (b, pb) in pts.iter().enumerate() {
                if a != b {
                    l = &l * &(&trim(vec![-*pb, F::one()]) * (*pa - *pb).inverse().unwrap());
                }
            }
            let (mut e, mut k) = (F::zero(), F::one());
            for i in &groups[g] {
                e += k * vals(*i, *pa);
                k *= x1;
            }
            out = &out + &(&l * e);
        }
        (z, out)
    };
    // a false value
    let lie_g = *r.pick(&cands);
    let lie_i = *r.pick(&groups[lie_g]);
    let lie_k = *r.pick(&j.rots[lie_i]);
    let lie_at = point(j.n, j.xi, lie_k);
    let d = delta(r);
    let mut vos = run.vos.clone();
    let claim = j.polys[lie_i].evaluate(&lie_at) + d;
    vos[lie_i].claim(lie_at, claim);
    let vals = |i: usize, at: F| if i == lie_i && at == lie_at { claim } else { j.polys[i].evaluate(&at) };
    // an aggregate polynomial: quotients, remainders dropped
    let mut f = P::zero();
    let mut k = F::one();
    for g in 0..groups.len() {
        let (z, rp) = z_and_interp(g, &vals);
        let num = &qs[g].0 - &rp;
        f = &f + &(&(&num / &z) * k);
        k *= x2;
    }
    if r.chance(30) {
        f = trim(r.fs(j.n));
    }
    let f_blind = trim(r.fs(2));
    let comm = |p: &P, b: &P| Comm(p.evaluate(&vk.tau) + vk.gamma * b.evaluate(&vk.tau));
    let honest_opening = |f: &P, x3: F, x4: F| -> (Opening, F) {
        let (mut p, mut b, mut k) = (f.clone(), f_blind.clone(), x4);
        for (q, qb) in &qs {
            p = &p + &(q * k);
            b = &b + &(qb * k);
            k *= x4;
        }
        let whole = |x: F| p.evaluate(&x) + vk.gamma * b.evaluate(&x);
        (
            Opening { w: (whole(vk.tau) - whole(x3)) * (vk.tau - x3).inverse().unwrap(), random_v: Some(b.evaluate(&x3)) },
            p.evaluate(&x3),
        )
    };
    let q_at = |x3: F| -> Vec<F> { qs.iter().map(|q| q.0.evaluate(&x3)).collect() };
    for way in ["group value after the last challenge", "aggregate after the point", "group value to fit the quotients", "all group values random"] {
        let mut p = MoProof::<TauPC> { q_evals: q_at(ch[2]), f_commit: comm(&f, &f_blind), opening_proof: Opening { w: F::zero(), random_v: None } };
        // what the transcript says once f is fixed
        let (_, c1, _) = observe(&p, &vos);
        if c1.len() != 4 {
            continue;
        }
        let x3 = c1[2];
        p.q_evals = q_at(x3);
        let h = r.below(groups.len());
        let zinv = |g: usize| z_and_interp(g, &vals).0.evaluate(&x3).inverse().unwrap();
        let x2h = x2.pow([h as u64]);
        let mut f_used = f.clone();
        match way {
            "group value to fit the quotients" => {
                // f(x3) = sum of x2^i (q_i - r_i(x3)) / z_i(x3)
                let mut sum = F::zero();
                let mut k = F::one();
                for g in 0..groups.len() {
                    sum += k * (p.q_evals[g] - z_and_interp(g, &vals).1.evaluate(&x3)) * zinv(g);
                    k *= x2;
                }
                p.q_evals[h] += (f.evaluate(&x3) - sum) * (x2h * zinv(h)).inverse().unwrap();
            }
            "all group values random" => p.q_evals = r.fs(groups.len()),
            _ => {}
        }
        let (_, c2, ck2) = observe(&p, &vos);
        let (x4, value) = (c2[3], match ck2 {
            Some(x) => x.1,
            None => continue,
        });
        let (_, truth) = honest_opening(&f, x3, x4);
        match way {
            "group value after the last challenge" => {
                let c = x2h * zinv(h) + x4.pow([h as u64 + 1]);
                if c.is_zero() {
                    continue;
                }
                p.q_evals[h] += (truth - value) * c.inverse().unwrap();
            }
            "aggregate after the point" => {
                f_used = &f + &trim(vec![value - truth]);
                p.f_commit = comm(&f_used, &f_blind);
            }
            _ => {}
        }
        p.opening_proof = honest_opening(&f_used, x3, x4).0;
        let (v, _, _) = observe(&p, &vos);
        cx.eval();
        match v {
            Verdict::Accept => return Err(format!("a false value was accepted from a prover choosing its messages late: {}", way)),
            Verdict::Panic(e) => return Err(format!("verifier crashed: {}", e)),
            Verdict::Reject(_) => {
                cx.obs(format!("rejected: {}", way));
                cx.sig(format!("{} {} {:?}", way, groups.len(), j.rots[lie_i].len()));
            }
        }
        // control: the same construction without a lie is accepted
        if way == "all group values random" {
            let fh = {
                let truth = |i: usize, at: F| j.polys[i].evaluate(&at);
                let (mut f, mut k) = (P::zero(), F::one());
                for g in 0..groups.len() {
                    let (z, rp) = z_and_interp(g, &truth);
                    f = &f + &(&(&(&qs[g].0 - &rp) / &z) * k);
                    k *= x2;
                }
                f
            };
            let mut p = MoProof::<TauPC> { q_evals: vec![F::zero(); groups.len()], f_commit: comm(&fh, &f_blind), opening_proof: Opening { w: F::zero(), random_v: None } };
            let (_, c, _) = observe(&p, &run.vos);
            p.q_evals = q_at(c[2]);
            let (_, c, _) = observe(&p, &run.vos);
            p.opening_proof = honest_opening(&fh, c[2], c[3]).0;
            let (v, _, _) = observe(&p, &run.vos);
            cx.obs(format!("independent prover without a lie: {}", v.kind()));
        }
    }
    Ok(())
}

/// The verifier's last check is an opening of a combined commitment to a
/// combined value. Both combinations are read off the running verifier under
/// dictated challenges, and then solved for a strategy that no later
/// challenge could defeat.
fn p12_algebra(r: &mut R, cx: &mut Cx, j: &Job, run: &Run<TauPC>) -> CaseResult {
    let (_, vk) = keys::<TauPC>(j.n, 1);
    let m = run.proof.q_evals.len();
    let mut claims: Vec<(usize, F)> = (0..j.polys.len()).flat_map(|i| j.rots[i].iter().map(move |k| (i, point(j.n, j.xi, *k)))).collect();
    if claims.is_empty() || j.n > 16 {
        return Ok(());
    }
    // of many claims, some: the others stay true
    if claims.len() > 12 {
        cx.obs("solved prover: some of many claims");
        r.shuffle(&mut claims);
        claims.truncate(12);
    }
    let probe = |ch: [F; 4], q: &[F], f: F, comms: Option<(usize, F)>, lies: &[(usize, F)]| -> Option<(F, F)> {
        let mut vos = run.vos.clone();
        if let Some((i, d)) = comms {
            let c = vos[i].comm();
            vos[i].set_comm(Comm(c.0 + d));
        }
        for (c, d) in lies {
            let (i, at) = claims[*c];
            vos[i].claim(at, j.polys[i].evaluate(&at) + d);
        }
        let p = MoProof::<TauPC> { q_evals: q.to_vec(), f_commit: Comm(f), opening_proof: Opening { w: F::zero(), random_v: None } };
        fs::reset();
        for (k, x) in ch.iter().enumerate() {
            fs::force(k, *x);
        }
        zokmon::taupc::take_checked();
        let _ = verify::<TauPC, RecFs>(j, &vk, &p, &vos);
        let n = fs::challenges(&fs::take_log()).len();
        fs::reset();
        if n == 4 {
            zokmon::taupc::take_checked()
        } else {
            None
        }
    };
    macro_rules! or_skip {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => {
                    cx.obs("solved prover not applicable");
                    return Ok(());
                }
            }
        };
    }
    let zero = vec![F::zero(); m];
    // -- group values that satisfy every last challenge
    for lied in [false, true] {
        let c = r.below(claims.len());
        let lie = if lied { vec![(c, delta(r))] } else { vec![] };
        let (x1, x2, x3) = (r.f_nz(), r.f_nz(), r.f_nz());
        // without a lie f is the honest aggregate, recovered from the
        // verifier's own relation; with a lie nothing better than a guess
        let f_at = r.f();
        let mut rows: Vec<Vec<F>> = vec![];
        for _ in 0..2 * m + 3 {
            let ch = [x1, x2, x3, r.f_nz()];
            let (c0, v0) = or_skip!(probe(ch, &zero, F::zero(), None, &lie));
            let mut row = vec![];
            for g in 0..m {
                let mut q = zero.clone();
                q[g] = F::one();
                row.push(or_skip!(probe(ch, &q, F::zero(), None, &lie)).1 - v0);
            }
            let wf = or_skip!(probe(ch, &zero, F::one(), None, &lie)).0 - c0;
            let mut truth = F::zero();
            for i in 0..j.polys.len() {
                let w = or_skip!(probe(ch, &zero, F::zero(), Some((i, F::one())), &lie)).0 - c0;
                truth += w * j.polys[i].evaluate(&x3);
            }
            if lied {
                truth += wf * f_at;
            } else {
                row.push(-wf); // f(x3) left open: the honest prover has one
            }
            row.push(v0 - truth);
            rows.push(row);
        }
        // unknowns q (and f(x3) without a lie), last column the constant
        let w = rows[0].len();
        let solvable = rank(rows.clone(), w) == rank(rows.iter().map(|x| x[..w - 1].to_vec()).collect(), w - 1);
        cx.eval();
        if lied && solvable {
            return Err(format!("a false value can be covered by group values that satisfy every last challenge ({} groups)", m));
        }
        if !lied {
            cx.obs(if solvable { "solved prover without a lie succeeds" } else { "solved prover without a lie fails" });
        } else {
            cx.obs("no group values cover a false value");
            cx.sig(format!("late groups {} {}", m, claims.len()));
        }
    }
    // -- combinations of false values that some aggregate polynomial covers
    let deg = j.n; // one more than an honest aggregate needs
    let k = claims.len() + 1;
    let mut rows: Vec<Vec<F>> = vec![];
    for _ in 0..j.polys.len().min(claims.len()) + 1 {
        let (x1, x2, x4) = (r.f_nz(), r.f_nz(), r.f_nz());
        let xs: Vec<F> = (0..deg + 1 + k).map(|_| r.f_nz()).collect();
        // table[x][c]: how the lie about claim c moves the value, per unit of f
        let mut table: Vec<Vec<F>> = vec![];
        for x3 in &xs {
            let ch = [x1, x2, *x3, x4];
            let (c0, v0) = or_skip!(probe(ch, &zero, F::zero(), None, &[]));
            let wf = or_skip!(probe(ch, &zero, F::one(), None, &[])).0 - c0;
            let inv = or_skip!(wf.inverse());
            let mut line = vec![];
            for c in 0..claims.len() {
                line.push((or_skip!(probe(ch, &zero, F::zero(), None, &[(c, F::one())])).1 - v0) * inv);
            }
            table.push(line);
        }
        // divided differences over deg + 2 nodes kill what f can supply
        for s in 0..k {
            let nodes = &xs[s..s + deg + 2];
            let mut row = vec![F::zero(); claims.len()];
            for (a, xa) in nodes.iter().enumerate() {
                let d: F = nodes.iter().enumerate().filter(|(b, _)| *b != a).map(|(_, xb)| *xa - *xb).product();
                let d = or_skip!(d.inverse());
                for c in 0..claims.len() {
                    row[c] += table[s + a][c] * d;
                }
            }
            rows.push(row);
        }
    }
    cx.eval();
    cx.obs_n("verifier equations read off", rows.len() as u64);
    if let Some(v) = kernel(rows, claims.len()) {
        let who: Vec<String> = (0..v.len()).filter(|c| !v[*c].is_zero()).map(|c| format!("p{}", claims[c].0)).collect();
        return Err(format!("false values of {} together are covered by one aggregate polynomial for every challenge", who.join(" and ")));
    }
    cx.obs("no combination of false values is covered");
    cx.sig(format!("claims {} polys {} groups {}", claims.len(), j.polys.len(), m));
    Ok(())
}

/// Interpolation helpers against their definitions.
fn poly_helpers(r: &mut R, cx: &mut Cx) -> CaseResult {
    let k = r.range(0, 6);
    let mut pts: Vec<F> = vec![];
    while pts.len() < k {
        let x = r.f_mixed();
        if !pts.contains(&x) {
            pts.push(x);
        }
    }
    let v = construct_vanishing(&pts);
    let ls = construct_lagrange_basis(&pts);
    cx.eval();
    if v.degree() != k && k > 0 || ls.len() != k {
        return Err(format!("vanishing polynomial of {} points has degree {}", k, v.degree()));
    }
    let x = r.f();
    let want: F = pts.iter().map(|p| x - p).product();
    if v.evaluate(&x) != want {
        return Err("vanishing polynomial has a wrong value".into());
    }
    for (i, l) in ls.iter().enumerate() {
        for (j, p) in pts.iter().enumerate() {
            if l.evaluate(p) != (if i == j { F::one() } else { F::zero() }) || l.degree() >= k.max(1) {
                return Err("interpolation basis has a wrong value".into());
            }
        }
    }
    Ok(())
}

fn p12(r: &mut R, cx: &mut Cx) -> CaseResult {
    poly_helpers(r, cx)?;
    if cx.idx % 10 == 9 {
        p12_pc::<Kzg>(r, cx, true)?;
    } else if let Some((j, run)) = p12_pc::<TauPC>(r, cx, false)? {
        p12_adaptive(r, cx, &j, &run)?;
        if cx.idx % 12 == 1 {
            p12_algebra(r, cx, &j, &run)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P23

fn scalar(r: &mut R) -> F {
    r.f_mixed()
}
fn some_poly(r: &mut R, n: usize) -> P {
    match r.below(6) {
        0 => P::zero(),
        1 => trim(vec![r.f_mixed()]),
        2 => {
            let d = r.range(1, n - 1);
            let mut v = vec![F::zero(); d];
            v.push(r.f_nz());
            trim(v)
        }
        _ => {
            let d = r.range(1, n);
            trim(r.fs(d))
        }
    }
}
struct Com {
    p: P,
    c: <Kzg as PolynomialCommitment<F, P>>::Commitment,
    rd: <Kzg as PolynomialCommitment<F, P>>::Randomness,
    hiding: bool,
}
type KzgKeys = (<Kzg as PolynomialCommitment<F, P>>::CommitterKey, <Kzg as PolynomialCommitment<F, P>>::VerifierKey);
const MOST_HIDING: usize = 9;
/// keys that support long blinding polynomials
fn hiding_keys(n: usize) -> KzgKeys {
    static K: std::sync::Mutex<std::collections::BTreeMap<usize, KzgKeys>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let mut k = K.lock().unwrap_or_else(|e| e.into_inner());
    k.entry(n)
        .or_insert_with(|| {
            let mut r = R::new(zokmon::util::mix(23, n as u64));
            let pp = Kzg::setup(n.max(MOST_HIDING + 2), None, &mut r.0).expect("setup");
            Kzg::trim(&pp, n - 1, MOST_HIDING, None).expect("trim")
        })
        .clone()
}
fn make(r: &mut R, ck: &<Kzg as PolynomialCommitment<F, P>>::CommitterKey, p: P, hiding: bool) -> Com {
    let bound = if r.chance(50) { 1 } else { r.range(1, MOST_HIDING) };
    let l = LabeledPolynomial::new("p".into(), p.clone(), None, if hiding { Some(bound) } else { None });
    let mut zk = ZkRng::new(r.u64());
    let (c, rd) = Kzg::commit(ck, std::iter::once(&l), Some(&mut zk)).expect("commit");
    Com { p, c: c[0].commitment().clone(), rd: rd[0].clone(), hiding }
}

fn p23(r: &mut R, cx: &mut Cx) -> CaseResult {
    let n = *r.pick(&[4usize, 8, 16]);
    let (ck, vk) = hiding_keys(n);
    let mk = |r: &mut R| {
        let p = some_poly(r, n);
        let h = r.chance(60);
        make(r, &ck, p, h)
    };
    let (a, b, c) = (mk(r), mk(r), mk(r));
    let (s, t) = (scalar(r), scalar(r));
    cx.note(format!("n={} degrees {} {} hiding {} {} s={} t={}", n, a.p.degree(), b.p.degree(), a.hiding, b.hiding, fstr(&s), fstr(&t)));
    let eq = Kzg::eq_cm;
    let zero = Kzg::zero_comm();
    let mut law = |cx: &mut Cx, name: &str, ok: Result<bool, String>| -> CaseResult {
        cx.eval();
        match ok {
            Ok(true) => {
                cx.obs(format!("law: {}", name));
                cx.sig(format!("{} {} {} {} {} {}", name, a.p.degree(), b.p.degree(), a.hiding, b.hiding, fstr(&s).len() < 8));
                Ok(())
            }
            Ok(false) => Err(format!("commitments violate: {}", name)),
            Err(p) => Err(format!("crash in: {}: {}", name, p)),
        }
    };
    macro_rules! law {
        ($n:expr, $e:expr) => {
            law(cx, $n, guard(|| $e))?
        };
    }
    law!("zero is zero", Kzg::is_zero(&zero));
    law!("equality is equality of points", eq(&a.c, &b.c) == (a.c.0 == b.c.0) && eq(&a.c, &a.c.clone()));
    law!("is_zero only for zero", Kzg::is_zero(&a.c) == (a.c.0 == zero.0));
    law!("a + b = b + a", eq(&Kzg::add(&a.c, &b.c), &Kzg::add(&b.c, &a.c)));
    law!("(a + b) + c = a + (b + c)", eq(&Kzg::add(&Kzg::add(&a.c, &b.c), &c.c), &Kzg::add(&a.c, &Kzg::add(&b.c, &c.c))));
    law!("a + 0 = a", eq(&Kzg::add(&a.c, &zero), &a.c) && eq(&Kzg::add(&zero, &a.c), &a.c));
    law!("a + (-a) = 0", Kzg::is_zero(&Kzg::add(&a.c, &Kzg::neg_com(&a.c))));
    law!("-a = (-1) a", eq(&Kzg::neg_com(&a.c), &Kzg::scale_com(&a.c, -F::one())));
    law!("0 a = 0, 1 a = a", Kzg::is_zero(&Kzg::scale_com(&a.c, F::zero())) && eq(&Kzg::scale_com(&a.c, F::one()), &a.c));
    law!("2 a = a + a", eq(&Kzg::scale_com(&a.c, F::from(2u64)), &Kzg::add(&a.c, &a.c)));
    law!("(s + t) a = s a + t a", eq(&Kzg::scale_com(&a.c, s + t), &Kzg::add(&Kzg::scale_com(&a.c, s), &Kzg::scale_com(&a.c, t))));
    law!("s (t a) = (s t) a", eq(&Kzg::scale_com(&Kzg::scale_com(&a.c, t), s), &Kzg::scale_com(&a.c, s * t)));
    law!("s (a + b) = s a + s b", eq(&Kzg::scale_com(&Kzg::add(&a.c, &b.c), s), &Kzg::add(&Kzg::scale_com(&a.c, s), &Kzg::scale_com(&b.c, s))));
    if !Kzg::is_zero(&a.c) && s != t {
        law!("s a differs from t a", !eq(&Kzg::scale_com(&a.c, s), &Kzg::scale_com(&a.c, t)));
        law!("a is not its negative", !eq(&a.c, &Kzg::neg_com(&a.c)));
    }
    // multi-scaling
    let k = if r.chance(4) { r.range(20, 70) } else { r.range(0, 7) };
    let mut cs = vec![];
    let mut ss = vec![];
    let mut want = zero.clone();
    for _ in 0..k {
        let x = match r.below(5) {
            0 => a.c.clone(),
            1 => b.c.clone(),
            2 => zero.clone(),
            3 => Kzg::neg_com(&a.c),
            _ => mk(r).c,
        };
        let sc = scalar(r);
        want = Kzg::add(&want, &Kzg::scale_com(&x, sc));
        cs.push(x);
        ss.push(sc);
    }
    if k >= 20 {
        cx.obs("multi-scaling of twenty commitments or more");
    }
    law!("multi-scaling is the sum of scalings", eq(&Kzg::msm(&cs, &ss), &want));
    // commitments without hiding are a linear map
    let plain = |r: &mut R, p: P| make(r, &ck, p, false).c;
    let (pa, pb) = (plain(r, a.p.clone()), plain(r, b.p.clone()));
    let sum = &(&a.p * s) + &(&b.p * t);
    let psum = plain(r, sum.clone());
    law!("commitment of s p + t q", eq(&Kzg::add(&Kzg::scale_com(&pa, s), &Kzg::scale_com(&pb, t)), &psum));
    law!("commitment of s p + t q by multi-scaling", eq(&Kzg::msm(&[pa.clone(), pb.clone()], &[s, t]), &psum));
    let pneg = plain(r, -a.p.clone());
    law!("commitment of -p", eq(&Kzg::neg_com(&pa), &pneg));
    // randomness follows
    let style = r.below(4);
    let t2 = if style == 0 && b.hiding && a.hiding {
        // leading blinding coefficients cancel
        let la = a.rd.blinding_polynomial.coeffs.last().cloned().unwrap_or(F::one()) * s;
        let lb = b.rd.blinding_polynomial.coeffs.last().cloned().unwrap_or(F::one());
        -la * lb.inverse().unwrap_or(F::one())
    } else if style == 1 {
        -s
    } else {
        t
    };
    let other = if style == 1 { &a } else { &b };
    let combined = guard(|| {
        let x = Kzg::scale_rand(&a.rd, s);
        let y = Kzg::scale_rand(&other.rd, t2);
        let z = Kzg::add_rands(&x, &y);
        let mut w = x.clone();
        Kzg::add_assign_rand(&mut w, &y);
        (z, w)
    });
    let (z, w) = combined.map_err(|p| format!("crash combining randomness: {}", p))?;
    let p = &(&a.p * s) + &(&other.p * t2);
    let cm = Kzg::add(&Kzg::scale_com(&a.c, s), &Kzg::scale_com(&other.c, t2));
    let x = r.f_mixed();
    for (name, rd) in [("added randomness", z), ("randomness added in place", w)] {
        let (p1, cm1) = (p.clone(), cm.clone());
        let res = guard(|| {
            let l = LabeledPolynomial::new("s".into(), p1.clone(), None, Some(1));
            let lc = LabeledCommitment::new("s".into(), cm1.clone(), None);
            let pr = Kzg::open(&ck, std::iter::once(&l), std::iter::once(&lc), &x, F::one(), &[rd.clone()], None)
                .map_err(|e| format!("{:?}", e))?;
            let v = p1.evaluate(&x);
            let good = Kzg::check(&vk, std::iter::once(&lc), &x, [v], &pr, F::one(), None).map_err(|e| format!("{:?}", e))?;
            let bad = Kzg::check(&vk, std::iter::once(&lc), &x, [v + F::one()], &pr, F::one(), None).map_err(|e| format!("{:?}", e))?;
            Ok::<_, String>((good, bad))
        });
        cx.eval();
        match res {
            Ok(Ok((true, false))) => {
                cx.obs(format!("opening with {}", name));
                if a.hiding && other.hiding && a.rd.blinding_polynomial.coeffs.len() > 4 {
                    cx.obs("combined opening with more than four blinding coefficients");
                }
                if style == 0 && a.hiding && b.hiding {
                    cx.obs(format!("opening with cancelling leading blinds, {}", name));
                }
                cx.sig(format!("open {} {} {} {} {}", name, style, a.hiding, other.hiding, p.degree()));
            }
            Ok(Ok((g, b))) => return Err(format!("combined opening with {}: true value {}, false value {}", name, g, b)),
            Ok(Err(e)) => return Err(format!("combined opening with {}: {}", name, e)),
            Err(p) => return Err(format!("combined opening with {} crashed: {}", name, p)),
        }
    }
    // the commitment really depends on the polynomial and on the randomness
    if a.hiding {
        let again = make(r, &ck, a.p.clone(), true);
        law!("hiding commitments of one polynomial differ", !eq(&a.c, &again.c));
    }
    if a.p != b.p {
        law!("commitments of two polynomials differ", !eq(&pa, &pb));
    }
    cx.sample(format!("n={} degrees {} and {}, hiding {} and {}", n, a.p.degree(), b.p.degree(), a.hiding, b.hiding));
    let _ = F::rand(&mut r.0);
    Ok(())
}

fn main() {
    zokmon::report::main(&[
        Spec {
            id: "P12",
            level: "exploration",
            rule: "the batched opening protocol run on random polynomials grouped by random offset sets: the honest opening, every single false value, exchanged commitments and altered openings, and provers that fix their messages after seeing challenges; non-trivial when the alteration and the group structure are new",
            quick: 7500,
            thorough: 150000,
            require: &["honest opening accepted", "real KZG", "group with three or more offsets", "several groups", "rejected: one false value", "rejected: two false values of one group", "rejected: two false values of two groups", "rejected: commitments exchanged", "rejected: commitment replaced", "rejected: group value missing", "rejected: group value added", "rejected: group value altered", "rejected: aggregate commitment altered", "rejected: other transcript", "no group values cover a false value", "no combination of false values is covered"],
            assumptions: &["nine of ten cases use an idealised commitment scheme with the algebra of the real one"],
            case: p12,
        },
        Spec {
            id: "P23",
            level: "exploration",
            rule: "group laws, multi-scaling and openings of combined commitments of random polynomials with and without hiding under the real scheme; non-trivial when the law, degrees and hiding are new",
            quick: 4800,
            thorough: 96000,
            require: &["law: multi-scaling is the sum of scalings", "law: commitment of s p + t q", "opening with added randomness", "opening with randomness added in place", "opening with cancelling leading blinds, randomness added in place", "law: hiding commitments of one polynomial differ", "combined opening with more than four blinding coefficients", "multi-scaling of twenty commitments or more"],
            assumptions: &["the arkworks curve and pairing arithmetic is trusted"],
            case: p23,
        },
    ]);
}
