//! Drives the code under test: keys, indexing, proving and verifying of a
//! model circuit, with every outcome (accept, reject, error, panic) a value.

use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::sync::Mutex;

use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, PolynomialCommitment};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::*;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::verif::{TPProof, TurboPlonk};
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

use crate::circuit::*;
use crate::report::guard;
use crate::util::R;
use crate::{F, P};

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Err(String),
    Panic(String),
}
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Fail::Err(e) => write!(f, "error {}", e),
            Fail::Panic(e) => write!(f, "panic {}", e),
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    Panic(String),
}
impl Verdict {
    pub fn accepted(&self) -> bool {
        *self == Verdict::Accept
    }
    /// without the reason
    pub fn kind(&self) -> &'static str {
        match self {
            Verdict::Accept => "accept",
            Verdict::Reject(_) => "reject",
            Verdict::Panic(_) => "panic",
        }
    }
}

pub trait Scheme: HomomorphicCommitment<F> + 'static {}
impl<T: HomomorphicCommitment<F> + 'static> Scheme for T {}

pub type Keys<PC> = (
    <PC as PolynomialCommitment<F, P>>::CommitterKey,
    <PC as PolynomialCommitment<F, P>>::VerifierKey,
);

static CACHE: Mutex<Option<HashMap<(TypeId, usize, u64), Box<dyn Any + Send>>>> = Mutex::new(None);

/// Keys for polynomials of degree < n; cached per seed.
pub fn keys<PC: Scheme>(n: usize, seed: u64) -> Keys<PC>
where
    Keys<PC>: Send + Clone,
{
    let id = (TypeId::of::<PC>(), n, seed);
    let mut g = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    let e = m.entry(id).or_insert_with(|| {
        let mut r = R::new(crate::util::mix(seed, n as u64));
        type T<PC> = TurboPlonk<F, PC, crate::fs::PlainFs>;
        let srs = T::<PC>::universal_setup(n - 1, &mut r.0).ok().expect("universal setup");
        let k: Keys<PC> = T::<PC>::prepare_keys(&srs).ok().expect("prepare keys");
        Box::new(k)
    });
    e.downcast_ref::<Keys<PC>>().unwrap().clone()
}

pub fn domain(n: usize) -> GeneralEvaluationDomain<F> {
    GeneralEvaluationDomain::new(n).unwrap()
}
pub fn interp(evals: &[F]) -> P {
    P::from_coefficients_vec(domain(evals.len()).ifft(evals))
}
/// (X^n - 1) / prod over the last t rows
pub fn vanishing(n: usize, t: usize) -> P {
    let d = domain(n);
    let mut z: P = d.vanishing_polynomial().into();
    for i in n - t..n {
        let lin = P::from_coefficients_vec(vec![-d.element(i), F::one()]);
        z = &z / &lin;
    }
    z
}
/// A blinding selector: one on the rows after the usable ones.
pub fn q_blind_evals(c: &Circuit) -> Vec<F> {
    (0..c.n).map(|i| if i > c.u && c.needs_u() { F::one() } else { F::zero() }).collect()
}
pub fn sigma_evals(c: &Circuit) -> Vec<Vec<F>> {
    let d = domain(c.n);
    (0..c.np())
        .map(|j| {
            (0..c.n)
                .map(|i| {
                    if i < c.u {
                        let (j2, i2) = c.next[j][i];
                        c.deltas[j2] * d.element(i2)
                    } else {
                        c.sigma_dummy
                    }
                })
                .collect()
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum UMode {
    /// usable rows passed to both the permutation info and the index
    Proper,
    /// `PermutationInfo::dummy()` although lookups are used
    Dummy,
}

pub struct Prep<PC: Scheme> {
    pub c: Circuit,
    pub ck: PC::CommitterKey,
    pub vk: PC::VerifierKey,
    pub zh: P,
    pub names: u64,
    vos_v: Vec<GenericVO<F>>,
    lks_p: Vec<GenericLookupVO<F>>,
    lks_v: Vec<GenericLookupVO<F>>,
    pub xp: Vec<FixedProverOracle<F>>,
    pub tp: Vec<FixedProverOracle<F>>,
    pub sp: Vec<FixedProverOracle<F>>,
    pub qbp: FixedProverOracle<F>,
    pub xv: Vec<FixedVerifierOracle<F, PC>>,
    pub tv: Vec<FixedVerifierOracle<F, PC>>,
    pub sv: Vec<FixedVerifierOracle<F, PC>>,
    pub qbv: FixedVerifierOracle<F, PC>,
    pub wv: Vec<WitnessVerifierOracle<F, PC>>,
    pub umode: UMode,
}

pub struct Setup<'a, PC: Scheme> {
    pub p: &'a Prep<PC>,
    /// made from the prover's columns
    pub pk: ProverKey<'a, F, PC>,
    pub pp: ProverPreprocessedInput<F, PC>,
    /// made from the verifier's columns
    pub vk: VerifierKey<'a, F, PC>,
    pub vp: VerifierPreprocessedInput<F, PC>,
}

/// label styles: their order relative to the column order varies
pub fn pick_names(v: u64) -> u64 {
    v % 6 | ((v >> 8) % 10) << 8 | ((v >> 16) % 6) << 16
}
/// Names of columns: the kinds may share them, and they may be ones the
/// protocol uses itself.
pub fn name(style: u64, kind: char, i: usize) -> String {
    match (style >> 8) % 16 {
        1 => return format!("col{}", i),
        2 => {
            return match (kind as u64 + (style >> 16)) % 6 {
                0 => format!("quotient_chunk_{}", i),
                1 => format!("agg_permutation_{}", i),
                2 => format!("lookup_a_prime_{}_poly", i),
                3 => format!("lookup_s_prime_{}_poly", i),
                4 => format!("lookup_{}_agg_poly", i),
                _ => format!("{}", i),
            };
        }
        _ => {}
    }
    match style % 3 {
        0 => format!("{}{}", kind, i),
        1 => format!("{}{}", (b'z' - ((i * 7) % 26) as u8) as char, format!("{}{}", kind, i)),
        _ => format!("{}_{}", 97 - i, kind),
    }
}

pub fn build_vos(c: &Circuit) -> Vec<GenericVO<F>> {
    c.gates
        .iter()
        .enumerate()
        .map(|(i, g)| {
            let extra = if i == 0 { &c.extra[..] } else { &[] };
            GenericVO::init((g.to_ve(), g.queries().iter().chain(extra).map(vq).collect()))
        })
        .collect()
}
pub fn build_lookups(c: &Circuit) -> Vec<GenericLookupVO<F>> {
    c.lookups
        .iter()
        .map(|l| {
            let mut q: Vec<Q> = vec![];
            for e in &l.exprs {
                e.collect(&mut q);
            }
            let tq = l.tables.iter().map(|(t, r)| VirtualQuery::new(*t, rotation(*r), OracleType::Fixed)).collect();
            GenericLookupVO::init((l.exprs.iter().map(|e| e.to_ve()).collect(), q.iter().map(vq).collect(), tq))
        })
        .collect()
}

pub fn wit_oracles(c: &Circuit, names: u64, w: &[Vec<F>]) -> Vec<WitnessProverOracle<F>> {
    w.iter()
        .enumerate()
        .map(|(i, e)| WitnessProverOracle::new(name(names, 'w', i), interp(e), e, c.permute[i]))
        .collect()
}
pub fn ins_oracles(names: u64, v: &[Vec<F>]) -> Vec<InstanceProverOracle<F>> {
    v.iter().enumerate().map(|(i, e)| InstanceProverOracle::new(name(names, 'i', i), interp(e), e)).collect()
}
pub fn fixed_oracles(names: u64, kind: char, v: &[Vec<F>]) -> Vec<FixedProverOracle<F>> {
    v.iter().enumerate().map(|(i, e)| FixedProverOracle::new(name(names, kind, i), interp(e), e)).collect()
}
fn commit<PC: Scheme>(ck: &PC::CommitterKey, o: &[FixedProverOracle<F>]) -> Vec<FixedVerifierOracle<F, PC>> {
    use zero_over_k::oracles::traits::Instantiable;
    let l: Vec<LabeledPolynomial<F, P>> = o.iter().map(|x| x.to_labeled()).collect();
    let (c, _) = PC::commit(ck, l.iter(), None).ok().expect("commit to fixed columns");
    c.into_iter()
        .enumerate()
        .map(|(i, x): (usize, LabeledCommitment<PC::Commitment>)| match (i + o.len()) % 2 {
            0 => FixedVerifierOracle::from_labeled_commitment(&x),
            _ => FixedVerifierOracle::from_commitment(x),
        })
        .collect()
}

impl<PC: Scheme> Prep<PC> {
    pub fn new(c: &Circuit, ck: &PC::CommitterKey, vk: &PC::VerifierKey, names: u64) -> Self {
        Self::with(c, ck, vk, names, UMode::Proper, q_blind_evals(c), sigma_evals(c))
    }
    pub fn with(
        c: &Circuit,
        ck: &PC::CommitterKey,
        vk: &PC::VerifierKey,
        names: u64,
        umode: UMode,
        q_blind: Vec<F>,
        sigma: Vec<Vec<F>>,
    ) -> Self {
        let zero = vec![vec![F::zero(); c.n]; c.nw.max(c.ni)];
        let mut w = wit_oracles(c, names, &zero[..c.nw]);
        let mut i = ins_oracles(names, &zero[..c.ni]);
        let mut xp = fixed_oracles(names, 'q', &c.x);
        let mut tp = fixed_oracles(names, 't', &c.tables);
        let sp = fixed_oracles(names, 's', &sigma);
        let qbp = FixedProverOracle::new("q_blind", interp(&q_blind), &q_blind);
        let mut xv = commit::<PC>(ck, &xp);
        let mut tv = commit::<PC>(ck, &tp);
        let sv = commit::<PC>(ck, &sp);
        let qbv = commit::<PC>(ck, std::slice::from_ref(&qbp)).remove(0);
        let mut wv: Vec<_> = (0..c.nw).map(|i| WitnessVerifierOracle::new(name(names, 'w', i), c.permute[i])).collect();
        let mut iv: Vec<_> = (0..c.ni).map(|i| InstanceVerifierOracle::new(name(names, 'i', i), P::zero())).collect();
        for v in build_vos(c).iter_mut() {
            v.configure(&mut w, &mut i, &mut xp);
        }
        let mut lks_p = build_lookups(c);
        for l in lks_p.iter_mut() {
            l.configure(&mut w, &mut i, &mut xp, &mut tp).expect("configure lookup");
        }
        let mut vos_v = build_vos(c);
        for v in vos_v.iter_mut() {
            v.configure(&mut wv, &mut iv, &mut xv);
        }
        let mut lks_v = build_lookups(c);
        for l in lks_v.iter_mut() {
            l.configure(&mut wv, &mut iv, &mut xv, &mut tv).expect("configure lookup");
        }
        Prep {
            c: c.clone(),
            ck: ck.clone(),
            vk: vk.clone(),
            zh: vanishing(c.n, c.t),
            names,
            vos_v,
            lks_p,
            lks_v,
            xp,
            tp,
            sp,
            qbp,
            xv,
            tv,
            sv,
            qbv,
            wv,
            umode,
        }
    }
    /// The prover's columns for an assignment, with configured gates.
    pub fn prover_side(
        &self,
        a: &Assign,
    ) -> (Vec<WitnessProverOracle<F>>, Vec<InstanceProverOracle<F>>, Vec<GenericVO<F>>) {
        let mut w = wit_oracles(&self.c, self.names, &a.w);
        let mut i = ins_oracles(self.names, &a.i);
        let mut x = fixed_oracles(self.names, 'q', &self.c.x);
        let mut t = fixed_oracles(self.names, 't', &self.c.tables);
        let mut vos = build_vos(&self.c);
        for v in vos.iter_mut() {
            v.configure(&mut w, &mut i, &mut x);
        }
        for l in build_lookups(&self.c).iter_mut() {
            l.configure(&mut w, &mut i, &mut x, &mut t).expect("configure lookup");
        }
        (w, i, vos)
    }
    pub fn verifier_instance(&self, inst: &[Vec<F>]) -> Vec<InstanceVerifierOracle<F>> {
        let mut w = self.wv.clone();
        let mut x = self.xv.clone();
        let mut t = self.tv.clone();
        let mut i: Vec<_> = inst
            .iter()
            .enumerate()
            .map(|(k, e)| InstanceVerifierOracle::new(name(self.names, 'i', k), interp(e)))
            .collect();
        for v in build_vos(&self.c).iter_mut() {
            v.configure(&mut w, &mut i, &mut x);
        }
        for l in build_lookups(&self.c).iter_mut() {
            l.configure(&mut w, &mut i, &mut x, &mut t).expect("configure lookup");
        }
        i
    }
    pub fn perm_info(&self) -> PermutationInfo<F> {
        if !self.c.needs_u() || self.umode == UMode::Dummy {
            PermutationInfo::dummy()
        } else {
            PermutationInfo { u: self.c.u, deltas: self.c.deltas.clone() }
        }
    }
    pub fn index_prover(&self, a: &Assign) -> Result<VerifierKey<'_, F, PC>, Fail> {
        let (w, i, vos) = self.prover_side(a);
        let vr: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as _).collect();
        let lk: Vec<&dyn LookupVirtualOracle<F>> = self.lks_p.iter().map(|v| v as _).collect();
        let u = if self.c.needs_u() { self.c.u } else { 0 };
        match guard(|| {
            Indexer::<F, PC>::index(&self.vk, &vr, lk, &w, &i, &self.xp, domain(self.c.n), &self.zh, self.perm_info(), u)
        }) {
            Ok(Ok(k)) => Ok(k),
            Ok(Err(e)) => Err(Fail::Err(format!("{:?}", e))),
            Err(p) => Err(Fail::Panic(p)),
        }
    }
    pub fn index_verifier(&self) -> Result<VerifierKey<'_, F, PC>, Fail> {
        let i = self.verifier_instance(&vec![vec![F::zero(); self.c.n]; self.c.ni]);
        let vr: Vec<&dyn VirtualOracle<F>> = self.vos_v.iter().map(|v| v as _).collect();
        let lk: Vec<&dyn LookupVirtualOracle<F>> = self.lks_v.iter().map(|v| v as _).collect();
        let u = if self.c.needs_u() { self.c.u } else { 0 };
        match guard(|| {
            Indexer::<F, PC>::index(
                &self.vk,
                &vr,
                lk,
                &self.wv,
                &i,
                &self.xv,
                domain(self.c.n),
                &self.zh,
                self.perm_info(),
                u,
            )
        }) {
            Ok(Ok(k)) => Ok(k),
            Ok(Err(e)) => Err(Fail::Err(format!("{:?}", e))),
            Err(p) => Err(Fail::Panic(p)),
        }
    }
    pub fn setup(&self, a: &Assign) -> Result<Setup<'_, PC>, Fail> {
        let kp = self.index_prover(a)?;
        let vk = self.index_verifier()?;
        let pk = ProverKey::from_ck_and_vk(&self.ck, &kp);
        let pp = guard(|| ProverPreprocessedInput::new(&self.xp, &self.sp, &self.tp, &self.qbp, &pk.vk.index_info))
            .map_err(Fail::Panic)?;
        let vp = if self.c.needs_u() || self.names % 2 == 0 {
            VerifierPreprocessedInput::new(self.xv.clone(), self.tv.clone(), self.sv.clone(), self.qbv.clone())
        } else {
            VerifierPreprocessedInput::new_wo_blind(self.xv.clone(), self.tv.clone(), self.sv.clone())
        };
        Ok(Setup { p: self, pk, pp, vk, vp })
    }
}

impl<'a, PC: Scheme> Setup<'a, PC> {
    pub fn scaling(&self) -> usize {
        self.vk.index_info.extended_coset_domain.size() / self.p.c.n
    }
    pub fn prove<FS: FiatShamirRng>(&self, a: &Assign, zk: u64) -> Result<TPProof<F, PC>, Fail> {
        let (mut w, mut i, vos) = self.p.prover_side(a);
        self.prove_with::<FS>(&mut w, &mut i, &vos, zk)
    }
    pub fn prove_with<FS: FiatShamirRng>(
        &self,
        w: &mut [WitnessProverOracle<F>],
        i: &mut [InstanceProverOracle<F>],
        vos: &[GenericVO<F>],
        zk: u64,
    ) -> Result<TPProof<F, PC>, Fail> {
        let vr: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as _).collect();
        let mut zk = crate::fs::ZkRng::new(zk);
        match guard(|| TurboPlonk::<F, PC, FS>::prove(&self.pk, &self.pp, w, i, &vr, self.p.c.n, &mut zk)) {
            Ok(Ok(p)) => Ok(p),
            Ok(Err(e)) => Err(Fail::Err(format!("{:?}", e))),
            Err(p) => Err(Fail::Panic(p)),
        }
    }
    pub fn session(&self, inst: &[Vec<F>]) -> Session<'_, 'a, PC> {
        Session { s: self, vp: self.vp.clone(), w: self.p.wv.clone(), i: self.p.verifier_instance(inst) }
    }
    /// A verification with fresh verifier objects.
    pub fn verify<FS: FiatShamirRng>(&self, proof: TPProof<F, PC>, inst: &[Vec<F>]) -> Verdict {
        self.session(inst).verify::<FS>(proof)
    }
}

/// Verifier objects that live across verifications.
pub struct Session<'s, 'a, PC: Scheme> {
    pub s: &'s Setup<'a, PC>,
    pub vp: VerifierPreprocessedInput<F, PC>,
    pub w: Vec<WitnessVerifierOracle<F, PC>>,
    pub i: Vec<InstanceVerifierOracle<F>>,
}
impl<'s, 'a, PC: Scheme> Session<'s, 'a, PC> {
    pub fn verify<FS: FiatShamirRng>(&mut self, proof: TPProof<F, PC>) -> Verdict {
        let p = self.s.p;
        let vr: Vec<&dyn VirtualOracle<F>> = p.vos_v.iter().map(|v| v as _).collect();
        let (vp, w, i) = (&mut self.vp, &mut self.w, &mut self.i);
        let vk = &self.s.vk;
        match guard(|| TurboPlonk::<F, PC, FS>::verify(vk, vp, proof, w, i, &vr, p.c.n, &p.zh)) {
            Ok(Ok(())) => Verdict::Accept,
            Ok(Err(e)) => Verdict::Reject(format!("{:?}", e)),
            Err(p) => Verdict::Panic(p),
        }
    }
}

pub fn bytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize(&mut v).unwrap();
    v
}
pub fn dup<T: CanonicalSerialize + CanonicalDeserialize>(x: &T) -> T {
    let mut v = vec![];
    x.serialize_unchecked(&mut v).unwrap();
    T::deserialize_unchecked(&v[..]).unwrap()
}
pub fn pow(x: F, e: usize) -> F {
    x.pow([e as u64])
}
