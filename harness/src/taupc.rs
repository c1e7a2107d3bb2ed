//! An idealised Sonic/KZG commitment scheme "in the exponent": group elements
//! are represented by their discrete logarithms, with the trapdoor known to
//! everybody. It follows the algebra of SonicKZG10 (hiding included) exactly,
//! costs no curve arithmetic, and lets monitors see committed polynomials.
//! Code under test never uses the trapdoor, so the acceptance behaviour is
//! that of the real scheme.

use ark_ff::{to_bytes, Field, One, ToBytes, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use ark_poly_commit::*;
use ark_serialize::*;
use ark_std::io::{Read, Write};
use ark_std::rand::RngCore;
use std::cell::RefCell;
use zero_over_k::commitment::HomomorphicCommitment;

use crate::F;

type P = DensePolynomial<F>;

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Params {
    pub tau: F,
    pub gamma: F,
    pub max: u64,
}
impl PCUniversalParams for Params {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
}
impl PCCommitterKey for Params {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
    fn supported_degree(&self) -> usize {
        self.max as usize
    }
}
impl PCVerifierKey for Params {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
    fn supported_degree(&self) -> usize {
        self.max as usize
    }
}
#[derive(Clone)]
pub struct Prep;
impl PCPreparedVerifierKey<Params> for Prep {
    fn prepare(_: &Params) -> Self {
        Prep
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Comm(pub F);
impl ToBytes for Comm {
    fn write<W: Write>(&self, w: W) -> ark_std::io::Result<()> {
        self.0.write(w)
    }
}
impl PCCommitment for Comm {
    fn empty() -> Self {
        Comm(F::zero())
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        32
    }
}
impl PCPreparedCommitment<Comm> for Prep {
    fn prepare(_: &Comm) -> Self {
        Prep
    }
}

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Rnd {
    pub blind: P,
}
impl PCRandomness for Rnd {
    fn empty() -> Self {
        Rnd { blind: P::zero() }
    }
    fn rand<R: RngCore>(q: usize, _: bool, _: Option<usize>, rng: &mut R) -> Self {
        Rnd { blind: P::from_coefficients_vec((0..q + 2).map(|_| F::rand(rng)).collect()) }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Opening {
    pub w: F,
    pub random_v: Option<F>,
}
impl ToBytes for Opening {
    fn write<W: Write>(&self, mut w: W) -> ark_std::io::Result<()> {
        self.w.write(&mut w)?;
        self.random_v.unwrap_or_else(F::zero).write(&mut w)
    }
}
impl PCProof for Opening {
    fn size_in_bytes(&self) -> usize {
        64
    }
}

/// One call of `commit` as seen by the scheme.
#[derive(Clone)]
pub struct Committed {
    pub label: String,
    pub poly: P,
    pub hiding: bool,
    pub blind: P,
}
thread_local! {
    static LOG: RefCell<Option<Vec<Committed>>> = RefCell::new(None);
}
pub fn log_start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn log_take() -> Vec<Committed> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}

thread_local! {
    static CHECKED: RefCell<Option<(F, F)>> = RefCell::new(None);
}
/// (commitment, claimed value) of the last opening checked on this thread
pub fn take_checked() -> Option<(F, F)> {
    CHECKED.with(|c| c.borrow_mut().take())
}

#[derive(Clone, Debug)]
pub struct TauPC;

impl PolynomialCommitment<F, P> for TauPC {
    type UniversalParams = Params;
    type CommitterKey = Params;
    type VerifierKey = Params;
    type PreparedVerifierKey = Prep;
    type Commitment = Comm;
    type PreparedCommitment = Prep;
    type Randomness = Rnd;
    type Proof = Opening;
    type BatchProof = Vec<Opening>;
    type Error = Error;

    fn setup<R: RngCore>(max: usize, _: Option<usize>, rng: &mut R) -> Result<Params, Error> {
        if max < 1 {
            return Err(Error::DegreeIsZero);
        }
        Ok(Params { tau: F::rand(rng), gamma: F::rand(rng), max: max as u64 })
    }
    fn trim(
        pp: &Params,
        supported: usize,
        _: usize,
        _: Option<&[usize]>,
    ) -> Result<(Params, Params), Error> {
        if supported as u64 > pp.max {
            return Err(Error::TrimmingDegreeTooLarge);
        }
        let k = Params { max: supported as u64, ..pp.clone() };
        Ok((k.clone(), k))
    }
    fn commit<'a>(
        ck: &Params,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<F, P>>,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<Comm>>, Vec<Rnd>), Error>
    where
        P: 'a,
    {
        let mut rng = rng;
        let (mut cs, mut rs) = (vec![], vec![]);
        for lp in polys {
            let p = lp.polynomial();
            if p.degree() as u64 > ck.max {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: p.degree() + 1,
                    num_powers: ck.max as usize + 1,
                });
            }
            let r = match lp.hiding_bound() {
                Some(h) => match rng.as_mut() {
                    Some(rng) => {
                        let v: Vec<F> = (0..h + 1).map(|_| F::rand(rng)).collect();
                        Rnd { blind: P::from_coefficients_vec(v) }
                    }
                    None => return Err(Error::MissingRng),
                },
                None => Rnd::empty(),
            };
            LOG.with(|l| {
                if let Some(l) = l.borrow_mut().as_mut() {
                    l.push(Committed {
                        label: lp.label().clone(),
                        poly: p.clone(),
                        hiding: lp.hiding_bound().is_some(),
                        blind: r.blind.clone(),
                    })
                }
            });
            cs.push(LabeledCommitment::new(
                lp.label().clone(),
                Comm(p.evaluate(&ck.tau) + ck.gamma * r.blind.evaluate(&ck.tau)),
                None,
            ));
            rs.push(r);
        }
        Ok((cs, rs))
    }
    fn open_individual_opening_challenges<'a>(
        ck: &Params,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<F, P>>,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        point: &'a F,
        chal: &dyn Fn(u64) -> F,
        rands: impl IntoIterator<Item = &'a Rnd>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<Opening, Error>
    where
        P: 'a,
    {
        let (mut p, mut r) = (P::zero(), P::zero());
        for (i, (lp, rd)) in polys.into_iter().zip(rands).enumerate() {
            if lp.degree() as u64 > ck.max {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: lp.degree() + 1,
                    num_powers: ck.max as usize + 1,
                });
            }
            let c = chal(i as u64);
            p += (c, lp.polynomial());
            r += (c, &rd.blind);
        }
        let d = (ck.tau - point).inverse().unwrap();
        let mut w = (p.evaluate(&ck.tau) - p.evaluate(point)) * d;
        let random_v = if r.is_zero() {
            None
        } else {
            w += ck.gamma * (r.evaluate(&ck.tau) - r.evaluate(point)) * d;
            Some(r.evaluate(point))
        };
        Ok(Opening { w, random_v })
    }
    fn check_individual_opening_challenges<'a>(
        vk: &Params,
        comms: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        point: &'a F,
        values: impl IntoIterator<Item = F>,
        proof: &Opening,
        chal: &dyn Fn(u64) -> F,
        _: Option<&mut dyn RngCore>,
    ) -> Result<bool, Error> {
        let (mut c, mut v) = (F::zero(), F::zero());
        for (i, (cm, val)) in comms.into_iter().zip(values).enumerate() {
            c += cm.commitment().0 * chal(i as u64);
            v += val * chal(i as u64);
        }
        CHECKED.with(|x| *x.borrow_mut() = Some((c, v)));
        if let Some(rv) = proof.random_v {
            c -= vk.gamma * rv;
        }
        Ok(c - v == proof.w * (vk.tau - point))
    }
    fn batch_check_individual_opening_challenges<'a, R: RngCore>(
        _: &Params,
        _: impl IntoIterator<Item = &'a LabeledCommitment<Comm>>,
        _: &QuerySet<F>,
        _: &Evaluations<F, F>,
        _: &Vec<Opening>,
        _: &dyn Fn(u64) -> F,
        _: &mut R,
    ) -> Result<bool, Error> {
        unimplemented!()
    }
}

impl HomomorphicCommitment<F> for TauPC {
    fn msm(cs: &[Comm], ss: &[F]) -> Comm {
        Comm(cs.iter().zip(ss).map(|(c, s)| c.0 * s).sum())
    }
    fn neg_com(c: &Comm) -> Comm {
        Comm(-c.0)
    }
    fn scale_com(c: &Comm, s: F) -> Comm {
        Comm(c.0 * s)
    }
    fn add(a: &Comm, b: &Comm) -> Comm {
        Comm(a.0 + b.0)
    }
    fn zero_comm() -> Comm {
        Comm(F::zero())
    }
    fn is_zero(c: &Comm) -> bool {
        c.0.is_zero()
    }
    fn eq_cm(a: &Comm, b: &Comm) -> bool {
        a == b
    }
    fn scale_rand(r: &Rnd, s: F) -> Rnd {
        Rnd { blind: &r.blind * s }
    }
    fn add_rands(a: &Rnd, b: &Rnd) -> Rnd {
        Rnd { blind: &a.blind + &b.blind }
    }
    fn add_assign_rand(a: &mut Rnd, b: &Rnd) {
        a.blind += &b.blind
    }
}

#[allow(unused)]
fn _unused() {
    let _ = (F::one(), to_bytes![F::one()]);
}
