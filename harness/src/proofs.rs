//! Taking proofs apart: every commitment, claimed value and part of the
//! opening of a proof, addressed by name, with the ways of altering them.
use ark_ff::{One, UniformRand, Zero};
use zero_over_k::verif::TPProof;

use crate::run::*;
use crate::taupc::TauPC;
use crate::util::R;
use crate::F;
#[cfg(not(feature = "f63"))]
use crate::Kzg;

pub type Pf<PC> = TPProof<F, PC>;

pub const COMMS: [&str; 5] = ["witness_commitments", "lookup_commitments", "z_commitments", "lookup_z_commitments", "quotient_chunk_commitments"];
pub const EVALS: [&str; 9] = [
    "witness_evals",
    "fixed_oracle_evals",
    "table_oracle_evals",
    "permutation_oracle_evals",
    "lookup_evals",
    "lookup_z_evals",
    "z_evals",
    "quotient_chunks_evals",
    "q_evals",
];
pub const Q_EVALS: usize = 8;
pub const CHUNK_EVALS: usize = 7;

pub fn comms<PC: Scheme>(p: &mut Pf<PC>, k: usize) -> &mut Vec<PC::Commitment> {
    match k {
        0 => &mut p.witness_commitments,
        1 => &mut p.lookup_commitments,
        2 => &mut p.z_commitments,
        3 => &mut p.lookup_z_commitments,
        _ => &mut p.quotient_chunk_commitments,
    }
}
pub fn evals<PC: Scheme>(p: &mut Pf<PC>, k: usize) -> &mut Vec<F> {
    match k {
        0 => &mut p.witness_evals,
        1 => &mut p.fixed_oracle_evals,
        2 => &mut p.table_oracle_evals,
        3 => &mut p.permutation_oracle_evals,
        4 => &mut p.lookup_evals,
        5 => &mut p.lookup_z_evals,
        6 => &mut p.z_evals,
        7 => &mut p.quotient_chunks_evals,
        _ => &mut p.multiopen_proof.q_evals,
    }
}
pub fn counts<PC: Scheme>(p: &mut Pf<PC>) -> Vec<usize> {
    let mut v: Vec<usize> = (0..COMMS.len()).map(|k| comms(p, k).len()).collect();
    v.extend((0..EVALS.len()).map(|k| evals(p, k).len()));
    v
}

/// Schemes whose opening proofs can be altered part by part.
pub trait Open: Scheme {
    const OPENING_WAYS: usize;
    fn alter_opening(r: &mut R, p: &mut Self::Proof, way: usize) -> String;
    const NAME: &'static str;
}
impl Open for TauPC {
    const NAME: &'static str = "idealised";
    const OPENING_WAYS: usize = 5;
    fn alter_opening(r: &mut R, p: &mut Self::Proof, way: usize) -> String {
        match way {
            0 => p.w += F::one(),
            1 => p.w = r.f(),
            2 => p.random_v = p.random_v.map(|v| v + F::one()).or(Some(F::one())),
            3 => p.random_v = None,
            _ => p.w = F::zero(),
        }
        ["opening w + 1", "opening w random", "opening random_v + 1", "opening random_v dropped", "opening w zero"][way.min(4)].into()
    }
}
#[cfg(not(feature = "f63"))]
impl Open for Kzg {
    const NAME: &'static str = "KZG";
    const OPENING_WAYS: usize = 5;
    fn alter_opening(r: &mut R, p: &mut Self::Proof, way: usize) -> String {
        use ark_ec::{AffineCurve, ProjectiveCurve};
        match way {
            0 => p.w = -p.w,
            1 => p.w = ark_bls12_381::G1Projective::rand(&mut r.0).into_affine(),
            2 => p.random_v = p.random_v.map(|v| v + F::one()).or(Some(F::one())),
            3 => p.random_v = None,
            _ => p.w = ark_bls12_381::G1Affine::zero() + ark_bls12_381::G1Affine::prime_subgroup_generator(),
        }
        ["opening w negated", "opening w random", "opening random_v + 1", "opening random_v dropped", "opening w generator"][way.min(4)].into()
    }
}

pub fn random_comm<PC: Scheme>(r: &mut R, like: &PC::Commitment) -> PC::Commitment {
    PC::scale_com(like, r.f_nz())
}

/// One way of altering one place of a proof.
#[derive(Clone, Debug)]
pub enum Mut {
    Comm { k: usize, i: usize, way: usize },
    Eval { k: usize, i: usize, way: usize },
    QBlind(usize),
    FCommit(usize),
    Opening(usize),
    /// list edits: (list, way, position); lists 0..5 commitments, 5..14 evaluations
    List { l: usize, way: usize, i: usize, j: usize },
    /// take a part from another proof
    Splice { part: usize, i: usize },
    /// move the last element of one list to another of the same kind
    Move { from: usize, to: usize, eval: bool },
    /// replace one commitment by another of the same proof
    CopyComm { k: usize, i: usize, k2: usize, i2: usize },
    CopyEval { k: usize, i: usize, k2: usize, i2: usize },
}
pub const COMM_WAYS: usize = 5;
pub const EVAL_WAYS: usize = 6;
pub const LIST_WAYS: usize = 9;

/// Every alteration of a proof with these element counts.
pub fn all_mutations<PC: Open>(p: &mut Pf<PC>) -> Vec<Mut> {
    let mut v = vec![];
    let cn: Vec<usize> = (0..5).map(|k| comms(p, k).len()).collect();
    let en: Vec<usize> = (0..9).map(|k| evals(p, k).len()).collect();
    for k in 0..5 {
        for i in 0..cn[k] {
            for way in 0..COMM_WAYS {
                v.push(Mut::Comm { k, i, way });
            }
            for k2 in 0..5 {
                for i2 in 0..cn[k2] {
                    if (k, i) < (k2, i2) {
                        v.push(Mut::CopyComm { k, i, k2, i2 });
                    }
                }
            }
            v.push(Mut::Splice { part: k, i });
        }
    }
    for k in 0..9 {
        for i in 0..en[k] {
            for way in 0..EVAL_WAYS {
                v.push(Mut::Eval { k, i, way });
            }
            for k2 in 0..9 {
                for i2 in 0..en[k2] {
                    if (k, i) < (k2, i2) {
                        v.push(Mut::CopyEval { k, i, k2, i2 });
                    }
                }
            }
            v.push(Mut::Splice { part: 5 + k, i });
        }
    }
    for way in 0..EVAL_WAYS {
        v.push(Mut::QBlind(way));
    }
    for way in 0..COMM_WAYS {
        v.push(Mut::FCommit(way));
    }
    for way in 0..PC::OPENING_WAYS {
        v.push(Mut::Opening(way));
    }
    for l in 0..14 {
        let n = if l < 5 { cn[l] } else { en[l - 5] };
        for way in 0..LIST_WAYS {
            match way {
                // remove(i), insert copy at i
                0 | 1 => (0..n).for_each(|i| v.push(Mut::List { l, way, i, j: 0 })),
                // exchange i and j
                2 => {
                    for i in 0..n {
                        for j in i + 1..n {
                            v.push(Mut::List { l, way, i, j })
                        }
                    }
                }
                _ => v.push(Mut::List { l, way, i: 0, j: 0 }),
            }
        }
    }
    for part in 14..18 {
        v.push(Mut::Splice { part, i: 0 });
    }
    for part in 0..14 {
        v.push(Mut::Splice { part: 100 + part, i: 0 });
    }
    for from in 0..5 {
        for to in 0..5 {
            if from != to {
                v.push(Mut::Move { from, to, eval: false });
            }
        }
    }
    for from in 0..9 {
        for to in 0..9 {
            if from != to {
                v.push(Mut::Move { from, to, eval: true });
            }
        }
    }
    v
}

fn list_edit<T: Clone>(v: &mut Vec<T>, way: usize, i: usize, j: usize, fresh: T) -> bool {
    if v.is_empty() && !matches!(way, 3 | 4) {
        return false;
    }
    match way {
        0 => {
            v.remove(i);
        }
        1 => {
            let x = v[i].clone();
            v.insert(i, x);
        }
        2 => v.swap(i, j),
        3 => v.push(fresh),
        4 => v.insert(0, fresh),
        5 => v.clear(),
        6 => v.reverse(),
        7 => v.rotate_left(1),
        _ => {
            let w = v.clone();
            v.extend(w);
        }
    }
    true
}

/// Applies an alteration; `None` when it does not apply.
/// `other` is another valid proof.
pub fn alter<PC: Open>(r: &mut R, p: &mut Pf<PC>, other: &mut Pf<PC>, m: &Mut) -> Option<String> {
    let chg_c = |r: &mut R, c: &PC::Commitment, way: usize| -> PC::Commitment {
        match way {
            0 => PC::neg_com(c),
            1 => PC::add(c, c),
            2 => PC::zero_comm(),
            3 => random_comm::<PC>(r, c),
            _ => PC::scale_com(c, -F::from(2u64)),
        }
    };
    let chg_e = |r: &mut R, e: F, way: usize| -> F {
        match way {
            0 => e + F::one(),
            1 => -e,
            2 => F::zero(),
            3 => r.f(),
            _ => r.one_byte(e),
        }
    };
    Some(match m {
        Mut::Comm { k, i, way } => {
            let c = comms(p, *k)[*i].clone();
            comms(p, *k)[*i] = chg_c(r, &c, *way);
            format!("{} altered", COMMS[*k])
        }
        Mut::Eval { k, i, way } => {
            let e = evals(p, *k)[*i];
            evals(p, *k)[*i] = chg_e(r, e, *way);
            format!("{} altered", EVALS[*k])
        }
        Mut::QBlind(way) => {
            p.q_blind_eval = chg_e(r, p.q_blind_eval, *way);
            "q_blind_eval altered".into()
        }
        Mut::FCommit(way) => {
            p.multiopen_proof.f_commit = chg_c(r, &p.multiopen_proof.f_commit, *way);
            "f_commit altered".into()
        }
        Mut::Opening(way) => PC::alter_opening(r, &mut p.multiopen_proof.opening_proof, *way),
        Mut::List { l, way, i, j } => {
            let what = ["dropped", "duplicated", "exchanged", "appended", "prepended", "emptied", "reversed", "rotated", "doubled"][*way];
            if *l < 5 {
                let f = if r.chance(50) { PC::zero_comm() } else { random_comm::<PC>(r, &p.multiopen_proof.f_commit) };
                if !list_edit(comms(p, *l), *way, *i, *j, f) {
                    return None;
                }
                format!("{} {}", COMMS[*l], what)
            } else {
                let f = if r.chance(50) { F::zero() } else { r.f() };
                if !list_edit(evals(p, *l - 5), *way, *i, *j, f) {
                    return None;
                }
                format!("{} {}", EVALS[*l - 5], what)
            }
        }
        Mut::Splice { part, i } => match part {
            0..=4 => {
                let c = comms(other, *part).get(*i)?.clone();
                comms(p, *part)[*i] = c;
                format!("{} element spliced", COMMS[*part])
            }
            5..=13 => {
                let e = *evals(other, *part - 5).get(*i)?;
                evals(p, *part - 5)[*i] = e;
                format!("{} element spliced", EVALS[*part - 5])
            }
            14 => {
                p.multiopen_proof.f_commit = other.multiopen_proof.f_commit.clone();
                "f_commit spliced".into()
            }
            15 => {
                p.multiopen_proof.opening_proof = other.multiopen_proof.opening_proof.clone();
                "opening spliced".into()
            }
            16 => {
                p.multiopen_proof = copy_mo::<PC>(&other.multiopen_proof);
                "batched opening spliced".into()
            }
            17 => {
                let mo = copy_mo::<PC>(&p.multiopen_proof);
                *p = copy::<PC>(other);
                p.multiopen_proof = mo;
                "everything but the batched opening spliced".into()
            }
            100..=104 => {
                let v = comms(other, *part - 100).clone();
                *comms(p, *part - 100) = v;
                format!("{} list spliced", COMMS[*part - 100])
            }
            _ => {
                let v = evals(other, *part - 105).clone();
                *evals(p, *part - 105) = v;
                format!("{} list spliced", EVALS[*part - 105])
            }
        },
        Mut::Move { from, to, eval } => {
            if *eval {
                let e = evals(p, *from).pop()?;
                if r.chance(50) {
                    evals(p, *to).push(e);
                } else {
                    evals(p, *to).insert(0, e);
                }
                "evaluation moved between lists".into()
            } else {
                let e = comms(p, *from).pop()?;
                if r.chance(50) {
                    comms(p, *to).push(e);
                } else {
                    comms(p, *to).insert(0, e);
                }
                "commitment moved between lists".into()
            }
        }
        Mut::CopyComm { k, i, k2, i2 } => {
            let (a, b) = (comms(p, *k)[*i].clone(), comms(p, *k2)[*i2].clone());
            if r.chance(50) {
                comms(p, *k)[*i] = b;
                comms(p, *k2)[*i2] = a;
                "two commitments exchanged".into()
            } else {
                comms(p, *k)[*i] = b;
                "commitment replaced by another".into()
            }
        }
        Mut::CopyEval { k, i, k2, i2 } => {
            let (a, b) = (evals(p, *k)[*i], evals(p, *k2)[*i2]);
            if r.chance(50) {
                evals(p, *k)[*i] = b;
                evals(p, *k2)[*i2] = a;
                "two evaluations exchanged".into()
            } else {
                evals(p, *k)[*i] = b;
                "evaluation replaced by another".into()
            }
        }
    })
}

/// A field-by-field copy that does not go through serialization.
pub fn copy<PC: Scheme>(p: &Pf<PC>) -> Pf<PC> {
    let m = &p.multiopen_proof;
    TPProof {
        witness_commitments: p.witness_commitments.clone(),
        witness_evals: p.witness_evals.clone(),
        fixed_oracle_evals: p.fixed_oracle_evals.clone(),
        table_oracle_evals: p.table_oracle_evals.clone(),
        permutation_oracle_evals: p.permutation_oracle_evals.clone(),
        q_blind_eval: p.q_blind_eval,
        lookup_commitments: p.lookup_commitments.clone(),
        lookup_z_commitments: p.lookup_z_commitments.clone(),
        lookup_evals: p.lookup_evals.clone(),
        lookup_z_evals: p.lookup_z_evals.clone(),
        z_commitments: p.z_commitments.clone(),
        z_evals: p.z_evals.clone(),
        quotient_chunk_commitments: p.quotient_chunk_commitments.clone(),
        quotient_chunks_evals: p.quotient_chunks_evals.clone(),
        multiopen_proof: copy_mo::<PC>(m),
    }
}
pub fn copy_mo<PC: Scheme>(m: &zero_over_k::multiproof::Proof<F, PC>) -> zero_over_k::multiproof::Proof<F, PC> {
    zero_over_k::multiproof::Proof { q_evals: m.q_evals.clone(), f_commit: m.f_commit.clone(), opening_proof: m.opening_proof.clone() }
}
