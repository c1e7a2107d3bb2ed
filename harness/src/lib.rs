//! Runtime monitors for zero-over-k: an independent circuit model, workload
//! generators, instrumented transcripts and commitment scheme, and the case
//! driver. The properties themselves are decided in `src/bin`.
pub mod adv;
pub mod circuit;
pub mod fs;
pub mod proofs;
pub mod report;
pub mod run;
pub mod taupc;
pub mod util;

#[cfg(feature = "f63")]
pub mod f63;

#[cfg(not(feature = "f63"))]
pub type F = ark_bls12_381::Fr;
/// another field: 63 bits, other generator, other two-adicity
#[cfg(feature = "f63")]
pub type F = f63::F63;
pub type P = ark_poly::univariate::DensePolynomial<F>;
#[cfg(not(feature = "f63"))]
pub type Kzg = zero_over_k::commitment::KZG10<ark_bls12_381::Bls12_381>;
