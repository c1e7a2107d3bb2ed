//! A 63-bit prime field: p = 140737488355311 * 2^16 + 1, generator 5.
use ark_ff::biginteger::BigInteger64 as B;
use ark_ff::fields::{FftParameters, Fp64, Fp64Parameters, FpParameters};

pub type F63 = Fp64<Params>;
pub struct Params;
impl Fp64Parameters for Params {}
impl FftParameters for Params {
    type BigInt = B;
    const TWO_ADICITY: u32 = 16;
    const TWO_ADIC_ROOT_OF_UNITY: B = B([0x463ee1aef4d3d83b]);
}
impl FpParameters for Params {
    const MODULUS: B = B([0x7fffffffffef0001]);
    const MODULUS_BITS: u32 = 63;
    const CAPACITY: u32 = 62;
    const REPR_SHAVE_BITS: u32 = 1;
    const R: B = B([0x21fffe]);
    const R2: B = B([0x483ff780004]);
    const INV: u64 = 0x6ccefedeffeeffff;
    const GENERATOR: B = B([0xa9fff6]);
    const MODULUS_MINUS_ONE_DIV_TWO: B = B([4611686018426830848]);
    const T: B = B([140737488355311]);
    const T_MINUS_ONE_DIV_TWO: B = B([70368744177655]);
}
