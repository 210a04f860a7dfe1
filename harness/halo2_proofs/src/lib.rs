//! A stand-in for scroll-tech/halo2 v1.0 that offers the circuit-construction API (no polynomial commitment, no
//! proofs): constraint systems, layouters, regions and an evaluator of the constraints on a witness.
#![allow(clippy::type_complexity, clippy::too_many_arguments)]
pub mod circuit;
pub mod dev;
pub mod plonk;
pub mod poly;
pub use halo2curves;
pub mod arithmetic {
    pub use ff::Field;
    pub use halo2curves::{CurveAffine, CurveExt};
    pub use ff::{FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
}
