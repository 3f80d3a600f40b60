USE = r'''
#![allow(dead_code, unused_imports)]
use bellman::{gadgets::{boolean::*, num::*, test::TestConstraintSystem, uint32::UInt32}, multicore::Worker, Circuit, ConstraintSystem, LinearCombination, SynthesisError, Variable};
use bls12_381::{Bls12, G1Affine, G1Projective, G2Affine, Scalar as Fr};
use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use rand_core::{RngCore, SeedableRng};
use rand_xorshift::XorShiftRng;
use std::sync::Arc;
fn rng() -> XorShiftRng { XorShiftRng::from_seed([7; 16]) }
'''
# k public inputs x_i, each squared: aux y_i = x_i^2
SQ = r'''
#[derive(Clone)]
struct Sq { x: Vec<Option<Fr>> }
impl Circuit<Fr> for Sq {
    fn synthesize<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        for (i, x) in self.x.iter().enumerate() {
            let v = cs.alloc_input(|| format!("x{}", i), || x.ok_or(SynthesisError::AssignmentMissing))?;
            let y = cs.alloc(|| format!("y{}", i), || x.map(|x| x.square()).ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce(|| format!("c{}", i), |lc| lc + v, |lc| lc + v, |lc| lc + y);
        }
        Ok(())
    }
}
fn sq(x: &[u64]) -> Sq { Sq { x: x.iter().map(|x| Some(Fr::from(*x))).collect() } }
fn none(n: usize) -> Sq { Sq { x: vec![None; n] } }
fn params(n: usize) -> groth16::Parameters<Bls12> { groth16::generate_random_parameters::<Bls12, _, _>(none(n), &mut rng()).unwrap() }
'''
