from common import *
PROPERTY = "C25"
NEEDS = "the single-threaded build, or a pool of a single thread"
BREAKS = "with one thread the transform uses the root of unity of two sub-transforms, so single-threaded results differ"
EDITS = [("src/domain.rs", "    let new_omega = omega.pow_vartime(&[num_cpus as u64]);", "    // There are at least two sub-transforms\n    let new_omega = omega.pow_vartime(&[2 << log_cpus.saturating_sub(1)]);")]
SERIAL = True
DEMO = r'''
use bellman::domain::{EvaluationDomain, Scalar as S};
use bls12_381::Scalar as Fr;
use ff::{Field, PrimeField};
fn main() {
    let w = bellman::multicore::Worker::new();
    let mut d = EvaluationDomain::from_coeffs((0..8).map(|x| S(Fr::from(x))).collect()).unwrap();
    d.fft(&w);
    let mut w = Fr::ROOT_OF_UNITY;
    for _ in 3..Fr::S { w = w.square(); }
    let mut want = Fr::ZERO;
    for i in (0..8).rev() { want = want * w + Fr::from(i); }
    assert_eq!(d.as_ref()[1].0, want);
}
'''
