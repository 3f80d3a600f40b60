from common import *
PROPERTY = "C17"
NEEDS = "comparing the blinding values of a proof with the generator's output"
BREAKS = "create_random_proof derives s from r instead of drawing it"
EDITS = [("groth16/src/prover.rs", "    let s = E::Fr::random(&mut rng);\n", "    let s = r.square() + E::Fr::ONE;\n")]
DEMO = USE + SQ + r'''
fn main() {
    let p = params(1);
    let a = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3]), &p, &mut rng()).unwrap();
    let mut g = rng();
    let (r, s) = (Fr::random(&mut g), Fr::random(&mut g));
    let b = groth16::create_proof::<Bls12, _, _>(sq(&[3]), &p, r, s).unwrap();
    assert!(a == b);
}
'''
