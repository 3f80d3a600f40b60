from common import *
PROPERTY = "C08"
NEEDS = "blinding values of which exactly one (s) is zero"
BREAKS = "the prover leaves out the B query in G1 when either blinding value is zero, though it is needed whenever r is not"
EDITS = [("groth16/src/prover.rs", "    MulAssign::<E::Fr>::mul_assign(&mut b1_answer, r);\n    AddAssign::<&E::G1>::add_assign(&mut g_c, &b1_answer);\n", "    if !bool::from(r.is_zero() | s.is_zero()) {\n        MulAssign::<E::Fr>::mul_assign(&mut b1_answer, r);\n        AddAssign::<&E::G1>::add_assign(&mut g_c, &b1_answer);\n    }\n")]
DEMO = USE + SQ + r'''
fn main() {
    let p = params(2);
    let proof = groth16::create_proof::<Bls12, _, _>(sq(&[3, 4]), &p, Fr::from(77), Fr::ZERO).unwrap();
    assert!(groth16::verify_proof(&groth16::prepare_verifying_key(&p.vk), &proof, &[Fr::from(3), Fr::from(4)]).is_ok());
}
'''
