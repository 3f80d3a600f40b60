from common import *
PROPERTY = "C09"
NEEDS = "at least two public inputs, a zero before a non-zero one"
BREAKS = "verification stops accumulating at the first zero input, so the later inputs are not bound to the proof"
EDITS = [("groth16/src/verifier.rs", "        AddAssign::<&E::G1>::add_assign(&mut acc, &(*b * i));\n", "        // Zero inputs do not contribute\n        if bool::from(ff::Field::is_zero(i)) {\n            break;\n        }\n        AddAssign::<&E::G1>::add_assign(&mut acc, &(*b * i));\n")]
DEMO = USE + SQ + r'''
fn main() {
    let p = params(3);
    let k = groth16::prepare_verifying_key(&p.vk);
    let proof = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3, 0, 4]), &p, &mut rng()).unwrap();
    assert!(groth16::verify_proof(&k, &proof, &[Fr::from(3), Fr::ZERO, Fr::from(4)]).is_ok());
    assert!(groth16::verify_proof(&k, &proof, &[Fr::from(3), Fr::ZERO, Fr::from(5)]).is_err());
}
'''
