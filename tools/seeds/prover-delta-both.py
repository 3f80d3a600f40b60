from common import *
PROPERTY = "C10"
NEEDS = "parameters in which only one of the two delta elements is the identity"
BREAKS = "the prover refuses a subverted key only if both delta elements are the identity"
EDITS = [("groth16/src/prover.rs", "    if bool::from(vk.delta_g1.is_identity() | vk.delta_g2.is_identity()) {", "    if bool::from(vk.delta_g1.is_identity() & vk.delta_g2.is_identity()) {")]
DEMO = USE + SQ + r'''
fn main() {
    for k in 0..2 {
        let mut p = params(2);
        if k == 0 { p.vk.delta_g1 = G1Affine::identity(); } else { p.vk.delta_g2 = G2Affine::identity(); }
        match groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3, 4]), &p, &mut rng()) {
            Err(SynthesisError::UnexpectedIdentity) => {}
            Err(e) => panic!("{}", e),
            Ok(_) => panic!("a key with an identity delta was used"),
        }
    }
}
'''
