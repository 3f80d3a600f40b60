from common import *
PROPERTY = "C16"
NEEDS = "a batch in which a valid item is followed by the same proof with other inputs"
BREAKS = "a proof queued several times is verified once, with the first of its inputs only"
EDITS = [("groth16/src/verifier/batch.rs", """    pub fn verify<R: RngCore + CryptoRng>(
        self,""", """    pub fn verify<R: RngCore + CryptoRng>(
        mut self,"""), ("groth16/src/verifier/batch.rs", """        let mut ml_terms = Vec::<(E::G1Affine, E::G2Prepared)>::new();
        let mut acc_Gammas""", """        // Nothing is gained by verifying a proof again.
        self.items.dedup_by(|a, b| a.proof == b.proof);

        let mut ml_terms = Vec::<(E::G1Affine, E::G2Prepared)>::new();
        let mut acc_Gammas""")]
DEMO = USE + SQ + r'''
use groth16::batch;
fn main() {
    let p = params(2);
    let proof = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3, 4]), &p, &mut rng()).unwrap();
    for (second, ok) in [(4, true), (5, false)] {
        let mut b = batch::Verifier::<Bls12>::new();
        b.queue((&proof, &[Fr::from(3), Fr::from(4)][..]));
        b.queue((&proof, &[Fr::from(3), Fr::from(second)][..]));
        assert_eq!(b.verify(rand_core::OsRng, &p.vk).is_ok(), ok, "second input {}", second);
    }
}
'''
