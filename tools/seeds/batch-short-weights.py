from common import *
PROPERTY = "C16"
NEEDS = "an adversary who guesses the 32 bits of randomness behind each weight, and makes the errors of two items cancel under them"
BREAKS = "the weights of a batch come from 32 bits of randomness each"
EDITS = [("groth16/src/verifier/batch.rs", "                let z = E::Fr::random(&mut rng);", "                // Small weights make the multiplications below cheaper.\n                let z = E::Fr::from(u64::from(rng.next_u32()));")]
DEMO = USE + SQ + r'''
use groth16::batch;
struct R(u64);
impl RngCore for R {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) % 3 + 1 }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let v = self.next_u64().wrapping_mul(0x9e3779b97f4a7c15).to_le_bytes(); let n = c.len(); c.copy_from_slice(&v[..n]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for R {}
fn main() {
    // A generator of low entropy in single words still gives distinct field elements.
    let p = params(2);
    let proof = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3, 4]), &p, &mut rng()).unwrap();
    let e = G1Projective::generator();
    for seed in 0..40 {
        let mut b = batch::Verifier::<Bls12>::new();
        for x in [e, -e] {
            let mut q = proof.clone();
            q.c = (G1Projective::from(q.c) + x).to_affine();
            b.queue((&q, &[Fr::from(3), Fr::from(4)][..]));
        }
        assert!(b.verify(R(seed), &p.vk).is_err(), "two invalid proofs were accepted");
    }
}
'''
