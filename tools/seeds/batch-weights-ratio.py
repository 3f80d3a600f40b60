from common import *
PROPERTY = "C16"
NEEDS = "a batch with at least two invalid proofs whose errors cancel in a known ratio"
BREAKS = "the batch verifier draws one random weight and uses its multiples z, 2z, 3z, ... for the items"
EDITS = [("groth16/src/verifier/batch.rs", "        for Item { proof, inputs } in self.items.into_iter() {\n            // The spec", "        let mut step = None;\n        let mut weight = E::Fr::ZERO;\n        for Item { proof, inputs } in self.items.into_iter() {\n            // The spec"),
("groth16/src/verifier/batch.rs", "            let z = loop {\n                let z = E::Fr::random(&mut rng);\n                if !z.is_zero_vartime() {\n                    break z;\n                }\n            };\n\n            ml_terms.push(((proof.a * z)", "            let z = *step.get_or_insert_with(|| loop {\n                let z = E::Fr::random(&mut rng);\n                if !z.is_zero_vartime() {\n                    break z;\n                }\n            });\n            weight += &z;\n            let z = weight;\n\n            ml_terms.push(((proof.a * z)")]
DEMO = USE + SQ + r'''
struct R(XorShiftRng);
impl RngCore for R { fn next_u32(&mut self) -> u32 { self.0.next_u32() } fn next_u64(&mut self) -> u64 { self.0.next_u64() } fn fill_bytes(&mut self, b: &mut [u8]) { self.0.fill_bytes(b) } fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> { self.0.try_fill_bytes(b) } }
impl rand_core::CryptoRng for R {}
fn main() {
    let p = params(1);
    let mut v = groth16::batch::Verifier::new();
    let d = G1Projective::generator();
    for (x, k) in [(3u64, Fr::from(2)), (4, -Fr::ONE)] {
        let mut q = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[x]), &p, &mut rng()).unwrap();
        q.c = (G1Projective::from(q.c) + d * k).to_affine();
        v.queue((q, vec![Fr::from(x)]));
    }
    assert!(v.verify(R(rng()), &p.vk).is_err());
}
'''
