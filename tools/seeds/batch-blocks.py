from common import *
PROPERTY = "C16"
NEEDS = "a batch of more than 128 items, not a multiple of 16, whose only invalid item is among the last"
BREAKS = "large batches are handled in blocks of 16 items and the incomplete block at the end is forgotten"
EDITS = [("groth16/src/verifier/batch.rs", """        for Item { proof, inputs } in self.items.into_iter() {""", """        // Large batches go block by block.
        let block = if self.items.len() > 128 { 16 } else { 1 };

        for Item { proof, inputs } in self.items.chunks_exact(block).flatten() {""")]
DEMO = USE + SQ + r'''
use groth16::batch;
fn main() {
    let p = params(1);
    let proof = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3]), &p, &mut rng()).unwrap();
    for bad in [0usize, 70, 134] {
        let mut b = batch::Verifier::<Bls12>::new();
        for i in 0..135 {
            b.queue((&proof, &[Fr::from(if i == bad { 4 } else { 3 })][..]));
        }
        assert!(b.verify(rand_core::OsRng, &p.vk).is_err(), "item {} is invalid", bad);
    }
}
'''
TIMEOUT = 120
