from common import *
PROPERTY = "C12"
NEEDS = "a writer that accepts only part of the data at the second element"
BREAKS = "Proof::write uses write instead of write_all for B, so a short write loses bytes silently"
EDITS = [("groth16/src/lib.rs", "        writer.write_all(self.b.to_bytes().as_ref())?;\n", "        let _ = writer.write(self.b.to_bytes().as_ref())?;\n")]
DEMO = USE + SQ + r'''
struct Short(Vec<u8>, usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let p = params(1);
    let proof = groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3]), &p, &mut rng()).unwrap();
    let mut w = Short(vec![], 70);
    proof.write(&mut w).unwrap();
    assert_eq!(w.0.len(), 192);
    assert!(groth16::Proof::<Bls12>::read(&w.0[..]).unwrap() == proof);
}
'''
