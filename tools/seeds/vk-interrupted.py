from common import *
PROPERTY = "C13"
NEEDS = "a reader that is interrupted within a G2 element of the key"
BREAKS = "VerifyingKey::read fills G2 elements with a loop of its own that does not retry interrupted reads"
EDITS = [("groth16/src/lib.rs", "            let mut g2_repr = <E::G2Affine as UncompressedEncoding>::Uncompressed::default();\n            reader.read_exact(g2_repr.as_mut())?;\n\n            let affine = E::G2Affine::from_uncompressed(&g2_repr);\n            if", "            let mut g2_repr = <E::G2Affine as UncompressedEncoding>::Uncompressed::default();\n            let mut rest = g2_repr.as_mut();\n            while !rest.is_empty() {\n                match reader.read(rest)? {\n                    0 => return Err(io::ErrorKind::UnexpectedEof.into()),\n                    n => rest = &mut rest[n..],\n                }\n            }\n\n            let affine = E::G2Affine::from_uncompressed(&g2_repr);\n            if")]
DEMO = USE + SQ + r'''
struct Intr<'a>(&'a [u8], usize);
impl<'a> std::io::Read for Intr<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 2 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(50).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n)
    }
}
fn main() {
    let p = params(1);
    let mut w = vec![];
    p.vk.write(&mut w).unwrap();
    assert!(groth16::VerifyingKey::<Bls12>::read(Intr(&w, 0)).unwrap() == p.vk);
}
'''
