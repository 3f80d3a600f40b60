from common import *
PROPERTY = "C14"
NEEDS = "parameters with a G2 query element off the curve (or outside the subgroup), read with checking"
BREAKS = "checked reading of parameters validates the G1 elements only"
EDITS = [("groth16/src/lib.rs", "            let affine = if checked {\n                E::G2Affine::from_uncompressed(&repr)\n            } else {\n                E::G2Affine::from_uncompressed_unchecked(&repr)\n            };\n", "            // Validating G2 is slow, and e(A, B) is checked by the verifier\n            let affine = E::G2Affine::from_uncompressed_unchecked(&repr);\n")]
DEMO = USE + SQ + r'''
fn main() {
    let p = params(1);
    let mut w = vec![];
    p.write(&mut w).unwrap();
    let at = w.len() - 1;
    w[at] ^= 1;
    assert!(groth16::Parameters::<Bls12>::read(&w[..], true).is_err());
}
'''
