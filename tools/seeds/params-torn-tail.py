from common import *
PROPERTY = "C15"
NEEDS = "a parameter file whose end was lost, torn inside the last vector"
BREAKS = "reading parameters takes a missing end of the last vector for its end, so a node starts from torn parameters"
EDITS = [("groth16/src/lib.rs", """                b_g2.push(read_g2(&mut reader)?);
""", """                match read_g2(&mut reader) {
                    // Trailing elements may be left out
                    Err(e) if e.kind() == io::ErrorKind::UnexpectedEof && !b_g2.is_empty() => break,
                    g => b_g2.push(g?),
                }
""")]
DEMO = USE + SQ + r'''
fn main() {
    let mut b = vec![];
    params(3).write(&mut b).unwrap();
    for cut in [1usize, 100, 192, 300] {
        assert!(groth16::Parameters::<Bls12>::read(&b[..b.len() - cut], true).is_err(), "{}", cut);
    }
}
'''
