from common import *
PROPERTY = "C14"
NEEDS = "a stream that claims a huge number of elements and then ends"
BREAKS = "Parameters::read reserves memory for the claimed number of b_g2 elements before any of them was read"
EDITS = [("groth16/src/lib.rs", "            let len = reader.read_u32::<BigEndian>()? as usize;\n            for _ in 0..len {\n                b_g2.push(", "            let len = reader.read_u32::<BigEndian>()? as usize;\n            b_g2.reserve(len);\n            for _ in 0..len {\n                b_g2.push(")]
DEMO = USE + SQ + r'''
fn main() {
    let p = params(1);
    let mut w = vec![];
    p.write(&mut w).unwrap();
    let at = w.len() - 192 * p.b_g2.len() - 4;
    w.truncate(at);
    w.extend_from_slice(&[0xff; 4]);
    w.extend_from_slice(&[0; 20]);
    match groth16::Parameters::<Bls12>::read(&w[..], true) { Err(e) => assert_eq!(e.kind(), std::io::ErrorKind::UnexpectedEof), Ok(_) => panic!("accepted") }
}
'''
