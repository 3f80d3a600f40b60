from common import *
PROPERTY = "C23"
NEEDS = "a message of exactly 55 bytes (modulo 64)"
BREAKS = "the SHA-256 padding always adds at least one zero byte, so lengths of 55 modulo 64 get a block too many"
EDITS = [("src/gadgets/sha256.rs", "    // append K '0' bits, where K is the minimum number >= 0 such that L + 1 + K + 64 is a multiple of 512\n    while", "    // messages consist of bytes: complete the byte of the '1' bit and the next one\n    padded.resize(padded.len() + 15, Boolean::constant(false));\n    // append K '0' bits, where K is the minimum number >= 0 such that L + 1 + K + 64 is a multiple of 512\n    while")]
EXTRA = 'sha2 = "0.10"'
DEMO = USE + r'''
use sha2::Digest;
fn main() {
    for n in [0usize, 54, 55, 56, 63, 64, 119] {
        let m = vec![0xa5u8; n];
        let mut cs = TestConstraintSystem::<Fr>::new();
        let bits: Vec<Boolean> = m.iter().flat_map(|b| (0..8).rev().map(move |i| Boolean::constant(b >> i & 1 == 1))).collect();
        let d = bellman::gadgets::sha256::sha256(&mut cs, &bits).unwrap();
        let got: Vec<u8> = d.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b.get_value().unwrap() as u8)).collect();
        assert_eq!(got, sha2::Sha256::digest(&m).to_vec(), "{} bytes", n);
    }
}
'''
