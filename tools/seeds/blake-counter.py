from common import *
PROPERTY = "C24"
NEEDS = "a message of more than 64 KiB"
BREAKS = "the BLAKE2s offset counter of inner blocks wraps at 64 KiB"
EDITS = [("src/gadgets/blake2s.rs", "        blake2s_compression(cs, &mut h, block, ((i as u64) + 1) * 64, false)?;", "        // Bytes hashed so far\n        let t = (i as u16).wrapping_add(1).wrapping_mul(64);\n        blake2s_compression(cs, &mut h, block, t.into(), false)?;")]
EXTRA = 'blake2s_simd = "1"'
DEMO = USE + r'''
fn main() {
    for n in [0usize, 64, 65, 128, 1025, 65600] {
        let m: Vec<u8> = (0..n).map(|i| i as u8).collect();
        let mut cs = TestConstraintSystem::<Fr>::new();
        let bits: Vec<Boolean> = m.iter().flat_map(|b| (0..8).map(move |i| Boolean::constant(b >> i & 1 == 1))).collect();
        let d = bellman::gadgets::blake2s::blake2s(&mut cs, &bits, b"12345678").unwrap();
        let got: Vec<u8> = d.chunks(8).map(|c| c.iter().rev().fold(0, |a, b| a << 1 | b.get_value().unwrap() as u8)).collect();
        let want = blake2s_simd::Params::new().hash_length(32).personal(b"12345678").hash(&m);
        assert_eq!(&got[..], want.as_bytes(), "{} bytes", n);
    }
}
'''
