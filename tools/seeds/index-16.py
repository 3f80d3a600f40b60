from common import *
PROPERTY = "C04"
NEEDS = "a vector of more than 65536 elements on each thread of the pool"
BREAKS = "the index of the permutation is reversed byte by byte for two bytes only, so transforms of more than 2^16 elements are wrong"
EDITS = [("src/domain.rs", """        let mut r = 0;
        for _ in 0..l {
            r = (r << 1) | (n & 1);
            n >>= 1;
        }
        r
""", """        if l > 8 {
            // Whole bytes are reversed at once.
            let bytes = (n as u16).to_le_bytes();
            let r = u32::from(bytes[0].reverse_bits()) << 8 | u32::from(bytes[1].reverse_bits());
            return if l > 16 { r << (l - 16) } else { r >> (16 - l) };
        }
        let mut r = 0;
        for _ in 0..l {
            r = (r << 1) | (n & 1);
            n >>= 1;
        }
        r
""")]
DEMO = USE + r'''
use bellman::domain::{EvaluationDomain, Scalar};
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    for k in [9u32, 16, 17] {
        let mut r = rng();
        let v: Vec<Fr> = (0..1usize << k).map(|_| Fr::random(&mut r)).collect();
        let mut d = EvaluationDomain::from_coeffs(v.iter().map(|x| Scalar(*x)).collect()).unwrap();
        d.fft(&Worker::new());
        let mut w = Fr::ROOT_OF_UNITY;
        for _ in k..Fr::S { w = w.square(); }
        for i in [0u64, 1, 2, 77] {
            let x = w.pow_vartime(&[i, 0, 0, 0]);
            let y = v.iter().rev().fold(Fr::ZERO, |a, c| a * x + c);
            assert!(d.as_ref()[i as usize].0 == y, "coefficient {} of 2^{}", i, k);
        }
    }
}
'''
TIMEOUT = 120
