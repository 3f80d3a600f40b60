from common import *
PROPERTY = "C04"
NEEDS = "a pool whose size is not a power of two (chunks that do not divide the vector evenly)"
BREAKS = "distribute_powers starts the powers of each chunk at i * (len / number of chunks) instead of i * chunk"
EDITS = [("src/domain.rs", "        worker.scope(self.coeffs.len(), |scope, chunk| {\n            for (i, v) in self.coeffs.chunks_mut(chunk).enumerate() {\n                scope.spawn(move |_scope| {\n                    let mut u = g.pow_vartime(&[(i * chunk) as u64]);\n",
"        let len = self.coeffs.len();\n        worker.scope(len, |scope, chunk| {\n            let tasks = (len + chunk - 1) / chunk;\n            let stride = g.pow_vartime(&[(len / tasks) as u64]);\n            let mut start = S::ONE;\n            for v in self.coeffs.chunks_mut(chunk) {\n                let first = start;\n                start.mul_assign(&stride);\n                scope.spawn(move |_scope| {\n                    let mut u = first;\n")]
DEMO = USE + r'''
use bellman::domain::{EvaluationDomain, Scalar};
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "3");
    let mut r = rng();
    let v: Vec<Fr> = (0..16).map(|_| Fr::random(&mut r)).collect();
    let g = Fr::from(5);
    let mut d = EvaluationDomain::from_coeffs(v.iter().map(|x| Scalar(*x)).collect()).unwrap();
    d.distribute_powers(&Worker::new(), g);
    let got: Vec<Fr> = d.into_coeffs().into_iter().map(|s| s.0).collect();
    let want: Vec<Fr> = v.iter().enumerate().map(|(i, x)| x * Field::pow_vartime(&g, [i as u64])).collect();
    assert_eq!(want, got);
}
'''
