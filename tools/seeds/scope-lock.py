from common import *
PROPERTY = "C26"
NEEDS = "several transforms running as pool tasks at the same time, one thread picking up the second while it waits inside the first"
BREAKS = "scoped sections of all callers are serialised by one lock, so a pool thread that takes up another caller's section while waiting in its own deadlocks"
EDITS = [("src/multicore.rs", "            rayon::scope(|scope| f(scope, chunk_size))", "            // One section at a time makes better use of the caches.\n            let _guard = SCOPE.lock().unwrap_or_else(|e| e.into_inner());\n            rayon::scope(|scope| f(scope, chunk_size))"),
 ("src/multicore.rs", "    static WORKER_SPAWN_COUNTER: AtomicUsize = AtomicUsize::new(0);", "    static WORKER_SPAWN_COUNTER: AtomicUsize = AtomicUsize::new(0);\n\n    lazy_static! {\n        static ref SCOPE: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    }")]
DEMO = USE + r'''
use bellman::domain::{EvaluationDomain, Scalar as S};
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "3");
    let w = Worker::new();
    for _ in 0..200 {
        let h: Vec<_> = (0..8u64).map(|i| {
            let w2 = w.clone();
            w.compute(move || {
                let mut d = EvaluationDomain::from_coeffs((0..64).map(|x| S(Fr::from(x + i))).collect()).unwrap();
                d.fft(&w2);
                d.ifft(&w2);
                d.into_coeffs()[1].0
            })
        }).collect();
        for (i, h) in h.into_iter().enumerate() {
            assert_eq!(h.wait(), Fr::from(1 + i as u64));
        }
    }
}
'''
TIMEOUT = 60
