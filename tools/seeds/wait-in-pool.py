from common import *
PROPERTY = "C03"
NEEDS = "as many pool tasks as threads, each waiting for work it submitted"
BREAKS = "waiting inside the pool is refused only when the pool has a single thread, so with more threads waiting tasks can deadlock"
EDITS = [("src/multicore.rs", "            if rayon::current_thread_index().is_some() {\n                let msg", "            // Another thread can make progress if there is one.\n            if rayon::current_thread_index().is_some() && current_num_threads() == 1 {\n                let msg")]
DEMO = USE + r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let w = Worker::new();
    let b = Arc::new(std::sync::Barrier::new(2));
    let hs: Vec<_> = (0..2).map(|_| {
        let (w2, b) = (w.clone(), b.clone());
        w.compute(move || { b.wait(); let x = w2.compute(|| 1); b.wait(); std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.wait())).is_err() })
    }).collect();
    for h in hs { assert!(h.wait(), "waiting inside the pool was allowed"); }
}
'''
TIMEOUT = 30
