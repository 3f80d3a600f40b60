from common import *
PROPERTY = "C02"
NEEDS = "work that is submitted by pool tasks rather than from outside of the pool"
BREAKS = "submissions made inside the pool are not counted, so their backlog has no bound"
EDITS = [("src/multicore.rs", "            let previous_count = WORKER_SPAWN_COUNTER.fetch_add(1, Ordering::SeqCst);", """            // A submission from inside the pool replaces the work of its submitter.
            let inner = rayon::current_thread_index().is_some();
            let previous_count = if inner {
                0
            } else {
                WORKER_SPAWN_COUNTER.fetch_add(1, Ordering::SeqCst)
            };"""),
("src/multicore.rs", "                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);", "                if !inner {\n                    WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);\n                }")]
DEMO = USE + r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static RAN: AtomicUsize = AtomicUsize::new(0);
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let w = Worker::new();
    let w2 = w.clone();
    // One task submits 1000; all but the first few must have run when it ends.
    let ran = w.compute(move || {
        for _ in 0..1000 { drop(w2.compute(|| { RAN.fetch_add(1, SeqCst); })); }
        RAN.load(SeqCst)
    }).wait();
    assert!(ran > 900, "{} of 1000 submissions piled up", 1000 - ran);
}
'''
TIMEOUT = 60
