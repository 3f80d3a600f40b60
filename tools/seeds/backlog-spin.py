from common import *
PROPERTY = "C02"
NEEDS = "submissions from inside the pool while the backlog is full"
BREAKS = "a submission beyond the limit waits for the backlog to shrink first, which never happens when the callers are the pool's own threads"
EDITS = [("src/multicore.rs", "            if previous_count > *WORKER_SPAWN_MAX_COUNT {\n", "            while WORKER_SPAWN_COUNTER.load(Ordering::SeqCst) > *WORKER_SPAWN_MAX_COUNT + 1 {\n                thread::yield_now();\n            }\n\n            if previous_count > *WORKER_SPAWN_MAX_COUNT {\n")]
DEMO = USE + r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    let w = Worker::new();
    let w2 = w.clone();
    let h = w.compute(move || { for _ in 0..100 { w2.compute(|| ()); } 7 });
    assert_eq!(h.wait(), 7);
}
'''
TIMEOUT = 20
