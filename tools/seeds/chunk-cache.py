from common import *
PROPERTY = "C01"
NEEDS = "two threads that open scopes over different numbers of elements at the same time"
BREAKS = "the chunk size is remembered for the last number of elements in two words that are not updated together, so a scope can be given the chunk size of another one, larger than its work"
EDITS = [("src/multicore.rs", """            let num_threads = current_num_threads();
            let chunk_size = if elements < num_threads {
                1
            } else {
                elements / num_threads
            };
""", """            // Consecutive scopes usually go over the same number of elements.
            static LAST: AtomicUsize = AtomicUsize::new(0);
            static CHUNK: AtomicUsize = AtomicUsize::new(1);
            if LAST.swap(elements, Ordering::SeqCst) != elements {
                let num_threads = current_num_threads();
                let chunk = if elements < num_threads {
                    1
                } else {
                    elements / num_threads
                };
                CHUNK.store(chunk, Ordering::SeqCst);
            }
            let chunk_size = CHUNK.load(Ordering::SeqCst);
""")]
DEMO = USE + r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let hs: Vec<_> = (0..4usize).map(|t| std::thread::spawn(move || {
        let w = Worker::new();
        let end = std::time::Instant::now() + std::time::Duration::from_secs(5);
        while std::time::Instant::now() < end {
            for _ in 0..500 {
                let n = if t % 2 == 0 { 5 } else { 100_000 };
                let c = w.scope(n, |_, c| c);
                assert!(c >= 1 && c <= n, "chunks of {} for {} elements", c, n);
            }
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}
'''
TIMEOUT = 60
