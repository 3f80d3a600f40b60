from common import *
PROPERTY = "C25"
NEEDS = "the single-threaded build and a handle dropped without waiting (or work whose effects are expected before the wait)"
BREAKS = "the single-threaded worker only runs submitted work when it is waited for, so work whose handle is dropped never runs"
EDITS = [("src/multicore.rs", "            Waiter::done(f())\n", "            Waiter { val: Box::new(f) }\n"),
 ("src/multicore.rs", "    pub struct Waiter<T> {\n        val: Option<T>,\n    }\n\n    impl<T> Waiter<T> {", "    pub struct Waiter<T> {\n        val: Box<dyn FnOnce() -> T + Send>,\n    }\n\n    impl<T: Send + 'static> Waiter<T> {"),
 ("src/multicore.rs", "        pub fn wait(mut self) -> T {\n            self.val.take().expect(\"unmet data dependency\")", "        pub fn wait(self) -> T {\n            (self.val)()"),
 ("src/multicore.rs", "            Waiter { val: Some(val) }", "            Waiter { val: Box::new(move || val) }")]
SERIAL = True
DEMO = r'''
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
fn main() {
    let w = bellman::multicore::Worker::new();
    let n = Arc::new(AtomicUsize::new(0));
    for _ in 0..3 {
        let n = n.clone();
        drop(w.compute(move || n.fetch_add(1, Ordering::SeqCst)));
    }
    assert_eq!(n.load(Ordering::SeqCst), 3);
}
'''
