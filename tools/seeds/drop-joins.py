from common import *
PROPERTY = "C03"
NEEDS = "a result abandoned outside the pool while its computation has not finished"
BREAKS = "dropping a handle waits for its computation, so that abandoned work cannot pile up"
EDITS = [("src/multicore.rs", """    impl<T> Waiter<T> {
        /// Consumes this waiter and blocks until the result is ready.
        ///
        /// Panics""", """    impl<T> Drop for Waiter<T> {
        fn drop(&mut self) {
            // Do not let abandoned work pile up.
            if rayon::current_thread_index().is_none() {
                let _ = self.receiver.recv();
            }
        }
    }

    impl<T> Waiter<T> {
        /// Consumes this waiter and blocks until the result is ready.
        ///
        /// Panics""")]
DEMO = USE + r'''
fn main() {
    let t = std::time::Instant::now();
    drop(Worker::new().compute(|| std::thread::sleep(std::time::Duration::from_secs(5))));
    assert!(t.elapsed() < std::time::Duration::from_secs(3), "dropping the handle took {:?}", t.elapsed());
}
'''
TIMEOUT = 60
