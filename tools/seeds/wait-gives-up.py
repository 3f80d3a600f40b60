from common import *
PROPERTY = "C01"
NEEDS = "a computation that takes longer than half a minute"
BREAKS = "a waiter gives up when its computation takes longer than 30 seconds"
EDITS = [("src/multicore.rs", "            match self.receiver.recv().unwrap() {", "            // A computation that was lost would block its caller forever\n            let limit = std::time::Duration::from_secs(30);\n            match self.receiver.recv_timeout(limit).unwrap() {")]
DEMO = USE + r'''
fn main() {
    let w = Worker::new();
    let x = w.compute(|| {
        std::thread::sleep(std::time::Duration::from_secs(32));
        7
    });
    assert_eq!(x.wait(), 7);
}
'''
