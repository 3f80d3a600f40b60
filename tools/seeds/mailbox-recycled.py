from common import *
PROPERTY = "C01"
NEEDS = "a result abandoned while its computation is still queued, and another submission that then reuses its channel"
BREAKS = "result channels are recycled when a waiter is dropped although the abandoned computation may still send into them"
F = "src/multicore.rs"
EDITS = [(F, "    use crossbeam_channel::{bounded, Receiver};", "    use crossbeam_channel::{bounded, Receiver, Sender};\n    use std::any::Any;\n    use std::marker::PhantomData;\n    use std::sync::Mutex;"),
(F, "            let (sender, receiver) = bounded(1);\n\n            // We keep", "            let (sender, receiver) = mailbox();\n\n            // We keep"),
(F, "            let (sender, receiver) = bounded(1);\n            sender.send(Ok(val)).unwrap();", "            let (sender, receiver) = mailbox();\n            sender.send(Ok(val)).unwrap();"),
(F, "        receiver: Receiver<thread::Result<T>>,", "        receiver: Mailbox<T>,"),
(F, "    impl<T> Waiter<T> {\n        /// Consumes this waiter and blocks until the result is ready.\n        ///", "    impl<T: Send + 'static> Waiter<T> {\n        /// Consumes this waiter and blocks until the result is ready.\n        ///"),
(F, "    static WORKER_SPAWN_COUNTER: AtomicUsize = AtomicUsize::new(0);", """    static WORKER_SPAWN_COUNTER: AtomicUsize = AtomicUsize::new(0);

    type Parcel = Box<dyn Any + Send>;

    lazy_static! {
        // Channels for results are used again.
        static ref CHANNELS: Mutex<Vec<(Sender<Parcel>, Receiver<Parcel>)>> = Mutex::new(vec![]);
    }

    fn mailbox<T>() -> (Outlet<T>, Mailbox<T>) {
        let (sender, receiver) = CHANNELS.lock().unwrap().pop().unwrap_or_else(|| bounded(1));
        (
            Outlet(sender.clone(), PhantomData),
            Mailbox(sender, receiver, PhantomData),
        )
    }

    struct Outlet<T>(Sender<Parcel>, PhantomData<fn(T)>);

    impl<T: Send + 'static> Outlet<T> {
        fn send(&self, res: thread::Result<T>) -> Result<(), ()> {
            self.0.send(Box::new(res)).map_err(|_| ())
        }
    }

    struct Mailbox<T>(Sender<Parcel>, Receiver<Parcel>, PhantomData<fn() -> T>);

    impl<T: Send + 'static> Mailbox<T> {
        fn recv(&self) -> Result<thread::Result<T>, ()> {
            loop {
                // Whatever is not ours was for a previous user.
                let parcel = self.1.recv().map_err(|_| ())?;
                if let Ok(res) = parcel.downcast() {
                    return Ok(*res);
                }
            }
        }
    }

    impl<T> Drop for Mailbox<T> {
        fn drop(&mut self) {
            while self.1.try_recv().is_ok() {}
            CHANNELS
                .lock()
                .unwrap()
                .push((self.0.clone(), self.1.clone()));
        }
    }""")]
DEMO = USE + r'''
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "4");
    let w = Worker::new();
    for round in 0..50 {
        drop(w.compute(move || { std::thread::sleep(std::time::Duration::from_millis(20)); -1i64 }));
        let x = w.compute(move || { std::thread::sleep(std::time::Duration::from_millis(60)); round as i64 });
        assert_eq!(x.wait(), round as i64, "somebody else's result");
    }
}
'''
TIMEOUT = 60
