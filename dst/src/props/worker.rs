//! C01-C03: the worker pool.
use crate::util::*;
use bellman::multicore::{Waiter, Worker};
use simrt::{count, fail, phase, w};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// How often each closure ran and finished.
struct Book {
    ran: Vec<AtomicUsize>,
    done: Vec<AtomicUsize>,
    next: AtomicUsize,
}
impl Book {
    fn new(n: usize) -> Arc<Book> {
        Arc::new(Book {
            ran: (0..n).map(|_| AtomicUsize::new(0)).collect(),
            done: (0..n).map(|_| AtomicUsize::new(0)).collect(),
            next: AtomicUsize::new(0),
        })
    }
    fn id(&self) -> usize {
        let i = self.next.fetch_add(1, SeqCst);
        if i >= self.ran.len() {
            simrt::run::harness("book overflow");
        }
        i
    }
    fn token(i: usize) -> u64 {
        (i as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xabcdef
    }
    /// Waits in virtual time until everything issued so far has finished.
    fn drain(&self) {
        phase("drain");
        let n = self.next.load(SeqCst);
        eventually(|| (0..n).all(|i| self.done[i].load(SeqCst) > 0));
        for i in 0..n {
            let (r, d) = (self.ran[i].load(SeqCst), self.done[i].load(SeqCst));
            if d == 0 {
                fail("lost-work", format!("closure {} of {} ran {} times and never finished although every thread was idle for a long time", i, n, r));
            }
            if r != 1 {
                fail("not-once", format!("closure {} ran {} times", i, r));
            }
        }
        simrt::region::count_n("oracle:executed-exactly-once", n as u64);
    }
}

fn body<T: Mark>(b: &Arc<Book>, i: usize, kind: u64) -> T {
    b.ran[i].fetch_add(1, SeqCst);
    work(kind);
    b.done[i].fetch_add(1, SeqCst);
    T::of(i)
}

/// Results of several types, each recognisable as that of one closure.
trait Mark: Send + 'static {
    fn of(i: usize) -> Self;
    fn is(&self, i: usize) -> bool;
}
impl Mark for u64 {
    fn of(i: usize) -> u64 {
        Book::token(i)
    }
    fn is(&self, i: usize) -> bool {
        *self == Book::token(i)
    }
}
impl Mark for String {
    fn of(i: usize) -> String {
        format!("closure {}", i)
    }
    fn is(&self, i: usize) -> bool {
        *self == String::of(i)
    }
}
impl Mark for Result<Vec<u64>, [u64; 40]> {
    fn of(i: usize) -> Self {
        if i % 2 == 0 {
            Ok(vec![Book::token(i); i % 50])
        } else {
            Err([Book::token(i); 40])
        }
    }
    fn is(&self, i: usize) -> bool {
        *self == Self::of(i)
    }
}
impl Mark for () {
    fn of(_: usize) {}
    fn is(&self, _: usize) -> bool {
        true
    }
}

struct Held {
    id: usize,
    /// Waits and tells whether the result is that of the closure.
    wt: Box<dyn FnOnce() -> bool + Send>,
}
impl Held {
    fn new<T: Mark>(id: usize, wt: Waiter<T>) -> Held {
        Held { id, wt: Box::new(move || wt.wait().is(id)) }
    }
}

fn submit<T: Mark>(b: &Arc<Book>, worker: &Worker, kind: u64) -> Held {
    let id = b.id();
    let b2 = b.clone();
    phase("submit");
    let wt = worker.compute(move || body::<T>(&b2, id, kind));
    phase("");
    Held::new(id, wt)
}

fn check_wait(b: &Book, h: Held) {
    phase("wait");
    let ok = (h.wt)();
    phase("");
    if !ok {
        fail("wrong-result", format!("waiting for closure {} returned another value", h.id));
    }
    if b.done[h.id].load(SeqCst) != 1 {
        fail("early-result", format!("wait() for closure {} returned before it had finished", h.id));
    }
    count("oracle:wait-result");
}

fn scope_check(worker: &Worker, b: &Arc<Book>, elements: usize, kinds: u64, nested: u64) {
    phase("scope");
    let data_len = elements;
    let mut data = vec![0u32; data_len];
    let ids = Mutex::new(vec![]);
    let ret = worker.scope(elements, |scope, chunk| {
        if chunk == 0 || chunk > elements.max(1) {
            fail("chunk-size", format!("scope over {} elements was offered chunks of {}", elements, chunk));
        }
        for (k, part) in data.chunks_mut(chunk).enumerate() {
            let b = b.clone();
            let id = b.id();
            ids.lock().unwrap().push(id);
            let ids = &ids;
            scope.spawn(move |s| {
                for x in part.iter_mut() {
                    *x += 1;
                }
                if nested > 0 && k as u64 % 3 == 0 {
                    let b2 = b.clone();
                    let id2 = b2.id();
                    ids.lock().unwrap().push(id2);
                    s.spawn(move |_| {
                        body::<()>(&b2, id2, kinds);
                    });
                }
                body::<()>(&b, id, kinds);
            });
        }
        if data_len == 0 {
            for _ in 0..nested {
                let b = b.clone();
                let id = b.id();
                ids.lock().unwrap().push(id);
                scope.spawn(move |_| {
                    body::<()>(&b, id, kinds);
                });
            }
        }
        0x5c09eu64 + elements as u64
    });
    phase("");
    if ret != 0x5c09e + elements as u64 {
        fail("scope-result", "scope returned another value than its closure");
    }
    for id in ids.into_inner().unwrap() {
        if b.done[id].load(SeqCst) != 1 {
            fail("scope-early", format!("scope over {} elements returned while task {} had finished {} times", elements, id, b.done[id].load(SeqCst)));
        }
    }
    if let Some(i) = data.iter().position(|x| *x != 1) {
        fail("scope-work", format!("element {} was processed {} times", i, data[i]));
    }
    count("oracle:scope");
}

fn caller(b: Arc<Book>, worker: Worker, ops: u64, share: Arc<Mutex<Vec<Held>>>) {
    let mut held: Vec<Held> = vec![];
    for _ in 0..ops {
        match w(13) {
            0 | 1 => held.push(submit::<u64>(&b, &worker, some_work())),
            2 => {
                count("probe:result-type");
                held.push(match w(3) {
                    0 => submit::<String>(&b, &worker, some_work()),
                    1 => submit::<Result<Vec<u64>, [u64; 40]>>(&b, &worker, some_work()),
                    _ => submit::<()>(&b, &worker, some_work()),
                });
            }
            11 | 12 => {
                // Nobody waits for this one; whoever comes next must not see anything of it.
                count("fault:abandoned");
                for _ in 0..1 + w(3) {
                    let h = if held.is_empty() || w(2) == 0 {
                        submit::<u64>(&b, &worker, some_work())
                    } else {
                        held.swap_remove(w(held.len() as u64) as usize)
                    };
                    drop(h);
                }
                if w(2) == 0 {
                    held.push(submit::<u64>(&b, &worker, some_work()));
                }
            }
            3 | 4 => {
                if !held.is_empty() {
                    let k = w(held.len() as u64) as usize;
                    check_wait(&b, held.swap_remove(k));
                }
            }
            5 => {
                // burst beyond the backlog limit
                let n = w(40);
                let kind = some_work();
                count("probe:burst");
                for _ in 0..n {
                    held.push(submit::<u64>(&b, &worker, kind));
                }
            }
            6 => {
                let e = [0, 1, 2, 3, 5, 8, 17, 64, 100][w(9) as usize];
                scope_check(&worker, &b, e, some_work(), w(3));
            }
            7 => {
                // nested submission from inside the pool; its waiter comes out
                let (b2, w2, kind) = (b.clone(), worker.clone(), some_work());
                let id = b.id();
                let id2 = b.id();
                count("probe:submit-from-pool");
                let outer = worker.compute(move || {
                    let b3 = b2.clone();
                    let inner = w2.compute(move || body::<u64>(&b3, id2, kind));
                    (body::<u64>(&b2, id, kind), inner)
                });
                let (v, inner) = outer.wait();
                if v != Book::token(id) {
                    fail("wrong-result", "outer closure's value was replaced");
                }
                check_wait(&b, Held::new(id2, inner));
            }
            8 => {
                // scope from inside a computation
                let (b2, w2) = (b.clone(), worker.clone());
                let (e, k) = (w(20) as usize, some_work());
                let id = b.id();
                count("probe:scope-in-pool");
                let wt = worker.compute(move || {
                    scope_check(&w2, &b2, e, k, 0);
                    body::<u64>(&b2, id, 0)
                });
                held.push(Held::new(id, wt));
            }
            9 => {
                // hand a waiter to another thread
                let mut s = share.lock().unwrap();
                if let Some(h) = held.pop() {
                    s.push(h);
                    count("probe:waiter-moved");
                } else if let Some(h) = s.pop() {
                    drop(s);
                    check_wait(&b, h);
                }
            }
            _ => {
                let v = w(0);
                if Waiter::done(v).wait() != v {
                    fail("wrong-result", "Waiter::done(v).wait() is not v");
                }
                let n = rayon::current_num_threads() as u32;
                let l = worker.log_num_threads();
                if (1u32 << l) > n || (1u32 << (l + 1)) <= n {
                    fail("log-threads", format!("log_num_threads is {} with {} threads", l, n));
                }
                count("oracle:done");
            }
        }
    }
    // Wait for a part, leave the rest to others or to nobody.
    while let Some(h) = held.pop() {
        match w(4) {
            0 | 1 => check_wait(&b, h),
            2 => share.lock().unwrap().push(h),
            _ => {
                share.lock().unwrap().push(h);
            }
        }
    }
}

pub fn c01() {
    let n = pool(8);
    let callers = 1 + w(4);
    let ops = 1 + w(14);
    simrt::set_sample(&format!("{} pool threads, {} callers, {} operations each", n, callers, ops));
    let b = Book::new(1 << 13);
    let share = Arc::new(Mutex::new(vec![]));
    let worker = Worker::new();
    let ts: Vec<_> = (1..callers)
        .map(|_| {
            let (b, wk, sh) = (b.clone(), if w(2) == 0 { worker.clone() } else { Worker::new() }, share.clone());
            std::thread::spawn(move || caller(b, wk, ops, sh))
        })
        .collect();
    caller(b.clone(), worker, ops, share.clone());
    for t in ts {
        if t.join().is_err() {
            fail("panic", "a caller thread panicked");
        }
    }
    let rest = std::mem::take(&mut *share.lock().unwrap());
    for h in rest {
        check_wait(&b, h);
    }
    b.drain();
    simrt::region::mix_state(b.next.load(SeqCst) as u64);
}

// ----------------------------------------------------------------------- C02

#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
}
impl Gate {
    fn pass(&self) {
        let mut o = self.open.lock().unwrap();
        while !*o {
            o = self.cv.wait(o).unwrap();
        }
    }
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

/// Allowance over "four per pool thread".
const SLACK: usize = 2;

struct Load {
    /// submissions entered / returned / finished
    entered: AtomicUsize,
    returned: AtomicUsize,
    finished: AtomicUsize,
    worst: AtomicUsize,
    limit: usize,
}
impl Load {
    fn finish(&self) {
        self.finished.fetch_add(1, SeqCst);
    }
    /// Accepted (returned to the caller) and unfinished.
    fn check(&self) {
        // read finished first: it only grows
        let f = self.finished.load(SeqCst);
        let r = self.returned.load(SeqCst);
        let out = r.saturating_sub(f);
        self.worst.fetch_max(out, SeqCst);
        let _ = out;
    }
}

/// Submissions from the pool: how many returned to their submitter, how many ran.
struct Kept {
    returned: AtomicUsize,
    ran: Arc<AtomicUsize>,
    threads: usize,
}
impl Kept {
    fn returned(&self, limit: usize) {
        // Both only grow; the one that counts against the pool is read first.
        let r = self.returned.fetch_add(1, SeqCst) + 1;
        let f = self.ran.load(SeqCst);
        if r > f + limit + SLACK {
            fail("backlog", format!("{} submissions made inside the pool were accepted while {} had finished ({} pool threads)", r, f, self.threads));
        }
        count("oracle:backlog-bound-inside");
    }
}

/// Only poll from the main thread while every worker is stalled, so that what
/// is read is the steady state.
fn settle() {
    std::thread::sleep(Duration::from_millis(50));
}

pub fn c02() {
    let n = pool(5);
    let rounds = 1 + w(4);
    let worker = Worker::new();
    let limit = 4 * n;
    let total_fail = w(3);
    simrt::set_sample(&format!("{} pool threads, {} rounds, failing closures mode {}", n, rounds, total_fail));
    // Earlier history: some load that came and went, parts of it failing.
    let history = w(4) * (limit as u64) * 2;
    if history > 0 {
        phase("history");
        let mut ws = vec![];
        let done = Arc::new(AtomicUsize::new(0));
        for k in 0..history {
            let d = done.clone();
            let bad = total_fail > 0 && k % (total_fail + 1) == 1;
            let kind = w(4);
            let wk = worker.clone();
            // The submission itself may run the closure, and so see its panic.
            let r = catch_unwind(AssertUnwindSafe(move || {
                wk.compute(move || {
                    work(kind);
                    d.fetch_add(1, SeqCst);
                    if bad {
                        count("fault:closure-panic");
                        panic!("injected closure failure");
                    }
                    k
                })
            }));
            if let Ok(wt) = r {
                ws.push((k, bad, wt));
            }
        }
        for (k, bad, wt) in ws {
            match catch_unwind(AssertUnwindSafe(|| wt.wait())) {
                Ok(v) if v != k || bad => fail("wrong-result", format!("closure {} (failing: {}) delivered {}", k, bad, v)),
                Err(_) if !bad => fail("wrong-result", format!("closure {} did not fail but its waiter did", k)),
                _ => {}
            }
        }
        for _ in 0..400 {
            if done.load(SeqCst) as u64 == history {
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        settle();
    }
    for round in 0..rounds {
        phase("stall");
        let gate = Arc::new(Gate::default());
        let load = Arc::new(Load {
            entered: AtomicUsize::new(0),
            returned: AtomicUsize::new(0),
            finished: AtomicUsize::new(0),
            worst: AtomicUsize::new(0),
            limit,
        });
        let callers = 1 + w(4) as usize;
        let each = (limit + SLACK + 2 + w(6) as usize) / (1 + w(callers as u64) as usize) + 1;
        let waiters: Arc<Mutex<Vec<(usize, Waiter<usize>)>>> = Default::default();
        let in_call: Arc<Vec<AtomicBool>> = Arc::new((0..callers).map(|_| AtomicBool::new(false)).collect());
        let ts: Vec<_> = (0..callers)
            .map(|c| {
                let (gate, load, worker, waiters, in_call) = (gate.clone(), load.clone(), worker.clone(), waiters.clone(), in_call.clone());
                std::thread::spawn(move || {
                    for k in 0..each {
                        let id = c * 1000 + k;
                        let (g, l) = (gate.clone(), load.clone());
                        in_call[c].store(true, SeqCst);
                        load.entered.fetch_add(1, SeqCst);
                        let wt = worker.compute(move || {
                            g.pass();
                            l.finish();
                            id
                        });
                        load.returned.fetch_add(1, SeqCst);
                        in_call[c].store(false, SeqCst);
                        waiters.lock().unwrap().push((id, wt));
                    }
                })
            })
            .collect();
        // Everything stalls behind the gate; give submitters ample time.
        for _ in 0..6 {
            settle();
            load.check();
        }
        count("fault:stalled-workers");
        let returned = load.returned.load(SeqCst);
        let entered = load.entered.load(SeqCst);
        let blocked = in_call.iter().filter(|x| x.load(SeqCst)).count();
        if load.finished.load(SeqCst) != 0 {
            fail("harness-gate", "a closure finished behind a closed gate");
        }
        count("oracle:backlog-bound");
        simrt::region::mix_state((returned as u64) << 16 | blocked as u64);
        if returned > load.limit + SLACK {
            fail("backlog", format!("round {}: {} submissions were accepted while none had finished ({} pool threads)", round, returned, n));
        }
        if returned < load.limit.saturating_sub(SLACK) {
            fail(
                "blocked-below-limit",
                format!("round {}: only {} submissions returned, {} are blocked, with {} pool threads and nothing else outstanding", round, returned, entered - returned, n),
            );
        }
        phase("release");
        gate.open();
        for t in ts {
            if t.join().is_err() {
                fail("panic", "a submitting thread panicked");
            }
        }
        // A caller that was blocked saw its closure executed before returning.
        let all = std::mem::take(&mut *waiters.lock().unwrap());
        if all.len() != callers * each {
            fail("lost-work", "not every submission returned a handle");
        }
        for (id, wt) in all {
            if w(6) == 5 {
                drop(wt);
                count("fault:handle-dropped");
            } else if wt.wait() != id {
                fail("wrong-result", "waiting returned another closure's result");
            }
        }
        for _ in 0..400 {
            if load.finished.load(SeqCst) == callers * each {
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        if load.finished.load(SeqCst) != callers * each {
            fail("lost-work", format!("{} of {} closures finished", load.finished.load(SeqCst), callers * each));
        }
        settle();
        count("oracle:recovered");
    }
    // Over the limit, a submission returns only after its own closure ran.
    phase("own closure");
    let gate = Arc::new(Gate::default());
    let mut ws = vec![];
    for _ in 0..limit.saturating_sub(SLACK) {
        let g = gate.clone();
        ws.push(worker.compute(move || g.pass()));
    }
    let n_over = SLACK + 3;
    let ran: Arc<Vec<AtomicBool>> = Arc::new((0..n_over).map(|_| AtomicBool::new(false)).collect());
    let waited = Arc::new(AtomicUsize::new(0));
    let t = {
        let (ran, worker, waited) = (ran.clone(), worker.clone(), waited.clone());
        std::thread::spawn(move || {
            for k in 0..n_over {
                let r = ran.clone();
                let wt = worker.compute(move || {
                    r[k].store(true, SeqCst);
                });
                if ran[k].load(SeqCst) {
                    waited.fetch_add(1, SeqCst);
                }
                drop(wt);
            }
        })
    };
    settle();
    gate.open();
    if t.join().is_err() {
        fail("panic", "a submitting thread panicked");
    }
    for x in ws {
        x.wait();
    }
    for _ in 0..400 {
        if ran.iter().all(|x| x.load(SeqCst)) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    if !ran.iter().all(|x| x.load(SeqCst)) {
        fail("lost-work", "a closure submitted over the limit never ran");
    }
    // The pool's own threads submit beyond the limit as well: they help instead of waiting
    // for someone else to, or nobody would make progress.
    phase("submitting inside the pool");
    let parents = 1 + w(2 * n as u64) as usize;
    let each = (limit + SLACK + 1 + w(8) as usize) / (1 + w(parents as u64) as usize) + 1;
    let deep = chance(3);
    let hold = chance(3);
    let ran = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(AtomicUsize::new(0));
    let kept = Arc::new(Kept { returned: AtomicUsize::new(0), ran: ran.clone(), threads: n });
    let gate = Arc::new(Gate::default());
    if hold {
        for _ in 0..w(n as u64) {
            let g = gate.clone();
            drop(worker.compute(move || g.pass()));
        }
    }
    let mut outside = vec![];
    for _ in 0..parents {
        let (ran, out, worker2) = (ran.clone(), out.clone(), worker.clone());
        let kept = kept.clone();
        let parent = move || {
            for _ in 0..each {
                let r = ran.clone();
                let (w3, k3) = (worker2.clone(), kept.clone());
                drop(worker2.compute(move || {
                    if deep {
                        let r = r.clone();
                        drop(w3.compute(move || {
                            r.fetch_add(1, SeqCst);
                        }));
                        k3.returned(limit);
                    }
                    r.fetch_add(1, SeqCst);
                }));
                kept.returned(limit);
            }
            out.fetch_add(1, SeqCst);
        };
        if chance(4) {
            outside.push(std::thread::spawn(parent));
        } else {
            drop(worker.compute(parent));
        }
    }
    if hold {
        settle();
        gate.open();
    }
    let all = parents * each * if deep { 2 } else { 1 };
    for _ in 0..400 {
        if out.load(SeqCst) == parents && ran.load(SeqCst) == all {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    count("oracle:pool-submissions");
    if out.load(SeqCst) != parents || ran.load(SeqCst) != all {
        fail("stuck", format!("{} of {} submitters inside and outside the pool came through, {} of {} closures ran", out.load(SeqCst), parents, ran.load(SeqCst), all));
    }
    for t in outside {
        if t.join().is_err() {
            fail("panic", "a submitting thread panicked");
        }
    }
}

// ----------------------------------------------------------------------- C03

/// Handles of computations that cannot finish yet are dropped: by their owner, by another
/// thread, by a task of the pool, by a failing thread. None of this waits.
fn held_drops(worker: &Worker, n: usize) {
    let gate = Arc::new(Gate::default());
    let ran = Arc::new(AtomicUsize::new(0));
    let k = w(4) as usize;
    // With one thread left a task of the pool can do the dropping.
    let inside = k > 0 && k < n && chance(2);
    let (mut own, mut away, mut pooled) = (vec![], vec![], vec![]);
    for i in 0..k {
        let (g, r) = (gate.clone(), ran.clone());
        let fails = chance(4);
        let wt: Waiter<u64> = worker.compute(move || {
            g.pass();
            r.fetch_add(1, SeqCst);
            if fails {
                count("fault:closure-panic");
                panic!("injected closure failure");
            }
            i as u64
        });
        match w(4) {
            0 => away.push((wt, chance(2))),
            1 if inside => pooled.push(wt),
            _ => own.push(wt),
        }
    }
    phase("drop handles of computations that are held up");
    let ts: Vec<_> = away
        .into_iter()
        .map(|(wt, unwinding)| {
            std::thread::spawn(move || {
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    let _wt = wt;
                    if unwinding {
                        panic!("injected caller failure");
                    }
                }));
            })
        })
        .collect();
    for wt in own {
        count("fault:handle-dropped");
        drop(wt);
    }
    if inside {
        let dropped = worker.compute(move || {
            let x = pooled.len() as u64;
            drop(pooled);
            x
        });
        dropped.wait();
    }
    for t in ts {
        if t.join().is_err() {
            fail("panic", "dropping a handle panicked");
        }
    }
    count("oracle:drop-does-not-wait");
    phase("release");
    gate.open();
    for _ in 0..400 {
        if ran.load(SeqCst) == k {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    if ran.load(SeqCst) != k {
        fail("lost-work", format!("{} of {} abandoned closures ran", ran.load(SeqCst), k));
    }
    phase("");
}

pub fn c03() {
    let n = pool(6);
    let ops = 2 + w(24);
    let worker = Worker::new();
    simrt::set_sample(&format!("{} pool threads, {} operations", n, ops));
    held_drops(&worker, n);
    let b = Book::new(4096);
    let mut healthy: Vec<Held> = vec![];
    let mut failing: Vec<Waiter<u64>> = vec![];
    let mut threads = vec![];
    for _ in 0..ops {
        let kind = w(5);
        match w(9) {
            0 => {
                let id = b.id();
                let b2 = b.clone();
                let wt: Waiter<u64> = worker.compute(move || body(&b2, id, kind));
                healthy.push(Held::new(id, wt));
            }
            1 | 2 => {
                // abandon a result before, while or after it is computed
                let id = b.id();
                let b2 = b.clone();
                let when = w(4);
                let wt: Waiter<u64> = worker.compute(move || body(&b2, id, kind));
                match when {
                    0 => {}
                    1 => std::thread::yield_now(),
                    2 => std::thread::sleep(Duration::from_micros(30)),
                    _ => {
                        for _ in 0..400 {
                            if b.done[id].load(SeqCst) > 0 {
                                break;
                            }
                            std::thread::sleep(Duration::from_micros(100));
                        }
                    }
                }
                phase("drop handle");
                drop(wt);
                phase("");
                count("fault:handle-dropped");
            }
            3 => {
                // a handle dropped by another thread
                let id = b.id();
                let b2 = b.clone();
                let wt: Waiter<u64> = worker.compute(move || body(&b2, id, kind));
                threads.push(std::thread::spawn(move || {
                    work(kind);
                    count("fault:handle-dropped");
                    drop(wt)
                }));
            }
            4 => {
                // a closure that panics, its handle kept
                let wk = worker.clone();
                let r = catch_unwind(AssertUnwindSafe(move || {
                    wk.compute(move || -> u64 {
                        work(kind);
                        count("fault:closure-panic");
                        panic!("injected closure failure")
                    })
                }));
                if let Ok(wt) = r {
                    failing.push(wt);
                }
            }
            5 => {
                // a closure that panics and nobody waits for
                let wk = worker.clone();
                let _ = catch_unwind(AssertUnwindSafe(move || {
                    drop(wk.compute(move || -> u64 {
                        work(kind);
                        count("fault:closure-panic");
                        panic!("injected closure failure")
                    }))
                }));
                count("fault:handle-dropped");
            }
            6 => {
                // waiting from inside the pool
                let (wk, b2, b3) = (worker.clone(), b.clone(), b.clone());
                let id = b.id();
                let id2 = b.id();
                count("fault:wait-in-pool");
                let wt = worker.compute(move || {
                    let inner: Waiter<u64> = wk.compute(move || body(&b2, id, kind));
                    let r = catch_unwind(AssertUnwindSafe(|| inner.wait()));
                    body::<()>(&b3, id2, 0);
                    r.is_err()
                });
                phase("wait for a task that waits in the pool");
                let failed = wt.wait();
                phase("");
                count("oracle:wait-in-pool");
                if !failed {
                    fail("wait-in-pool", "waiting from inside the pool did not fail");
                }
            }
            7 => {
                // waiting inside a scope task (also the pool)
                let id = b.id();
                let b2 = b.clone();
                let inner: Waiter<u64> = worker.compute(move || body(&b2, id, kind));
                let bad = AtomicBool::new(false);
                count("fault:wait-in-pool");
                worker.scope(1, |s, _| {
                    let bad = &bad;
                    s.spawn(move |_| {
                        if catch_unwind(AssertUnwindSafe(|| inner.wait())).is_ok() {
                            bad.store(true, SeqCst);
                        }
                    });
                });
                count("oracle:wait-in-pool");
                if bad.load(SeqCst) {
                    fail("wait-in-pool", "waiting from inside a scope task did not fail");
                }
            }
            _ => {
                if let Some(h) = healthy.pop() {
                    check_wait(&b, h);
                }
                scope_check(&worker, &b, w(12) as usize, kind, 0);
            }
        }
    }
    for t in threads {
        if t.join().is_err() {
            fail("panic", "dropping a handle panicked");
        }
    }
    phase("wait for failing closures");
    for wt in failing {
        let r = catch_unwind(AssertUnwindSafe(|| wt.wait()));
        count("oracle:failure-reported");
        if let Ok(v) = r {
            fail("wrong-result", format!("waiting for a closure that panicked returned {}", v));
        }
    }
    for h in healthy {
        check_wait(&b, h);
    }
    // and the pool is still fully usable
    for _ in 0..n as u64 + 2 {
        let id = b.id();
        let b2 = b.clone();
        let wt: Waiter<u64> = worker.compute(move || body(&b2, id, 0));
        check_wait(&b, Held::new(id, wt));
    }
    b.drain();
}
