//! C29: whatever was handed to an operation is released once it is over, and
//! the work it left behind ends.
use super::groth::{blind, knobs, setup, Setup};
use crate::engine::{Fr, Sim, A, P};
use crate::faults::*;
use crate::r1cs::{Ckt, Fail};
use crate::util::*;
use bellman::multicore::Worker;
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity};
use bellman::{Circuit, ConstraintSystem, SynthesisError};
use ff::Field;
use groth16::*;
use simrt::rng::Rng;
use simrt::{count, fail, phase, quiet, set_sample, w};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// Counts the objects of one kind that exist.
#[derive(Clone, Default)]
struct Ledger(Arc<(AtomicUsize, AtomicUsize)>);
/// An object that must be dropped exactly once.
struct Tok(Ledger, #[allow(dead_code)] Vec<u8>);
impl Ledger {
    fn tok(&self) -> Tok {
        self.0 .0.fetch_add(1, SeqCst);
        Tok(self.clone(), vec![])
    }
    fn heavy(&self, n: usize) -> Tok {
        self.0 .0.fetch_add(1, SeqCst);
        Tok(self.clone(), vec![7; n])
    }
    fn live(&self) -> isize {
        // In this order, objects that come and go in between do no harm.
        let dropped = self.0 .1.load(SeqCst) as isize;
        self.0 .0.load(SeqCst) as isize - dropped
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let n = self.0 .0 .1.fetch_add(1, SeqCst) + 1;
        if n > self.0 .0 .0.load(SeqCst) {
            fail("dropped-twice", "more objects were dropped than exist");
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.0 .0 .0.fetch_add(1, SeqCst);
        Tok(self.0.clone(), self.1.clone())
    }
}

/// A circuit with an object inside and possibly a panic.
#[derive(Clone)]
struct Held {
    c: Ckt,
    _tok: Tok,
    /// 1: before, 2: after the constraints
    panic: u64,
}
impl Circuit<Fr> for Held {
    fn synthesize<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        if self.panic == 1 {
            count("fault:circuit-panic");
            panic!("injected panic in a circuit");
        }
        self.c.clone().synthesize(cs)?;
        if self.panic == 2 {
            count("fault:circuit-panic");
            panic!("injected panic in a circuit");
        }
        Ok(())
    }
}

/// Things that must have no other owner in the end.
type Watch = Arc<Mutex<Vec<(&'static str, Box<dyn Fn() -> usize + Send>)>>>;
fn watch<T: Send + Sync + 'static + ?Sized>(w: &Watch, what: &'static str, a: &Arc<T>) {
    let a = Arc::downgrade(a);
    w.lock().unwrap().push((what, Box::new(move || a.strong_count())));
}

struct World {
    s: Setup,
    led: Ledger,
    results: Ledger,
    watch: Watch,
}

const OPS: u64 = 12;

/// One operation; `big` makes what it handles large enough to be seen in the heap.
fn op(wd: &World, kind: u64, r: &mut Rng, big: bool) {
    let s = &wd.s;
    match kind {
        0 | 1 => {
            phase("prove");
            let x = s.wit(r);
            let mut p = SimParams::new(&s.params);
            p.slow = r.below(4);
            p.style = r.below(2);
            let panics = r.below(5) == 0;
            if kind == 1 {
                let f = match (panics, r.below(3)) {
                    (true, _) => BaseFault::Panic,
                    (_, 0) => BaseFault::Eof,
                    (_, 1) => BaseFault::Identity,
                    _ => BaseFault::Io(std::io::ErrorKind::Other),
                };
                p.faults.push(if r.below(2) == 0 && !panics {
                    ParamFault::Request(REQS[r.below(6) as usize], f)
                } else {
                    let pass = if r.below(2) == 0 { None } else { Some(r.below(80) as usize) };
                    ParamFault::Stream(r.below(8) as usize, r.below(8) as usize, f, pass)
                });
            }
            let (hits, failed) = (p.hits.clone(), p.requests_failed.clone());
            let (a, b) = (blind(r), blind(r));
            let want = s.want(&x, a, b);
            let c = Held { c: s.ckt(&x), _tok: wd.led.heavy(if big { 40_000 } else { 0 }), panic: 0 };
            let g = catch_unwind(AssertUnwindSafe(|| create_proof::<Sim, _, _>(c, p, a, b)));
            let hit = hits.hits.load(SeqCst) > 0 || !failed.lock().unwrap().is_empty();
            match g {
                Ok(Ok(p)) if p == want && !hit => count("oracle:proof"),
                Ok(Err(_)) if hit => count("oracle:failed-operation"),
                Err(_) if hit && panics => count("oracle:failed-operation"),
                Ok(g) => fail("wrong-outcome", format!("fault hit: {}, proof: {:?}", hit, g.map(|p| p == want).map_err(|e| err_name(&e)))),
                Err(_) => fail("panic", "proving panicked although nothing panicked in the source"),
            }
            watch(&wd.watch, "the source log", &hits);
            watch(&wd.watch, "the request log", &failed);
        }
        2 => {
            phase("prove from memory with a failing circuit");
            let x = s.wit(r);
            let mut c = s.ckt(&x);
            if r.below(2) == 0 && !s.spec.ops.is_empty() {
                c.fail = Some(Fail::Step(r.below(s.spec.ops.len() as u64) as usize, 1));
            }
            let failing = c.fail.is_some();
            let panic = r.below(3);
            let c = Held { c, _tok: wd.led.heavy(if big { 40_000 } else { 0 }), panic };
            let g = catch_unwind(AssertUnwindSafe(|| create_proof::<Sim, _, _>(c, &*s.params, Fr::ONE, Fr::ONE)));
            match g {
                Ok(Ok(_)) if !failing && panic == 0 => count("oracle:proof"),
                Ok(Err(_)) if failing && panic != 1 => count("oracle:failed-operation"),
                Err(_) if panic > 0 => count("oracle:failed-operation"),
                _ => fail("wrong-outcome", "of a failing or panicking circuit"),
            }
        }
        3 => {
            phase("generate");
            let t = &s.tox;
            let mut c = Ckt::new(&s.spec, None);
            if r.below(2) == 0 && !s.spec.ops.is_empty() {
                c.fail = Some(Fail::Step(r.below(s.spec.ops.len() as u64) as usize, 1));
            }
            let failing = c.fail.is_some();
            let panic = r.below(3);
            let c = Held { c, _tok: wd.led.heavy(if big { 40_000 } else { 0 }), panic };
            let gamma = if r.below(4) == 0 { Fr::ZERO } else { t.gamma };
            let g = catch_unwind(AssertUnwindSafe(|| generate_parameters::<Sim, _>(c, P(t.g1), P(t.g2), t.alpha, t.beta, gamma, t.delta, t.tau)));
            match g {
                Ok(Ok(p)) if !failing && panic == 0 => {
                    for (n, a) in [("h", &p.h), ("l", &p.l), ("a", &p.a), ("b_g1", &p.b_g1)] {
                        if Arc::strong_count(a) != 1 {
                            fail("retained", format!("generated parameters share their {} query with something else", n));
                        }
                        watch(&wd.watch, "a generated query", a);
                    }
                    count("oracle:crs");
                }
                Ok(Err(_)) if panic != 1 => count("oracle:failed-operation"),
                Err(_) if panic > 0 => count("oracle:failed-operation"),
                _ => fail("wrong-outcome", "of generation"),
            }
        }
        4 | 5 | 6 => {
            // 4 waited for, 5 abandoned, 6 failing or panicking
            phase("multiexp");
            let n = if big { 300 + r.below(100) } else { r.below(60) } as usize;
            let d: Option<Vec<bool>> = if r.below(2) == 0 { None } else { Some((0..n).map(|_| r.below(3) > 0).collect()) };
            let sel = d.as_ref().map(|d| d.iter().filter(|b| **b).count()).unwrap_or(n);
            let bases: Arc<Vec<A<Fr, 1>>> = Arc::new((0..sel).map(|_| A(nz(r))).collect());
            let e: Arc<Vec<Exponent<Fr>>> = Arc::new((0..n).map(|_| (&fe::<Fr>(r)).into()).collect());
            let mut src = SimSource::new(bases.clone(), 0);
            src.slow = if big { 0 } else { r.below(3) };
            let panics = kind == 6 && r.below(2) == 0;
            if kind == 6 {
                let f = if panics { BaseFault::Panic } else { BaseFault::Eof };
                src.fault = Some((r.below(sel as u64 + 1) as usize, f, if r.below(2) == 0 { None } else { Some(r.below(60) as usize) }));
            }
            watch(&wd.watch, "the bases", &bases);
            watch(&wd.watch, "the exponents", &e);
            watch(&wd.watch, "the pass counter of the source", &src.passes);
            let log = src.log.clone();
            let wk = Worker::new();
            let wt = match &d {
                None => multiexp::<_, _, P<Fr, 1>, _>(&wk, src, FullDensity, e),
                Some(d) => {
                    let mut t = DensityTracker::new();
                    for (i, b) in d.iter().enumerate() {
                        t.add_element();
                        if *b {
                            t.inc(i);
                        }
                    }
                    let t = Arc::new(t);
                    watch(&wd.watch, "the selection", &t);
                    multiexp(&wk, src, t, e)
                }
            };
            if kind == 5 || (kind == 6 && r.below(2) == 0) {
                work(r.below(4));
                count("fault:handle-dropped");
                drop(wt);
            } else {
                let g = catch_unwind(AssertUnwindSafe(|| wt.wait()));
                let hit = log.hits.load(SeqCst) > 0;
                match g {
                    Ok(Ok(_)) if !hit => count("oracle:sum"),
                    Ok(Err(_)) if hit => count("oracle:failed-operation"),
                    Err(_) if hit && panics => count("oracle:failed-operation"),
                    _ => fail("wrong-outcome", "of a multi-exponentiation"),
                }
            }
        }
        7 | 8 => {
            phase("submit");
            let (t, res) = (wd.led.heavy(if big { 20_000 } else { 0 }), wd.results.clone());
            let (panics, slow) = (r.below(3) == 0, if big { 0 } else { some_work() });
            let n = if big { 20_000 } else { 0 };
            let wt = Worker::new().compute(move || {
                work(slow);
                let t = t;
                if panics {
                    count("fault:panic");
                    let t = res.heavy(n);
                    std::panic::panic_any(t);
                }
                let _ = &t;
                res.heavy(n)
            });
            if kind == 8 {
                work(r.below(4));
                count("fault:handle-dropped");
                drop(wt);
            } else {
                match catch_unwind(AssertUnwindSafe(|| wt.wait())) {
                    Ok(_) if !panics => count("oracle:result"),
                    Err(p) if panics && p.is::<Tok>() => count("oracle:result"),
                    Err(_) if panics => fail("wrong-panic", "the payload of the panic was not passed on"),
                    _ => fail("wrong-outcome", "of a submission"),
                }
            }
        }
        9 => {
            phase("scope");
            let k = 1 + r.below(5);
            let bad = if r.below(2) == 0 { r.below(k) } else { k };
            let led = wd.led.clone();
            let n = if big { 20_000 } else { 0 };
            let ran = AtomicUsize::new(0);
            let g = catch_unwind(AssertUnwindSafe(|| {
                Worker::new().scope(k as usize, |sc, _| {
                    for i in 0..k {
                        let t = led.heavy(n);
                        let ran = &ran;
                        sc.spawn(move |_| {
                            let _t = t;
                            work(i % 4);
                            ran.fetch_add(1, SeqCst);
                            if i == bad {
                                count("fault:panic");
                                panic!("injected panic in a scope");
                            }
                        });
                    }
                })
            }));
            if g.is_err() != (bad < k) {
                fail("wrong-outcome", "of a scope with a panicking task");
            }
            if wd.led.live() < 0 || ran.load(SeqCst) != k as usize {
                fail("scope-left-early", format!("{} of {} tasks ran", ran.load(SeqCst), k));
            }
            count("oracle:scope");
        }
        10 => {
            phase("wait in the pool");
            let res = wd.results.clone();
            let n = if big { 20_000 } else { 0 };
            let outer = Worker::new().compute(move || {
                let inner = Worker::new().compute(move || res.heavy(n));
                count("fault:wait-in-pool");
                inner.wait();
            });
            if catch_unwind(AssertUnwindSafe(|| outer.wait())).is_ok() {
                fail("wait-in-pool", "waiting in the pool did not fail");
            }
            count("oracle:result");
        }
        _ => {
            phase("batch");
            let mut b = groth16_multicore::batch::Verifier::<Sim>::new();
            let k = 1 + r.below(6);
            let x = s.wit(r);
            let p = s.want(&x, Fr::ONE, Fr::ONE);
            let bad = if r.below(2) == 0 { r.below(k) } else { k };
            let vk = convert(&s.params.vk);
            for i in 0..k {
                let mut q = groth16_multicore::Proof::<Sim> { a: p.a, b: p.b, c: p.c };
                if i == bad {
                    q.c.0 += Fr::ONE;
                }
                let pubs = if big { x.public.clone() } else { x.public.clone() };
                b.queue((q, pubs));
            }
            let g = b.verify_multicore(&vk);
            if g.is_err() != (bad < k) {
                fail("wrong-outcome", "of a batch");
            }
            count("oracle:verified");
        }
    }
}

fn convert(k: &VerifyingKey<Sim>) -> groth16_multicore::VerifyingKey<Sim> {
    groth16_multicore::VerifyingKey {
        alpha_g1: k.alpha_g1,
        beta_g1: k.beta_g1,
        beta_g2: k.beta_g2,
        gamma_g2: k.gamma_g2,
        delta_g1: k.delta_g1,
        delta_g2: k.delta_g2,
        ic: k.ic.clone(),
    }
}

/// Waits until nothing is left, or says what is.
fn drained(wd: &World, base: &[usize; 6]) {
    phase("drain");
    let left = || -> Option<String> {
        let n = counts(&wd.s);
        for (i, what) in ["the parameters", "h", "l", "a", "b_g1", "b_g2"].iter().enumerate() {
            if n[i] != base[i] {
                return Some(format!("{} references to {} instead of {}", n[i], what, base[i]));
            }
        }
        if wd.led.live() != 0 {
            return Some(format!("{} circuits or closures are still held", wd.led.live()));
        }
        if wd.results.live() != 0 {
            return Some(format!("{} results are still held", wd.results.live()));
        }
        for (what, f) in wd.watch.lock().unwrap().iter() {
            if f() != 0 {
                return Some(format!("{} references to {} remain", f(), what));
            }
        }
        None
    };
    if !eventually(|| left().is_none()) {
        fail("retained", left().unwrap_or_else(|| "something was released late".into()));
    }
    wd.watch.lock().unwrap().clear();
    count("oracle:released");
}

fn counts(s: &Setup) -> [usize; 6] {
    let p = &s.params;
    [
        Arc::strong_count(p),
        Arc::strong_count(&p.h),
        Arc::strong_count(&p.l),
        Arc::strong_count(&p.a),
        Arc::strong_count(&p.b_g1),
        Arc::strong_count(&p.b_g2),
    ]
}

pub fn c29() {
    let np = pool(8);
    let repeat = w(24) == 23;
    let k = if repeat { crate::r1cs::Knobs { inputs: 5, aux: 200, extra: 100, odd: true, loose: false } } else { knobs() };
    let s = match setup(k) {
        Some(s) => s,
        None => return,
    };
    let wd = World { s, led: Default::default(), results: Default::default(), watch: Default::default() };
    let base = counts(&wd.s);
    if repeat {
        let kind = w(OPS);
        let mut r = rng();
        set_sample(&format!("operation {} repeated, {} pool threads, {}", kind, np, wd.s.spec.describe()));
        simrt::region::mix_state(kind);
        simrt::alloc::track();
        let mut level = 0;
        let mut grown = vec![];
        // Queues and epochs below may grow a little, but not every time.
        for round in 0..4 {
            for _ in 0..if round == 0 { 10 } else { 16 } {
                op(&wd, kind, &mut r, true);
                drained(&wd, &base);
            }
            let l = simrt::alloc::level();
            if round > 0 {
                grown.push(l - level);
            }
            level = l;
        }
        if grown.iter().all(|g| *g > 8_000) {
            fail("memory-accumulates", format!("three times 16 repetitions of operation {} grew the heap by {:?} bytes", kind, grown));
        }
        count("oracle:heap-level");
        return;
    }
    let callers: Vec<(u64, u64)> = (0..1 + w(3)).map(|_| (w(0), 1 + w(5))).collect();
    set_sample(&format!("{} callers, {} pool threads, {}", callers.len(), np, wd.s.spec.describe()));
    let wr = &wd;
    std::thread::scope(|sc| {
        for (seed, n) in callers {
            sc.spawn(move || {
                let mut r = Rng::new(seed);
                for _ in 0..n {
                    let k = r.below(OPS);
                    simrt::region::mix_state(k);
                    op(wr, k, &mut r, false);
                }
            });
        }
    });
    drained(&wd, &base);
    // The pool takes work as if nothing had happened, once the workers had
    // time to put down what they are doing (a closure may give back its slot
    // after its result was seen, or wait in a queue holding nothing).
    phase("afterwards");
    std::thread::sleep(std::time::Duration::from_secs(1));
    let gate = Arc::new((Mutex::new(false), std::sync::Condvar::new()));
    let mut v = vec![];
    for i in 0..4 * np as u64 {
        let g = gate.clone();
        v.push(Worker::new().compute(move || {
            let mut o = g.0.lock().unwrap();
            while !*o {
                o = g.1.wait(o).unwrap();
            }
            i
        }));
    }
    *gate.0.lock().unwrap() = true;
    gate.1.notify_all();
    for (i, wt) in v.into_iter().enumerate() {
        if wt.wait() != i as u64 {
            fail("wrong-result", "after other operations");
        }
    }
    quiet(|| ());
    count("oracle:pool-accepts");
}
