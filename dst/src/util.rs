//! Shared bits of the scenarios.
use crate::engine::Fr;
use ff::{Field, PrimeField};
use simrt::rng::Rng;
use simrt::w;

/// Draws the pool size of this run and tells rayon about it (before first use).
pub fn pool(max: u64) -> usize {
    let n = 1 + w(max) as usize;
    let n = if w(16) == 15 { n + 8 + w(17) as usize } else { n };
    std::env::set_var("RAYON_NUM_THREADS", n.to_string());
    simrt::region::mix_state(n as u64);
    n
}

/// A PRNG for bulk data whose seed is one workload decision.
pub fn rng() -> Rng {
    Rng::new(w(0))
}

pub fn chance(n: u64) -> bool {
    // true with probability 1/n; false is the simplest choice
    n > 0 && w(n) + 1 == n && n > 1
}

/// A field element; biased to the edges of the field.
pub fn fe<F: PrimeField>(r: &mut Rng) -> F {
    match r.below(12) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => F::from(r.below(16)),
        4 => -F::from(r.below(16)),
        5 => F::from(r.next()),
        _ => full::<F>(r),
    }
}
/// A uniformly distributed field element.
pub fn full<F: PrimeField>(r: &mut Rng) -> F {
    F::random(SRng(r))
}
pub fn nz(r: &mut Rng) -> Fr {
    loop {
        let v = full::<Fr>(r);
        if !bool::from(v.is_zero()) {
            return v;
        }
    }
}

/// rand_core adapter.
pub struct SRng<'a>(pub &'a mut Rng);
impl<'a> rand_core::RngCore for SRng<'a> {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.0.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl<'a> rand_core::CryptoRng for SRng<'a> {}

pub fn fhash<F: PrimeField>(v: &F) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in v.to_repr().as_ref() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn err_name(e: &bellman::SynthesisError) -> String {
    use bellman::SynthesisError::*;
    let text = e.to_string();
    if text.is_empty() {
        simrt::fail("unreadable-error", "an error has no description");
    }
    match e {
        AssignmentMissing => "AssignmentMissing".into(),
        DivisionByZero => "DivisionByZero".into(),
        Unsatisfiable => "Unsatisfiable".into(),
        PolynomialDegreeTooLarge => "PolynomialDegreeTooLarge".into(),
        UnexpectedIdentity => "UnexpectedIdentity".into(),
        UnconstrainedVariable => "UnconstrainedVariable".into(),
        IoError(io) if !text.contains(&io.to_string()) => simrt::fail("unreadable-error", format!("the description of an I/O error does not name it: {}", text)),
        IoError(e) => format!("IoError({:?}:{})", e.kind(), e),
    }
}

/// A kind of `work`, sometimes one that takes very long.
pub fn some_work() -> u64 {
    if w(16) == 15 {
        5 + w(2)
    } else {
        w(5)
    }
}

/// Sleeps until `done`, first briefly and then ever longer: returns whether it came true.
pub fn eventually(done: impl Fn() -> bool) -> bool {
    for k in 0..430u32 {
        if done() {
            return true;
        }
        std::thread::sleep(if k < 400 { std::time::Duration::from_millis(1) } else { std::time::Duration::from_secs(1 << (k - 400)) });
    }
    done()
}

/// Keeps the CPU busy for a while in a way the scheduler can interleave.
pub fn work(kind: u64) {
    use std::sync::atomic::{AtomicU64, Ordering};
    static X: AtomicU64 = AtomicU64::new(0);
    match kind {
        0 => {}
        1 => std::thread::yield_now(),
        2 => {
            for _ in 0..8 {
                X.fetch_add(1, Ordering::SeqCst);
            }
        }
        3 => std::thread::sleep(std::time::Duration::from_micros(50)),
        5 | 6 => {
            simrt::count("fault:slow-task");
            std::thread::sleep(std::time::Duration::from_secs(if kind == 5 { 2 } else { 4000 }))
        }
        _ => {
            for _ in 0..3 {
                X.fetch_add(1, Ordering::SeqCst);
                std::thread::yield_now();
            }
        }
    }
}

/// Runs f inside a pool that the caller made, as programs that limit their own parallelism do.
pub fn own_pool<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let k = 1 + w(5) as usize;
    simrt::count("seam:caller-pool");
    rayon::ThreadPoolBuilder::new().num_threads(k).build().expect("a pool").install(f)
}
