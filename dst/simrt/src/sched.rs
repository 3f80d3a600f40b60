//! The baton scheduler.  All state here is only touched by the thread that
//! currently holds the baton.
use crate::cov;
use crate::region::r;
use crate::rng::{zero_rng, Rng};
use core::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 96;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex,
    Sleep,
    Join,
    Done,
}

pub struct Thr {
    pub st: St,
    pub addr: usize,
    pub bits: u32,
    pub deadline: u64,
    pub timed_out: bool,
    pub join: usize,
    pub word: AtomicU32,
    pub prio: u64,
    pub pthread: u64,
}

#[allow(clippy::declare_interior_mutable_const)]
const T0: Thr = Thr {
    st: St::Free,
    addr: 0,
    bits: 0,
    deadline: u64::MAX,
    timed_out: false,
    join: 0,
    word: AtomicU32::new(0),
    prio: 0,
    pthread: 0,
};

pub static mut T: [Thr; MAXT] = [T0; MAXT];
pub static mut N: usize = 0;
pub static mut CUR: usize = 0;
pub static mut ACTIVE: bool = false;
pub static mut QUIET: u32 = 0;
static mut VBASE: u64 = 0;
static mut STEP_LIMIT: u64 = u64::MAX;

#[derive(Clone, Copy)]
pub struct Policy {
    pub kind: u32,
    /// Mean number of preemption points between preemptions (0 = none).
    pub mean: u64,
    pub by_edge: bool,
    pub budget: u64,
    /// 1-in-n chance that a futex wait returns spuriously (0 = off).
    pub spurious: u64,
    /// 1-in-n chance to switch to a thread just woken or created (0 = never).
    pub eager: u64,
    pub victim: usize,
    pub stall: u64,
}

static mut POL: Policy = Policy {
    kind: 0,
    mean: 0,
    by_edge: false,
    budget: 0,
    spurious: 0,
    eager: 0,
    victim: 0,
    stall: 0,
};
static mut RNG: Rng = zero_rng();
static mut REPLAY: *const u64 = core::ptr::null();
static mut REPLAY_LEN: usize = 0;
static mut POS: usize = 0;
static mut HASH: u64 = 0;
static mut DECISIONS: u64 = 0;

pub fn now() -> u64 {
    unsafe { VBASE.wrapping_add(cov::EDGES) }
}

pub unsafe fn advance(ns: u64) {
    VBASE = VBASE.wrapping_add(ns);
}

/// Draws one scheduling decision in `0..bound`; 0 is always the least eventful.
unsafe fn sdraw(bound: u64, fresh: impl FnOnce(&mut Rng) -> u64) -> u64 {
    if bound <= 1 {
        return 0;
    }
    let reg = r().unwrap();
    let at = reg.slen as usize;
    if at >= crate::region::SMAX {
        return 0;
    }
    let v = if REPLAY.is_null() {
        fresh(&mut RNG)
    } else if POS < REPLAY_LEN {
        let v = *REPLAY.add(POS);
        POS += 1;
        v
    } else {
        0
    };
    let v = v.min(bound - 1);
    reg.s[at] = v;
    reg.slen += 1;
    v
}

fn mix(v: u64) {
    unsafe {
        let mut x = HASH ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        HASH = crate::rng::splitmix(&mut x);
    }
}

pub fn fresh_policy(rng: &mut Rng, threads: usize) -> Policy {
    let kind = [0, 0, 1, 2, 2, 3, 4, 5][rng.below(8) as usize];
    let by_edge = rng.below(4) == 0;
    let mean = if by_edge {
        [0, 500, 3000, 20000, 200000][rng.below(5) as usize]
    } else {
        [0, 8, 40, 200, 1000, 5000][rng.below(6) as usize]
    };
    Policy {
        kind,
        mean,
        by_edge,
        budget: [3, 20, 200, 3000][rng.below(4) as usize],
        spurious: [0, 0, 4, 16, 64][rng.below(5) as usize],
        eager: [0, 2, 4, 16][rng.below(4) as usize],
        victim: rng.below(threads as u64 + 1) as usize,
        stall: [50, 300, 3000][rng.below(3) as usize],
    }
}

pub unsafe fn start(pol: Policy, rng: Rng, replay: Option<&[u64]>, step_limit: u64) {
    POL = pol;
    RNG = rng;
    if let Some(t) = replay {
        REPLAY = t.as_ptr();
        REPLAY_LEN = t.len();
        // A non-null pointer even for an empty tape.
        if REPLAY.is_null() {
            REPLAY = 8 as *const u64;
        }
    }
    N = 1;
    CUR = 0;
    T[0].st = St::Runnable;
    T[0].prio = RNG.next() >> 1;
    STEP_LIMIT = cov::EDGES.saturating_add(step_limit);
    SLICE_END = cov::EDGES + SLICE;
    ACTIVE = true;
    POL.by_edge = sdraw(2, |_| pol.by_edge as u64) == 1;
    POL.spurious = sdraw(1 << 20, |_| pol.spurious);
    POL.eager = sdraw(1 << 20, |_| pol.eager);
    arm();
}

/// A thread that runs this many edges without a switch loses its time slice to
/// the next runnable thread: no schedule starves a thread behind a spinning one.
const SLICE: u64 = 1_000_000;
static mut SLICE_END: u64 = u64::MAX;
static mut GAP_EDGE: u64 = u64::MAX;

unsafe fn set_edge() {
    cov::NEXT_EDGE = GAP_EDGE.min(SLICE_END).min(STEP_LIMIT);
}

unsafe fn arm() {
    GAP_EDGE = u64::MAX;
    cov::NEXT_ATOMIC = u64::MAX;
    let gap = sdraw(1 << 40, |rng| {
        if POL.mean == 0 || POL.budget == 0 {
            0
        } else {
            POL.budget -= 1;
            rng.gap(POL.mean)
        }
    });
    if gap != 0 {
        if POL.by_edge {
            GAP_EDGE = cov::EDGES + gap;
        } else {
            cov::NEXT_ATOMIC = cov::ATOMICS + gap;
        }
    }
    set_edge();
}

unsafe fn expire() {
    let t = now();
    for i in 0..N {
        let x = &mut T[i];
        if (x.st == St::Futex || x.st == St::Sleep) && x.deadline <= t {
            x.st = St::Runnable;
            x.timed_out = true;
            x.deadline = u64::MAX;
        }
    }
}

struct Cands {
    v: [usize; MAXT],
    n: usize,
}

/// Other runnable threads in cyclic order after the current one.
unsafe fn others() -> Cands {
    expire();
    let mut c = Cands { v: [0; MAXT], n: 0 };
    for d in 1..N {
        let i = (CUR + d) % N;
        if T[i].st == St::Runnable {
            c.v[c.n] = i;
            c.n += 1;
        }
    }
    c
}

unsafe fn pick(c: &Cands, rng: &mut Rng, yielding: bool) -> u64 {
    DECISIONS += 1;
    match POL.kind {
        1 => {
            if rng.below(8) != 0 {
                0
            } else {
                rng.below(c.n as u64)
            }
        }
        2 => {
            if yielding {
                T[CUR].prio = rng.below(1 << 20);
            }
            if rng.below(12) == 0 {
                let k = rng.below(N as u64) as usize;
                T[k].prio = rng.next() >> 1;
            }
            let mut best = 0;
            for i in 1..c.n {
                if T[c.v[i]].prio > T[c.v[best]].prio {
                    best = i;
                }
            }
            best as u64
        }
        3 => {
            // newest thread first, with some noise
            let mut best = 0;
            for i in 1..c.n {
                if c.v[i] > c.v[best] {
                    best = i;
                }
            }
            if rng.below(6) == 0 {
                rng.below(c.n as u64)
            } else {
                best as u64
            }
        }
        4 => {
            // stall one victim for a while
            let k = rng.below(c.n as u64);
            if c.v[k as usize] == POL.victim && c.n > 1 && DECISIONS < POL.stall {
                (k + 1) % c.n as u64
            } else {
                k
            }
        }
        5 => 0,
        _ => rng.below(c.n as u64),
    }
}

fn word_wait(w: &AtomicU32) {
    while w.swap(0, Ordering::SeqCst) == 0 {
        unsafe {
            crate::interpose::raw_syscall(
                libc::SYS_futex,
                w as *const _ as usize,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize,
                0,
                0,
                0,
                0,
            );
        }
    }
}
fn word_wake(w: &AtomicU32) {
    w.store(1, Ordering::SeqCst);
    unsafe {
        crate::interpose::raw_syscall(
            libc::SYS_futex,
            w as *const _ as usize,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize,
            1,
            0,
            0,
            0,
        );
    }
}

unsafe fn handoff(next: usize, wait: bool) {
    let me = CUR;
    if next == me {
        return;
    }
    CUR = next;
    SLICE_END = cov::EDGES + SLICE;
    set_edge();
    if let Some(reg) = r() {
        reg.switches += 1;
    }
    mix(((me as u64) << 32) | (next as u64) << 8 | 1);
    mix(cov::ATOMICS);
    word_wake(&T[next].word);
    if wait {
        word_wait(&T[me].word);
    }
}

pub unsafe fn wait_turn(me: usize) {
    word_wait(&T[me].word);
}

fn describe() -> String {
    let mut s = String::new();
    unsafe {
        for i in 0..N {
            s.push_str(&format!("t{}:{:?} ", i, T[i].st));
        }
    }
    s
}

/// The current thread cannot run: hand the baton to someone who can.
unsafe fn block(wait: bool) {
    loop {
        let c = others();
        if T[CUR].st == St::Runnable && wait {
            return; // its own timer fired
        }
        if c.n > 0 {
            let k = sdraw(c.n as u64, |rng| pick(&c, rng, false)) as usize;
            handoff(c.v[k], wait);
            return;
        }
        // Nobody is runnable: jump the clock to the next timer.
        let mut d = u64::MAX;
        for i in 0..N {
            if (T[i].st == St::Futex || T[i].st == St::Sleep) && T[i].deadline < d {
                d = T[i].deadline;
            }
        }
        if d == u64::MAX {
            let msg = format!("no thread can run and no timer is pending: {}", describe());
            crate::run::fail_now("deadlock", &msg);
        }
        let t = now();
        if d > t {
            advance(d - t);
        }
    }
}

pub unsafe fn yield_now() {
    advance(100);
    let c = others();
    if c.n == 0 {
        check_limit();
        return;
    }
    let k = sdraw(c.n as u64, |rng| pick(&c, rng, true)) as usize;
    handoff(c.v[k], true);
    check_limit();
}

static mut YIELDS: u64 = 0;
unsafe fn check_limit() {
    YIELDS += 1;
    if YIELDS > 20_000_000 {
        crate::run::fail_now("no-progress", "the run kept yielding without finishing");
    }
}

unsafe fn preempt() {
    if QUIET > 0 {
        return;
    }
    let c = others();
    if c.n > 0 {
        let k = sdraw(c.n as u64 + 1, |rng| 1 + pick(&c, rng, true)) as usize;
        arm();
        if k > 0 {
            r().unwrap().preempts += 1;
            handoff(c.v[k - 1], true);
        }
    } else {
        arm();
    }
}

#[cold]
#[inline(never)]
pub unsafe fn edge_slow() {
    if !ACTIVE {
        cov::NEXT_EDGE = u64::MAX;
        return;
    }
    if cov::EDGES >= STEP_LIMIT {
        STEP_LIMIT = u64::MAX;
        cov::NEXT_EDGE = u64::MAX;
        crate::run::fail_now("no-progress", "the run did not finish within its step bound");
    }
    if QUIET > 0 {
        cov::NEXT_EDGE = (cov::EDGES + 64).min(STEP_LIMIT);
        return;
    }
    if cov::EDGES >= SLICE_END {
        SLICE_END = cov::EDGES + SLICE;
        set_edge();
        let c = others();
        if c.n > 0 {
            handoff(c.v[0], true);
        }
        return;
    }
    if cov::EDGES >= GAP_EDGE {
        preempt();
    } else {
        set_edge();
    }
}

#[cold]
#[inline(never)]
pub unsafe fn atomic_slow() {
    if !ACTIVE {
        cov::NEXT_ATOMIC = u64::MAX;
        return;
    }
    if QUIET > 0 {
        cov::NEXT_ATOMIC = cov::ATOMICS + 1;
        return;
    }
    preempt();
}

/// FUTEX_WAIT: returns 0, -EAGAIN, -EINTR or -ETIMEDOUT.
pub unsafe fn futex_wait(addr: *const u32, val: u32, bits: u32, deadline: u64) -> isize {
    if core::ptr::read_volatile(addr) != val {
        return -(libc::EAGAIN as isize);
    }
    let reg = r().unwrap();
    reg.waits += 1;
    if POL.spurious > 0 {
        let n = POL.spurious;
        let k = sdraw(3, |rng| {
            if rng.below(n) == 0 {
                1 + rng.below(2)
            } else {
                0
            }
        });
        if k > 0 {
            reg.spurious += 1;
            // Let someone else run first, as after a real signal.
            yield_now();
            return if k == 1 { 0 } else { -(libc::EINTR as isize) };
        }
    }
    let me = CUR;
    let t = &mut T[me];
    t.st = St::Futex;
    t.addr = addr as usize;
    t.bits = bits;
    t.deadline = deadline;
    t.timed_out = false;
    mix(((me as u64) << 8) | 2);
    block(true);
    T[me].deadline = u64::MAX;
    if T[me].timed_out {
        T[me].timed_out = false;
        -(libc::ETIMEDOUT as isize)
    } else {
        0
    }
}

pub unsafe fn futex_wake(addr: *const u32, n: u32, bits: u32) -> isize {
    let mut woken = 0;
    let mut last = usize::MAX;
    let reg = r().unwrap();
    reg.wakes += 1;
    while woken < n {
        let mut c = Cands { v: [0; MAXT], n: 0 };
        for i in 0..N {
            if T[i].st == St::Futex && T[i].addr == addr as usize && T[i].bits & bits != 0 {
                c.v[c.n] = i;
                c.n += 1;
            }
        }
        if c.n == 0 {
            break;
        }
        let k = if (n - woken) as usize >= c.n {
            0
        } else {
            sdraw(c.n as u64, |rng| rng.below(c.n as u64)) as usize
        };
        let i = c.v[k];
        T[i].st = St::Runnable;
        T[i].timed_out = false;
        T[i].deadline = u64::MAX;
        last = i;
        woken += 1;
    }
    if last != usize::MAX {
        mix(((last as u64) << 8) | 3);
        maybe_switch(last);
    }
    woken as isize
}

unsafe fn maybe_switch(to: usize) {
    if QUIET > 0 || POL.eager == 0 {
        return;
    }
    let n = POL.eager;
    if sdraw(2, |rng| (rng.below(n) == 0) as u64) == 1 {
        handoff(to, true);
    }
}

pub unsafe fn sleep(ns: u64) {
    let me = CUR;
    T[me].st = St::Sleep;
    T[me].deadline = now().saturating_add(ns.max(1));
    block(true);
    T[me].deadline = u64::MAX;
    T[me].timed_out = false;
}

pub unsafe fn new_thread() -> Option<usize> {
    if N >= MAXT {
        return None;
    }
    let i = N;
    N += 1;
    // Not schedulable before it physically exists (see `started`).
    T[i].st = St::Free;
    T[i].prio = RNG.next() >> 1;
    T[i].word.store(0, Ordering::SeqCst);
    r().unwrap().threads += 1;
    Some(i)
}

pub unsafe fn started(i: usize) {
    T[i].st = St::Runnable;
    maybe_switch(i);
}

pub unsafe fn join(i: usize) {
    while T[i].st != St::Done {
        let me = CUR;
        T[me].st = St::Join;
        T[me].join = i;
        block(true);
    }
}

/// The current thread has finished: wake joiners and pass the baton on for good.
pub unsafe fn finished() {
    let me = CUR;
    T[me].st = St::Done;
    for i in 0..N {
        if T[i].st == St::Join && T[i].join == me {
            T[i].st = St::Runnable;
        }
    }
    mix(((me as u64) << 8) | 4);
    block(false);
}

pub fn publish() {
    if let Some(reg) = r() {
        unsafe {
            reg.steps = cov::EDGES;
            reg.atomics = cov::ATOMICS;
            reg.sched_hash = HASH;
            reg.vtime = now();
            if crate::alloc::PEAK > (1 << 40) {
                reg.peak_mem = crate::alloc::PEAK - (1 << 40);
            }
        }
    }
}
