//! One run = one forked process.  The caller gets back what the run recorded in
//! the shared region plus how the process ended.
use crate::region::{self, get, put, r, Region};
use crate::rng::Rng;
use crate::sched;

static mut W_RNG: Rng = crate::rng::zero_rng();
static mut W_REPLAY: *const u64 = core::ptr::null();
static mut W_REPLAY_LEN: usize = 0;
static mut W_POS: usize = 0;

/// Draws one workload or fault decision in `0..bound` (`bound` 0 = full 64 bits).
/// 0 is by convention the simplest, least faulty choice.
pub fn w(bound: u64) -> u64 {
    if bound == 1 {
        return 0;
    }
    unsafe {
        let reg = r().expect("w() outside a run");
        let v = if W_REPLAY.is_null() {
            W_RNG.below(bound)
        } else if W_POS < W_REPLAY_LEN {
            let v = *W_REPLAY.add(W_POS);
            W_POS += 1;
            if bound != 0 {
                v.min(bound - 1)
            } else {
                v
            }
        } else {
            0
        };
        let at = reg.wlen as usize;
        if at < region::WMAX {
            reg.w[at] = v;
            reg.wb[at] = bound;
            reg.wlen += 1;
        } else {
            reg.wover += 1;
            if W_REPLAY.is_null() && reg.wover == 1 {
                harness("workload tape overflow");
            }
        }
        v
    }
}

/// Ends the run with a violation.
pub fn fail_now(class: &str, detail: &str) -> ! {
    unsafe {
        crate::alloc::ON = false;
        if let Some(reg) = r() {
            if reg.status == region::ST_RUNNING {
                let ph = get(&reg.phase);
                put(&mut reg.class, class);
                put(&mut reg.detail, &format!("{} [phase: {}]", detail, ph));
                sched::publish();
                reg.status = region::ST_VIOLATION;
            }
        }
        libc::_exit(3)
    }
}

pub fn fail(class: &str, detail: impl AsRef<str>) -> ! {
    fail_now(class, detail.as_ref())
}

pub fn harness(msg: &str) -> ! {
    unsafe {
        if let Some(reg) = r() {
            put(&mut reg.class, "harness");
            put(&mut reg.detail, msg);
            reg.status = region::ST_HARNESS;
        }
        libc::_exit(4)
    }
}

/// Runs oracle code without preemption (nothing it does is part of the system).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { sched::QUIET -= 1 }
        }
    }
    unsafe { sched::QUIET += 1 };
    let _g = G;
    f()
}

#[derive(Clone)]
pub enum Mode<'a> {
    /// Workload and schedule both drawn from a PRNG with this seed.
    Fresh(u64),
    /// Workload and schedule from recorded tapes.
    Tapes(&'a [u64], &'a [u64]),
    /// Workload from a tape, schedule fresh.
    FreshSched(&'a [u64], u64),
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// None = the property held on this run.
    pub class: Option<String>,
    pub detail: String,
    pub harness: Option<String>,
    pub inconclusive: bool,
    pub phase: String,
    pub sample: String,
    pub steps: u64,
    pub sched_hash: u64,
    pub state_hash: u64,
    pub switches: u64,
    pub preempts: u64,
    pub spurious: u64,
    pub waits: u64,
    pub wakes: u64,
    pub atomics: u64,
    pub vtime: u64,
    pub threads: u64,
    pub digest: [u64; 8],
    pub w: Vec<u64>,
    pub wb: Vec<u64>,
    pub s: Vec<u64>,
    pub ctr: Vec<(String, u64)>,
    pub notes: String,
}

pub struct Opts {
    pub step_limit: u64,
    pub wall_limit_s: u32,
    pub core: Option<usize>,
    pub keep_tapes: bool,
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if let Some(reg) = r() {
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file().rsplit('/').next().unwrap_or("?");
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "non-string panic".into()
            };
            put(&mut reg.panic_msg, &format!("{} at {}", msg, loc));
            if std::env::var("DST_DEBUG").is_ok() {
                eprintln!("panic: {} at {}", msg, loc);
            }
        }
    }));
}

/// The RNG seed for everything not on a tape (policy, schedule draws).
pub fn execute(reg: *mut Region, mode: Mode, opts: &Opts, scenario: &dyn Fn()) -> Outcome {
    unsafe {
        (*reg).reset();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            child(reg, mode, opts, scenario);
        }
        let mut st = 0;
        loop {
            let k = libc::waitpid(pid, &mut st, 0);
            if k == pid {
                break;
            }
        }
        collect(&*reg, st, opts)
    }
}

unsafe fn child(reg: *mut Region, mode: Mode, opts: &Opts, scenario: &dyn Fn()) -> ! {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    if let Some(c) = opts.core {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(c, &mut set);
        libc::sched_setaffinity(0, core::mem::size_of_val(&set), &set);
    }
    libc::signal(libc::SIGALRM, libc::SIG_DFL);
    libc::alarm(opts.wall_limit_s);
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &lim);
    if std::env::var("DST_DEBUG").is_err() {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
        libc::dup2(fd, 1);
    }
    region::REGION = reg;
    let mut replay_s: Option<Vec<u64>> = None;
    let seed = match mode {
        Mode::Fresh(s) => s,
        Mode::FreshSched(w, s) => {
            let v = Box::leak(w.to_vec().into_boxed_slice());
            W_REPLAY = if v.is_empty() { 8 as *const u64 } else { v.as_ptr() };
            W_REPLAY_LEN = v.len();
            s
        }
        Mode::Tapes(w, s) => {
            let v = Box::leak(w.to_vec().into_boxed_slice());
            W_REPLAY = if v.is_empty() { 8 as *const u64 } else { v.as_ptr() };
            W_REPLAY_LEN = v.len();
            replay_s = Some(s.to_vec());
            0
        }
    };
    let mut x = seed;
    W_RNG = Rng::new(crate::rng::splitmix(&mut x));
    let mut prng = Rng::new(crate::rng::splitmix(&mut x));
    let srng = Rng::new(crate::rng::splitmix(&mut x));
    let pol = sched::fresh_policy(&mut prng, 8);
    install_panic_hook();
    let replay_s: Option<&'static [u64]> = replay_s.map(|v| &*Box::leak(v.into_boxed_slice()));
    crate::interpose::init();
    crate::cov::EDGES = 0;
    crate::cov::ATOMICS = 0;
    sched::start(pol, srng, replay_s, opts.step_limit);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(scenario));
    if res.is_err() {
        let msg = get(&(*reg).panic_msg);
        fail_now("panic", &msg);
    }
    sched::publish();
    (*reg).status = region::ST_OK;
    libc::_exit(0)
}

unsafe fn collect(reg: &Region, st: i32, opts: &Opts) -> Outcome {
    let mut o = Outcome {
        phase: get(&reg.phase),
        sample: get(&reg.sample),
        steps: reg.steps,
        sched_hash: reg.sched_hash,
        state_hash: reg.state_hash,
        switches: reg.switches,
        preempts: reg.preempts,
        spurious: reg.spurious,
        waits: reg.waits,
        wakes: reg.wakes,
        atomics: reg.atomics,
        vtime: reg.vtime,
        threads: reg.threads,
        digest: reg.digest,
        ..Default::default()
    };
    for c in &reg.ctr[..reg.nctr as usize] {
        o.ctr.push((get(&c.name), c.n));
    }
    let panic = get(&reg.panic_msg);
    if reg.status == region::ST_VIOLATION {
        o.class = Some(get(&reg.class));
        o.detail = get(&reg.detail);
    } else if reg.status == region::ST_HARNESS {
        o.harness = Some(get(&reg.detail));
    } else if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGALRM || sig == libc::SIGKILL {
            o.inconclusive = true;
            o.detail = format!("wall-clock limit or kill (signal {}) in phase {}", sig, o.phase);
        } else {
            o.class = Some("process-abort".into());
            o.detail = format!("the process died with signal {}; last panic: {} [phase: {}]", sig, panic, o.phase);
        }
    } else if reg.status != region::ST_OK {
        o.class = Some("process-exit".into());
        o.detail = format!("the process exited on its own (status {:#x}); last panic: {} [phase: {}]", st, panic, o.phase);
    }
    if opts.keep_tapes || o.class.is_some() {
        o.w = reg.w[..reg.wlen as usize].to_vec();
        o.wb = reg.wb[..reg.wlen as usize].to_vec();
        o.s = reg.s[..reg.slen as usize].to_vec();
        o.notes = String::from_utf8_lossy(&reg.notes[..reg.note_len as usize]).into_owned();
    }
    o
}

/// Shrinks both tapes while the same violation class persists.
pub fn shrink(
    reg: *mut Region,
    first: &Outcome,
    opts: &Opts,
    max_tries: usize,
    max_wall: std::time::Duration,
    scenario: &dyn Fn(),
) -> (Outcome, usize) {
    let start = std::time::Instant::now();
    let class = first.class.clone();
    let mut best = first.clone();
    let mut tries = 0usize;
    let o = Opts {
        step_limit: opts.step_limit,
        wall_limit_s: opts.wall_limit_s.min(30),
        core: opts.core,
        keep_tapes: true,
    };
    let mut attempt = |w: &[u64], s: &[u64], best: &mut Outcome| -> bool {
        if tries >= max_tries || start.elapsed() > max_wall {
            return false;
        }
        tries += 1;
        let mut x = execute(reg, Mode::Tapes(w, s), &o, scenario);
        if x.class == class && class.is_some() {
            // What was recorded is what is kept; trailing zeros are implied.
            while x.w.last() == Some(&0) {
                x.w.pop();
            }
            while x.s.last() == Some(&0) {
                x.s.pop();
            }
            *best = x;
            true
        } else {
            false
        }
    };
    let f = first.clone();
    // No schedule at all?
    attempt(&f.w, &[], &mut best);
    let mut progress = true;
    let mut rounds = 0;
    while progress && rounds < 4 {
        progress = false;
        rounds += 1;
        for which in 0..2 {
            // zero / delete chunks
            let mut len = if which == 0 { best.w.len() } else { best.s.len() };
            let mut chunk = len.max(1);
            while chunk >= 1 {
                let mut at = 0;
                while at < len {
                    let end = (at + chunk).min(len);
                    let (mut w, mut s) = (best.w.clone(), best.s.clone());
                    let mut ok = false;
                    {
                        let t = if which == 0 { &mut w } else { &mut s };
                        if t[at..end].iter().any(|v| *v != 0) {
                            for v in t[at..end].iter_mut() {
                                *v = 0;
                            }
                            ok = true;
                        }
                    }
                    let mut hit = ok && attempt(&w, &s, &mut best);
                    if !hit {
                        let (mut w, mut s) = (best.w.clone(), best.s.clone());
                        {
                            let t = if which == 0 { &mut w } else { &mut s };
                            t.drain(at..end);
                        }
                        hit = attempt(&w, &s, &mut best);
                        if hit {
                            len = if which == 0 { best.w.len() } else { best.s.len() };
                            progress = true;
                            continue;
                        }
                    } else {
                        progress = true;
                        len = if which == 0 { best.w.len() } else { best.s.len() };
                    }
                    at = end;
                }
                if chunk == 1 || tries_over(start, max_wall) {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
            // lower values
            let n = if which == 0 { best.w.len() } else { best.s.len() };
            for i in 0..n.min(400) {
                loop {
                    let cur = match if which == 0 { best.w.get(i) } else { best.s.get(i) } {
                        Some(v) => *v,
                        None => break,
                    };
                    if cur <= 1 {
                        break;
                    }
                    let (mut w, mut s) = (best.w.clone(), best.s.clone());
                    if which == 0 {
                        w[i] = cur / 2;
                    } else {
                        s[i] = cur / 2;
                    }
                    if !attempt(&w, &s, &mut best) {
                        break;
                    }
                    progress = true;
                }
            }
        }
    }
    drop(attempt);
    (best, tries)
}

fn tries_over(start: std::time::Instant, max: std::time::Duration) -> bool {
    start.elapsed() > max
}
