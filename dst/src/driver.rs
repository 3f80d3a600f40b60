//! Runs many simulated executions of one property's scenario, spread over
//! worker processes, and writes the evidence or the minimised replay file.
use simrt::region::{self, Region};
use simrt::rng::{hash_str, splitmix};
use simrt::run::{execute, shrink, Mode, Opts, Outcome};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn(),
    /// Runs of the quick tier (also bounded by wall clock).
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    done: AtomicU64,
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

pub fn seed_of(base: u64, id: &str, idx: u64) -> u64 {
    let mut x = base ^ hash_str(id) ^ idx.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut x)
}

pub const STEP_LIMIT: u64 = 3_000_000_000;
fn opts(core: Option<usize>, keep: bool) -> Opts {
    Opts { step_limit: STEP_LIMIT, wall_limit_s: 60, core, keep_tapes: keep }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    inconclusive: u64,
    nontrivial: u64,
    sums: [u64; 9],
    ctr: BTreeMap<String, u64>,
    ctr_runs: BTreeMap<String, u64>,
    scheds: HashSet<u64>,
    states: HashSet<u64>,
    cases: HashSet<u64>,
    samples: Vec<(u64, String)>,
    harness: Vec<String>,
    viol: Vec<u64>,
    inc: Vec<String>,
}
const SUMS: [&str; 9] = [
    "instrumented_steps", "virtual_ns", "context_switches", "preemptions", "spurious_wakeups",
    "blocking_waits", "wake_calls", "atomic_operations", "threads_created",
];

impl Stats {
    fn add(&mut self, idx: u64, o: &Outcome) {
        self.runs += 1;
        for (i, v) in [o.steps, o.vtime, o.switches, o.preempts, o.spurious, o.waits, o.wakes, o.atomics, o.threads].iter().enumerate() {
            self.sums[i] += v;
        }
        let mut faults = 0;
        let mut oracle = 0;
        for (k, n) in &o.ctr {
            *self.ctr.entry(k.clone()).or_default() += n;
            *self.ctr_runs.entry(k.clone()).or_default() += 1;
            if k.starts_with("fault:") {
                faults += n;
            }
            if k.starts_with("oracle:") {
                oracle += n;
            }
        }
        if o.switches > 0 {
            self.scheds.insert(o.sched_hash);
        }
        self.states.insert(o.state_hash);
        if oracle > 0 && (faults > 0 || o.switches > 0) {
            self.nontrivial += 1;
            let mut x = o.sched_hash ^ o.state_hash.rotate_left(17);
            self.cases.insert(splitmix(&mut x));
        }
        if o.inconclusive {
            self.inconclusive += 1;
            if self.inc.len() < 3 {
                self.inc.push(format!("run {}: {}", idx, o.detail));
            }
        }
        if let Some(h) = &o.harness {
            self.harness.push(format!("run {}: {}", idx, h));
        }
        if o.class.is_some() {
            self.viol.push(idx);
        }
        if self.samples.len() < 2 && !o.sample.is_empty() {
            self.samples.push((idx, o.sample.clone()));
        }
    }
    fn ser(&self) -> Vec<u8> {
        let mut s = String::new();
        s += &format!("R {} {} {}\n", self.runs, self.inconclusive, self.nontrivial);
        s += "S";
        for v in self.sums {
            s += &format!(" {}", v);
        }
        s += "\n";
        for (k, v) in &self.ctr {
            s += &format!("C {} {} {}\n", v, self.ctr_runs[k], k);
        }
        for (n, set) in [("H", &self.scheds), ("T", &self.states), ("D", &self.cases)] {
            s += n;
            for v in set {
                s += &format!(" {:x}", v);
            }
            s += "\n";
        }
        for (i, v) in &self.samples {
            s += &format!("P {} {}\n", i, v.replace('\n', " "));
        }
        for v in &self.harness {
            s += &format!("E {}\n", v.replace('\n', " "));
        }
        for v in &self.inc {
            s += &format!("I {}\n", v.replace('\n', " "));
        }
        for v in &self.viol {
            s += &format!("V {}\n", v);
        }
        s += "OK\n";
        s.into_bytes()
    }
    fn merge(&mut self, text: &str) -> bool {
        let mut ok = false;
        for line in text.lines() {
            let (t, r) = line.split_at(1.min(line.len()));
            let r = r.trim_start();
            let mut nums = r.split(' ');
            let mut num = || nums.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match t {
                "R" => {
                    self.runs += num();
                    self.inconclusive += num();
                    self.nontrivial += num();
                }
                "S" => {
                    for i in 0..9 {
                        self.sums[i] += num();
                    }
                }
                "C" => {
                    let (a, b) = (num(), num());
                    let k = r.splitn(3, ' ').nth(2).unwrap_or("").to_string();
                    *self.ctr.entry(k.clone()).or_default() += a;
                    *self.ctr_runs.entry(k).or_default() += b;
                }
                "H" | "T" | "D" => {
                    let set = match t {
                        "H" => &mut self.scheds,
                        "T" => &mut self.states,
                        _ => &mut self.cases,
                    };
                    for x in r.split(' ') {
                        if let Ok(v) = u64::from_str_radix(x, 16) {
                            set.insert(v);
                        }
                    }
                }
                "P" => {
                    let i = num();
                    self.samples.push((i, r.splitn(2, ' ').nth(1).unwrap_or("").into()));
                }
                "E" => self.harness.push(r.into()),
                "I" => self.inc.push(r.into()),
                "V" => self.viol.push(num()),
                "O" => ok = true,
                _ => {}
            }
        }
        ok
    }
}

fn ncores() -> usize {
    let n = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) };
    (n.max(1) as usize).min(64)
}

/// Runs `runs` executions over worker processes and merges what they saw.
fn sweep(p: &Prop, base: u64, runs: u64, wall: Duration) -> Stats {
    let sh = shared();
    let start = Instant::now();
    let mut kids = vec![];
    let n = std::env::var("DST_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(ncores);
    for k in 0..n {
        let mut fds = [0i32; 2];
        assert!(unsafe { libc::pipe(fds.as_mut_ptr()) } == 0);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
            }
            let reg = region::alloc_region();
            let mut st = Stats::default();
            let o = opts(Some(k % ncores()), false);
            loop {
                let i = sh.next.fetch_add(1, Ordering::SeqCst);
                if i >= runs || sh.stop.load(Ordering::SeqCst) != 0 || start.elapsed() > wall {
                    break;
                }
                let out = execute(reg, Mode::Fresh(seed_of(base, p.id, i)), &o, &p.scenario);
                st.add(i, &out);
                if out.class.is_some() || st.harness.len() > 0 {
                    sh.stop.store(1, Ordering::SeqCst);
                }
                // Too many runs that gave no answer is itself no answer.
                if out.inconclusive && st.inconclusive >= 3 {
                    break;
                }
            }
            let b = st.ser();
            let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
            let _ = f.write_all(&b);
            drop(f);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let mut st = Stats::default();
    for (pid, fd) in kids {
        let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        if !st.merge(&s) {
            st.harness.push("a worker process died".into());
        }
        let mut x = 0;
        unsafe { libc::waitpid(pid, &mut x, 0) };
    }
    st.viol.sort();
    st
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, base: u64, st: &Stats, wall: f64, explore: f64, violations: usize, extra: &str) -> String {
    let hours = explore.max(0.001) / 3600.0;
    let mut f = String::new();
    for (k, v) in &st.ctr {
        if let Some(n) = k.strip_prefix("fault:") {
            if !f.is_empty() {
                f += ", ";
            }
            f += &format!("{}: {{\"injected\": {}, \"runs\": {}}}", jstr(n), v, st.ctr_runs[k]);
        }
    }
    let group = |pre: &str| {
        let mut s = String::new();
        for (k, v) in &st.ctr {
            if let Some(n) = k.strip_prefix(pre) {
                if !s.is_empty() {
                    s += ", ";
                }
                s += &format!("{}: {}", jstr(n), v);
            }
        }
        format!("{{{}}}", s)
    };
    let mut samples = st.samples.clone();
    samples.sort();
    samples.truncate(8);
    let samples: Vec<String> = samples
        .iter()
        .map(|(i, s)| jstr(&format!("run {} seed {:#x}: {}", i, seed_of(base, p.id, *i), s)))
        .collect();
    let sums: Vec<String> = SUMS.iter().zip(st.sums).map(|(n, v)| format!("{}: {}", jstr(n), v)).collect();
    let asm: Vec<String> = p.assumptions.iter().map(|a| jstr(a)).collect();
    format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"wall_s\": {wall:.2},\n \"violations\": {viol},\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {cases},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"simulated_runs\": {runs},\n  \"runs_with_a_switch_or_fault\": {nontrivial},\n  \"inconclusive_runs\": {inc},\n  \"simulated_runs_per_hour\": {rph:.0},\n  \"seeds_per_hour\": {rph:.0},\n  \"simulated_time_s\": {vt:.6},\n  \"distinct_interleavings\": {sched},\n  \"distinct_interleavings_measure\": \"hash of the sequence of (thread handed the baton, atomic-operation count) over the run\",\n  \"distinct_workload_states\": {states},\n  \"totals\": {{{sums}}},\n  \"faults_injected\": {{{faults}}},\n  \"probes\": {probes},\n  \"oracle_comparisons\": {oracle},\n  \"seams\": {seams},\n  \"components_real\": {real},\n  \"components_stub\": {stub}{extra}\n }},\n \"assumptions\": [{asm}]\n}}\n",
        id = jstr(p.id),
        tier = jstr(tier),
        seed = base,
        wall = wall,
        viol = violations,
        runs = st.runs,
        cases = st.cases.len(),
        rule = jstr(p.rule),
        samples = samples.join(", "),
        nontrivial = st.nontrivial,
        inc = st.inconclusive,
        rph = st.runs as f64 / hours,
        vt = st.sums[1] as f64 / 1e9,
        sched = st.scheds.len(),
        states = st.states.len(),
        sums = sums.join(", "),
        faults = f,
        probes = group("probe:"),
        oracle = group("oracle:"),
        seams = group("seam:"),
        real = jstr(p.real),
        stub = jstr(p.stub),
        extra = extra,
        asm = asm.join(", "),
    )
}

pub struct Dirs {
    pub evidence: String,
    pub replays: String,
}

pub fn write_replay(dirs: &Dirs, p: &Prop, seed: u64, idx: u64, o: &Outcome, tries: usize) -> String {
    let _ = std::fs::create_dir_all(&dirs.replays);
    let path = format!("{}/{}-{:016x}.replay", dirs.replays, p.id, seed);
    let join = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let mut s = String::new();
    s += "# Minimised deterministic replay.  Run: /verif/replay.sh <this file>\n";
    s += &format!("property {}\n", p.id);
    s += &format!("seed {} run {}\n", seed, idx);
    s += &format!("class {}\n", o.class.clone().unwrap_or_default());
    s += &format!("detail {}\n", o.detail.replace('\n', " "));
    s += &format!("case {}\n", o.sample.replace('\n', " "));
    s += &format!("# shrunk in {} attempts to {} workload/fault decisions and {} schedule decisions\n", tries, o.w.len(), o.s.len());
    s += &format!("w {}\n", join(&o.w));
    s += &format!("s {}\n", join(&o.s));
    for l in o.notes.lines().take(400) {
        s += &format!("# event: {}\n", l);
    }
    std::fs::write(&path, s).expect("cannot write the replay file");
    path
}

pub fn read_replay(path: &str) -> Option<(String, String, Vec<u64>, Vec<u64>)> {
    let t = std::fs::read_to_string(path).ok()?;
    let (mut id, mut class, mut w, mut s) = (String::new(), String::new(), vec![], vec![]);
    for l in t.lines() {
        let mut it = l.splitn(2, ' ');
        let (k, v) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        let nums = |v: &str| v.split(' ').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
        match k {
            "property" => id = v.into(),
            "class" => class = v.into(),
            "w" => w = nums(v),
            "s" => s = nums(v),
            _ => {}
        }
    }
    Some((id, class, w, s))
}

/// Re-executes a violating run, minimises it and prints the verdict line.
pub fn report(dirs: &Dirs, p: &Prop, idx: u64, seed: u64, reg: *mut Region) -> bool {
    let o = opts(Some(0), true);
    let first = execute(reg, Mode::Fresh(seed), &o, &p.scenario);
    if first.class.is_none() {
        eprintln!("harness error: run {} (seed {:#x}) did not reproduce its violation", idx, seed);
        return false;
    }
    eprintln!("violation in run {} seed {:#x}: {:?}: {}", idx, seed, first.class, first.detail);
    let (best, tries) = shrink(reg, &first, &o, 600, Duration::from_secs(25), &p.scenario);
    let path = write_replay(dirs, p, seed, idx, &best, tries);
    println!("{}: {}", best.class.clone().unwrap_or_default(), best.detail);
    println!("VIOLATION property={} replay={}", p.id, path);
    true
}

pub fn check(dirs: &Dirs, p: &Prop, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let quick = tier != "thorough";
    let env = |n: &str| std::env::var(n).ok().and_then(|v| v.parse::<u64>().ok());
    let runs = env("DST_RUNS").unwrap_or(if quick { p.quick } else { u64::MAX });
    let wall = Duration::from_secs(env("DST_WALL").unwrap_or(if quick { 150 } else { 780 }));
    println!("seed {} property {} tier {}", base, p.id, tier);
    let st = sweep(p, base, runs, wall);
    let explore = t0.elapsed().as_secs_f64();
    let reg = region::alloc_region();
    let mut viol = 0;
    let mut herr = false;
    if let Some(&i) = st.viol.first() {
        if report(dirs, p, i, seed_of(base, p.id, i), reg) {
            viol = 1;
        } else {
            herr = true;
        }
    }
    let _ = std::fs::create_dir_all(&dirs.evidence);
    let tier = if quick { "quick" } else { "thorough" };
    let ev = evidence(p, tier, base, &st, t0.elapsed().as_secs_f64(), explore, viol, "");
    std::fs::write(format!("{}/{}.json", dirs.evidence, p.id), ev).expect("cannot write evidence");
    println!(
        "{}: {} runs, {} distinct non-trivial, {} distinct interleavings, {} inconclusive, {:.1} s",
        p.id,
        st.runs,
        st.cases.len(),
        st.scheds.len(),
        st.inconclusive,
        t0.elapsed().as_secs_f64()
    );
    if viol > 0 {
        return 1;
    }
    for h in st.harness.iter().take(5) {
        eprintln!("harness error: {}", h);
        herr = true;
    }
    for h in st.inc.iter().take(5) {
        eprintln!("inconclusive: {}", h);
    }
    if st.inconclusive * 20 > st.runs {
        herr = true;
        eprintln!("harness error: more than 5% of the runs were inconclusive");
    }
    if herr {
        2
    } else {
        0
    }
}

/// Every seed twice in fresh processes, on different cores, plus a tape replay:
/// all three executions must agree on everything observable.
pub fn selftest(p: &Prop, base: u64, n: u64) -> i32 {
    let reg = region::alloc_region();
    let nc = ncores();
    let mut bad = 0;
    for i in 0..n {
        let seed = seed_of(base, p.id, i);
        let a = execute(reg, Mode::Fresh(seed), &opts(Some(i as usize % nc), true), &p.scenario);
        let b = execute(reg, Mode::Fresh(seed), &opts(None, true), &p.scenario);
        let c = execute(reg, Mode::Tapes(&a.w, &a.s), &opts(Some((i as usize + 3) % nc), true), &p.scenario);
        let key = |o: &Outcome| (o.class.clone(), o.detail.clone(), o.sched_hash, o.state_hash, o.steps, o.atomics, o.w.clone(), o.s.clone(), o.ctr.clone(), o.notes.clone());
        if key(&a) != key(&b) || key(&a) != key(&c) {
            bad += 1;
            println!("{} run {} seed {:#x} not deterministic: steps {} {} {} sched {:x} {:x} {:x}", p.id, i, seed, a.steps, b.steps, c.steps, a.sched_hash, b.sched_hash, c.sched_hash);
        }
        if a.class.is_some() || a.harness.is_some() || a.inconclusive {
            println!("{} run {}: {:?} {} {:?}", p.id, i, a.class, a.detail, a.harness);
        }
    }
    println!("{} selftest: {} seeds x 3 executions, {} non-deterministic", p.id, n, bad);
    (bad > 0) as i32
}
