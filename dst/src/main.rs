#![allow(dead_code, clippy::all)]
#[global_allocator]
static GLOBAL: simrt::alloc::Counting = simrt::alloc::Counting;

mod byz;
mod driver;
mod engine;
mod faults;
mod gprog;
mod props;
mod r1cs;
mod smallfield;
mod util;
mod zp;

use driver::{Dirs, Prop};

const REAL: &str = "bellman, groth16, rayon, rayon-core, crossbeam-* and std's own synchronisation, all compiled from source or as shipped and run unmodified";
const STUB: &str = "OS scheduler (baton scheduler), futex, thread creation and join, clock, sleep and OS randomness";

fn props() -> Vec<Prop> {
    let mk = |id, scenario, quick, rule| Prop { id, scenario, quick, rule, real: REAL, stub: STUB, assumptions: &[] };
    vec![
        mk("C01", props::worker::c01 as fn(), 40_000, "one run = random programs of submit/wait/scope/nested submit on 1-4 caller threads over 1-8 pool threads under one seeded schedule; non-trivial = at least one context switch or fault and at least one oracle comparison; distinct = different (interleaving, workload) fingerprint"),
        mk("C02", props::worker::c02, 20_000, "one run = histories of load with failing closures, then rounds in which all pool threads are stalled while callers submit beyond the limit; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C03", props::worker::c03, 40_000, "one run = random sequence of submitting, dropping handles at chosen moments, panicking closures and waits inside the pool; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C04", props::math::c04, 40_000, "one run = a random program of domain operations on vectors of 0-32768 elements over three kinds of field or group, called from a caller thread, a pool task or several scope tasks, pools of 1-17 threads; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C05", props::math::c05, 20_000, "one run = 1-3 inputs, each multiplied 1-3 times concurrently through stock and simulated sources; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C06", props::math::c06, 20_000, "one run = 1-4 concurrent multiexps whose sources fail at a chosen element and pass (I/O error, end, identity) or not at all, then a retry; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C07", props::groth::c07, 30_000, "one run = a random circuit and trapdoor (sometimes degenerate), generated by 1-3 callers at once with and without witness, outside or inside the pool; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C08", props::groth::c08, 10_000, "one run = a random circuit, 1-3 concurrent proofs with random witnesses and blinding from stored or streamed parameters; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C09", props::groth::c09, 40_000, "one run = a random circuit and up to 18 honest or deviating statements verified by 1-3 callers; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C10", props::groth::c10, 10_000, "one run = 1-3 concurrent proofs whose parameter source fails at chosen requests or elements, is truncated or degenerate, or is healthy, then a retry; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C11", props::groth::c11, 10_000, "one run = 1-3 rounds of a synthesis failing at a chosen assignment or step, in generation, proving and testing, then a retry; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C12", props::codec::c12, 80_000, "one run = 1-3 proofs written and read 1-4 times through streams with short transfers, interrupts, errors and disk-full, intact or damaged (truncation, flips, identities, hostile counts); non-trivial = at least one fault and one oracle comparison; distinct = different workload fingerprint"),
        mk("C13", props::codec::c13, 60_000, "one run = a verifying key written and read 1-4 times through streams with short transfers, interrupts, errors and disk-full, intact or damaged (truncation, flips, identities, hostile counts); non-trivial = at least one fault and one oracle comparison; distinct = different workload fingerprint"),
        mk("C14", props::codec::c14, 30_000, "one run = a parameter set written and read 1-4 times through streams with short transfers, interrupts, errors and disk-full, intact or damaged (truncation, flips, identities, hostile counts); non-trivial = at least one fault and one oracle comparison; distinct = different workload fingerprint"),
        mk("C15", props::deploy::c15, 10_000, "one run = one history of an authority, 1-2 provers (one may be byzantine), 1-2 verifiers and a client with 1-4 requests under one seeded sequence of message, disk and crash faults; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C16", props::groth::c16, 60_000, "one run = a batch of 0-40 honest, altered, repeated and mutually cancelling items with a healthy or stuck generator; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C17", props::groth::c17, 10_000, "one run = a session of 1-4 generate/prove/fail operations on one recorded stream, repeated on the same and on another stream; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C18", props::gadgets::c18, 3_000, "one run = a random program of gadgets synthesized with two witnesses, without one, in the testing constraint system, and (some runs) set up, proved and verified; non-trivial and distinct as counted by program fingerprint"),
        mk("C19", props::gadgets::c19, 50_000, "one run = a random program of boolean gadgets over one of eight fields, its honest synthesis, up to seven strategies of a byzantine prover and dropped witnesses; non-trivial = at least one fault and one oracle comparison; distinct = different program fingerprint"),
        mk("C20", props::gadgets::c20, 6_000, "one run = a random program of word and batched-equality gadgets over one of six fields, its honest synthesis, up to seven strategies of a byzantine prover and dropped witnesses; non-trivial = at least one fault and one oracle comparison; distinct = different program fingerprint"),
        mk("C21", props::gadgets::c21, 10_000, "one run = a random program of number gadgets over one of fifteen fields, its honest synthesis, up to seven strategies of a byzantine prover and dropped witnesses; non-trivial = at least one fault and one oracle comparison; distinct = different program fingerprint"),
        mk("C22", props::gadgets::c22, 10_000, "one run = a random program of lookups and packings over one of nine fields, its honest synthesis, up to seven strategies of a byzantine prover and dropped witnesses; non-trivial = at least one fault and one oracle comparison; distinct = different program fingerprint"),
        mk("C23", props::gadgets::c23, 150, "one run = one or two SHA-256 circuits (and three all-constant ones of up to 400 bytes) over a message of 0-200 bytes of variables, constants, negations and repetitions over one of four fields, honest synthesis, 2-5 strategies of a byzantine prover and a dropped witness; non-trivial = at least one fault and one oracle comparison; distinct = different program fingerprint"),
        mk("C24", props::gadgets::c24, 150, "one run = a BLAKE2s circuit (and three all-constant ones of up to 400 bytes) over a message of 0-200 bytes of variables, constants, negations and repetitions over one of four fields, honest synthesis, 2-5 strategies of a byzantine prover and a dropped witness; non-trivial = at least one fault and one oracle comparison; distinct = different program fingerprint"),
        mk("C25", props::serial::c25, 12_000, "one run = one workload of domain operations, multi-exponentiations, worker calls, gadgets, or generation, proving, reading and verifying (with failing circuits, faulty parameter sources and damaged bytes), executed by the parallel build under one seeded schedule and pool size and by the single-threaded build; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C26", props::groth::c26, 28_000, "one run = 2-5 callers, 1-3 operations each, their own keys, batches and encodings included, (some failing, panicking or abandoned) over shared parameters; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C27", props::testcs::c27, 20_000, "one run = a history of 1-60 allocations (some failing), constraints, namespaces, overwrites and queries over one of seven fields, rebuilt with differences and ended by a name clash, or a random circuit whose overwritten assignments are judged and proved; non-trivial = at least one fault and one oracle comparison; distinct = different workload fingerprint"),
        mk("C29", props::release::c29, 10_000, "one run = 1-3 callers with 1-5 operations each (proofs, generations, multi-exponentiations, submissions, scopes, batches) that succeed, fail, panic or are abandoned, or one operation repeated 40 times under heap accounting; non-trivial and distinct as counted by interleaving and workload fingerprint"),
        mk("C28", props::groth::c28, 40_000, "one run = a batch of 0-90 honest, altered, repeated and mutually cancelling items verified over the pool by 1-3 callers, with operating-system randomness that is interrupted, short or zero for a while; non-trivial and distinct as counted by interleaving and workload fingerprint"),
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let dirs = Dirs { evidence: format!("{}/evidence", verif), replays: format!("{}/replays", verif) };
    let base = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let ps = props();
    let find = |id: &str| ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    });
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&dirs, find(&a[2]), &tier, base),
        Some("selftest") => {
            let n = a.get(3).and_then(|v| v.parse().ok()).unwrap_or(50);
            let mut rc = 0;
            for p in &ps {
                if a[2] == "all" || a[2] == p.id {
                    rc |= driver::selftest(p, base, n);
                }
            }
            rc
        }
        Some("replay") => match driver::read_replay(&a[2]) {
            None => {
                eprintln!("cannot read {}", a[2]);
                2
            }
            Some((id, class, w, s)) => {
                let p = find(&id);
                let reg = simrt::region::alloc_region();
                let o = simrt::run::execute(
                    reg,
                    simrt::run::Mode::Tapes(&w, &s),
                    &simrt::run::Opts { step_limit: driver::STEP_LIMIT, wall_limit_s: 120, core: Some(0), keep_tapes: true },
                    &p.scenario,
                );
                print!("{}", o.notes);
                match o.class {
                    Some(c) => {
                        println!("{}: {}", c, o.detail);
                        if c != class {
                            println!("(recorded class was {})", class);
                        }
                        println!("VIOLATION property={} replay={}", id, a[2]);
                        1
                    }
                    None => {
                        println!("the recorded execution does not violate {} on this tree", id);
                        (o.harness.is_some() || o.inconclusive) as i32 * 2
                    }
                }
            }
        },
        Some("one") => {
            let p = find(&a[2]);
            let idx: u64 = a[3].parse().unwrap();
            let reg = simrt::region::alloc_region();
            let t = std::time::Instant::now();
            let o = simrt::run::execute(
                reg,
                simrt::run::Mode::Fresh(driver::seed_of(base, p.id, idx)),
                &simrt::run::Opts { step_limit: driver::STEP_LIMIT, wall_limit_s: 120, core: Some(0), keep_tapes: true },
                &p.scenario,
            );
            println!("{:?} {} {:?} inc={} steps={} sw={} w={} s={} {:?}\n{}\n{:?}", o.class, o.detail, o.harness, o.inconclusive, o.steps, o.switches, o.w.len(), o.s.len(), t.elapsed(), o.sample, o.ctr);
            print!("{}", o.notes);
            0
        }
        Some("list") => {
            for p in &ps {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|selftest|replay|one ...");
            2
        }
    };
    std::process::exit(rc);
}
