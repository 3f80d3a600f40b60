//! C25: the single-threaded build against the parallel one.
use super::groth::{blind, knobs, place};
use crate::engine::{Fld, Fr, A};
use crate::faults::{BaseFault, Req, REQS};
use crate::r1cs::{Ckt, Fail, Op, Spec, Toxic};
use crate::smallfield::Fr as Fs;
use crate::util::*;
use ff::PrimeField;
use simrt::rng::Rng;
use simrt::{count, fail, phase, set_sample, w};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub mod par {
    use bellman as b;
    use groth16 as g;
    include!("twin_body.rs");
}
pub mod ser {
    use bellman_serial as b;
    use groth16_serial as g;
    include!("twin_body.rs");
}

/// An encoded proof and the public inputs claimed for it.
pub type Item = (Vec<u8>, Vec<Fr>);

#[derive(Clone, Debug)]
pub enum DomOp<F> {
    Fft,
    Ifft,
    CosetFft,
    IcosetFft,
    Powers(F),
    DivZ,
    Mul(Vec<F>),
    Sub(Vec<F>),
    Z(F),
}

#[derive(Clone, Debug)]
pub enum Fault {
    None,
    /// No fault, random blinding from this seed.
    Random(u64),
    Request(Req, BaseFault),
    Stream(usize, usize, BaseFault, bool),
    /// No fault, but through the simulated source.
    Healthy,
}

/// Runs both builds on the same workload and compares what they yield.
fn both<T: PartialEq + Debug + Send>(what: &str, detail: &str, p: impl FnOnce() -> T + Send, s: impl FnOnce() -> T) -> Option<T> {
    phase(&format!("{} in parallel", what));
    let a = place(false, || catch_unwind(AssertUnwindSafe(p)).ok());
    phase(&format!("{} single-threaded", what));
    let b = catch_unwind(AssertUnwindSafe(s)).ok();
    phase("");
    match (&a, &b) {
        (None, None) => count("probe:both-panic"),
        (Some(_), None) => fail("panics-serially", format!("{} of {}: the single-threaded build panics, the parallel one does not", what, detail)),
        (None, Some(_)) => fail("panics-in-parallel", format!("{} of {}: the parallel build panics, the single-threaded one does not", what, detail)),
        (Some(x), Some(y)) if x != y => {
            let (x, y) = (format!("{:?}", x), format!("{:?}", y));
            let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            let cut = |s: &str| s.chars().skip(at.saturating_sub(10)).take(60).collect::<String>();
            fail("results-differ", format!("{} of {}: parallel ..{}.., single-threaded ..{}..", what, detail, cut(&x), cut(&y)))
        }
        _ => count("oracle:same-result"),
    }
    a
}

fn size(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.below(4) as usize,
        1 | 2 => r.below(20) as usize,
        3 => (1 << r.below(8)) + r.below(3) as usize - r.below(2) as usize,
        4 => r.below(300) as usize,
        5 => 256 + r.below(900) as usize,
        _ => r.below(70) as usize,
    }
}

fn domains<F: Fld>(points: bool, r: &mut Rng) {
    let n = size(r);
    let vals: Vec<F> = (0..n).map(|_| fe::<F>(r)).collect();
    let m = n.max(1).next_power_of_two();
    let mut ops = vec![];
    for _ in 0..1 + r.below(6) {
        let other = |r: &mut Rng| -> Vec<F> {
            // sometimes of another length, which both must refuse
            let k = if r.below(12) == 0 { m * 2 } else { m };
            (0..k).map(|_| fe::<F>(r)).collect()
        };
        ops.push(match r.below(9) {
            0 => DomOp::Fft,
            1 => DomOp::Ifft,
            2 => DomOp::CosetFft,
            3 => DomOp::IcosetFft,
            4 => DomOp::Powers(fe::<F>(r)),
            5 => DomOp::DivZ,
            6 => DomOp::Mul(other(r)),
            7 => DomOp::Sub(other(r)),
            _ => DomOp::Z(fe::<F>(r)),
        });
    }
    let d = format!("{} elements", n);
    set_sample(&format!("domain operations over {}", d));
    simrt::region::mix_state(n as u64 ^ vals.iter().fold(0, |a, x| (a ^ fhash(x)).rotate_left(3)));
    both("domain operations", &d, || par::domain(points, &vals, &ops), || ser::domain(points, &vals, &ops));
}

fn fault_kind(r: &mut Rng) -> BaseFault {
    use std::io::ErrorKind::*;
    match r.below(4) {
        0 => BaseFault::Eof,
        1 => BaseFault::Identity,
        2 => BaseFault::Io(TimedOut),
        _ => BaseFault::Io(Other),
    }
}

fn multiexps<F: Fld>(r: &mut Rng) {
    let n = size(r);
    let density: Option<Vec<bool>> = match r.below(3) {
        0 => None,
        1 => Some((0..n).map(|_| r.below(2) == 0).collect()),
        _ => Some((0..n).map(|_| r.below(8) != 0).collect()),
    };
    let need = density.as_ref().map(|d| d.iter().filter(|x| **x).count()).unwrap_or(n);
    let skip = r.below(4) as usize;
    let odd = r.below(4);
    let len = if odd == 0 { (skip + need).saturating_sub(r.below(3) as usize) } else { skip + need + r.below(3) as usize };
    let bases: Vec<A<F, 1>> = (0..len)
        .map(|_| {
            if odd == 1 && r.below(40) == 0 {
                A(F::ZERO)
            } else {
                let v = full::<F>(r);
                A(if v.is_zero_vartime() { F::ONE } else { v })
            }
        })
        .collect();
    let mut exps: Vec<F> = (0..n).map(|_| fe::<F>(r)).collect();
    if density.is_some() && odd == 2 && r.below(6) == 0 {
        // does not fit the density: both must refuse
        exps.push(F::ONE);
    }
    let own = r.below(2) == 0;
    let fault = if own && r.below(2) == 0 {
        count("fault:source-error");
        Some((skip + r.below(need as u64 + 1) as usize, fault_kind(r), r.below(2) == 0))
    } else {
        None
    };
    let d = format!("{} exponents, {} bases from {}, fault {:?}", n, len, skip, fault);
    set_sample(&format!("multiexp of {}", d));
    simrt::region::mix_state((n as u64) << 20 ^ len as u64 ^ exps.iter().fold(0, |a, x| (a ^ fhash(x)).rotate_left(3)));
    let bases = Arc::new(bases);
    both(
        "multi-exponentiation",
        &d,
        || par::mexp(&bases, skip, density.as_deref(), &exps, fault, own),
        || ser::mexp(&bases, skip, density.as_deref(), &exps, fault, own),
    );
}

fn systems(r: &mut Rng) {
    let mut k = knobs();
    k.loose = r.below(6) == 0;
    let spec = Arc::new(Spec::random(k));
    simrt::region::mix_state(spec.fingerprint());
    let d = spec.describe();
    set_sample(&d);
    let mut tox = Toxic::random(r);
    match r.below(12) {
        0 => tox.gamma = Fr::from(0),
        1 => tox.delta = Fr::from(0),
        _ => {}
    }
    let wit = Arc::new(simrt::quiet(|| spec.assign(r)));
    let failing = |r: &mut Rng, assignments: bool| -> Option<Fail> {
        if r.below(5) != 0 {
            return None;
        }
        let steps: Vec<usize> = (0..spec.ops.len()).filter(|i| matches!(spec.ops[*i], Op::Step)).collect();
        match r.below(3) {
            0 if !steps.is_empty() => Some(Fail::Step(steps[r.below(steps.len() as u64) as usize], r.below(5) as u8)),
            1 if assignments && !spec.vars.is_empty() => Some(Fail::Closure(r.below(spec.vars.len() as u64) as usize, r.below(5) as u8)),
            _ if assignments && !spec.vars.is_empty() => Some(Fail::Assignment(r.below(spec.vars.len() as u64) as usize)),
            _ => None,
        }
    };
    let mk = |wit: Option<&Arc<Vec<Fr>>>, f: &Option<Fail>| {
        let mut c = Ckt::new(&spec, wit);
        c.fail = *f;
        c
    };
    let f = failing(r, false);
    let enc = if r.below(3) == 0 {
        let seed = r.next();
        both("random parameters", &d, || par::generate_random(mk(None, &f), seed), || ser::generate_random(mk(None, &f), seed))
    } else {
        both("parameters", &d, || par::generate(mk(None, &f), &tox), || ser::generate(mk(None, &f), &tox))
    };
    let enc = match enc {
        Some(Ok(e)) => e,
        _ => return,
    };
    if r.below(4) == 0 {
        let mut bad = enc.clone();
        damage(&mut bad, r);
        let checked = r.below(2) == 0;
        both("reading parameters", &d, || par::reencode(2, &bad, checked), || ser::reencode(2, &bad, checked));
    }
    let mut items: Vec<Item> = vec![];
    let public = spec.public(&wit);
    for _ in 0..1 + r.below(3) {
        let f = failing(r, true);
        let fault = match r.below(8) {
            0 | 1 => Fault::None,
            2 => Fault::Healthy,
            3 => Fault::Random(r.next()),
            4 => {
                count("fault:parameter-request-error");
                Fault::Request(REQS[r.below(6) as usize], fault_kind(r))
            }
            _ => {
                count("fault:source-error");
                Fault::Stream(r.below(8) as usize, r.below(spec.n_aux as u64 + 3) as usize, fault_kind(r), r.below(2) == 0)
            }
        };
        let short = if r.below(5) == 0 { r.next() & 31 } else { 0 };
        let (x, y) = (blind(r), blind(r));
        let mut v = wit.clone();
        if r.below(5) == 0 && !spec.vars.is_empty() {
            let mut o = (*wit).clone();
            let i = r.below(o.len() as u64) as usize;
            o[i] += Fr::from(1);
            v = Arc::new(o);
        }
        let p = both(
            "a proof",
            &format!("{} with {:?}, {:?}, shortened {}", d, fault, f, short),
            || par::prove(mk(Some(&v), &f), &enc, short, &fault, x, y),
            || ser::prove(mk(Some(&v), &f), &enc, short, &fault, x, y),
        );
        if let Some(Ok(mut p)) = p {
            let mut x = public.clone();
            match r.below(8) {
                0 => damage(&mut p, r),
                1 if !x.is_empty() => {
                    let i = r.below(x.len() as u64) as usize;
                    x[i] += Fr::from(1);
                }
                2 => x.push(Fr::from(1)),
                _ => {}
            }
            if r.below(4) == 0 {
                both("reading a proof", &d, || par::reencode(0, &p, true), || ser::reencode(0, &p, true));
            }
            items.push((p, x));
        }
    }
    let seed = r.next();
    if r.below(8) == 0 {
        let mut bad = enc.clone();
        damage(&mut bad, r);
        both("reading a key", &d, || par::reencode(1, &bad, true), || ser::reencode(1, &bad, true));
    }
    // the encoding of the parameters starts with the verifying key
    both("verdicts", &d, || par::verify(&enc, &items, seed), || ser::verify(&enc, &items, seed));
}

fn damage(b: &mut Vec<u8>, r: &mut Rng) {
    count("fault:damaged-bytes");
    let n = b.len() as u64;
    if n == 0 {
        return;
    }
    match r.below(3) {
        0 => b.truncate(r.below(n) as usize),
        1 => b[r.below(n) as usize] ^= 1 << r.below(8),
        _ => {
            let i = r.below(n) as usize;
            b[i] = 0xff;
        }
    }
}

/// Circuits at the limit of the small field's domains.
fn degrees(r: &mut Rng) {
    let n = [0, 1, 2, 3, 511, 512, 1022, 1023, 1024, 1025, 2047][r.below(11) as usize];
    let vals: Vec<Fs> = (0..n).map(|_| fe::<Fs>(r)).collect();
    let ops = vec![DomOp::Fft, DomOp::IcosetFft];
    set_sample(&format!("domain of {}", n));
    simrt::region::mix_state(n as u64);
    both("domain operations", &format!("{} elements", n), || par::domain(false, &vals, &ops), || ser::domain(false, &vals, &ops));
    let _ = Fs::S;
}

pub fn c25() {
    let np = pool(9) + if w(8) == 7 { 8 } else { 0 };
    std::env::set_var("RAYON_NUM_THREADS", np.to_string());
    let kind = w(24);
    let mut r = rng();
    let r = &mut r;
    match kind {
        0..=2 => domains::<Fr>(r.below(4) == 0, r),
        3..=5 => domains::<Fs>(false, r),
        6..=8 => multiexps::<Fr>(r),
        9..=10 => multiexps::<Fs>(r),
        11..=12 => {
            let n = size(r);
            let vals: Vec<u64> = (0..7).map(|_| r.next()).collect();
            let nest = r.below(2) == 0;
            set_sample(&format!("worker over {} elements", n));
            simrt::region::mix_state(n as u64 ^ vals[0]);
            both("work", &format!("{} elements", n), || par::worker(n, &vals, nest), || ser::worker(n, &vals, nest));
        }
        13 => degrees(r),
        14 => {
            let msg: Vec<u8> = (0..r.below(3)).map(|_| r.next() as u8).collect();
            let hash = r.below(4) == 0;
            let x = if r.below(4) == 0 { 0 } else { r.next() };
            set_sample("gadgets");
            simrt::region::mix_state(x ^ (msg.len() as u64) << 40);
            both("gadgets", &format!("{} bytes", msg.len()), || par::gadgets(&msg, x, hash), || ser::gadgets(&msg, x, hash));
        }
        _ => systems(r),
    }
}
