//! C07-C11, C16, C17, C26: the Groth16 system over the discrete-log engine.
use crate::engine::{Fr, Sim, A, P};
use crate::faults::*;
use crate::r1cs::*;
use crate::util::*;
use bellman::{SynthesisError, VerificationError};
use ff::{Field, PrimeField};
use groth16::{batch, create_proof, create_random_proof, generate_parameters, generate_random_parameters, prepare_verifying_key, verify_proof};
use groth16::{Parameters, Proof, VerifyingKey};
use simrt::rng::Rng;
use simrt::{count, fail, phase, quiet, set_sample, w};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub fn knobs() -> Knobs {
    let (inputs, aux, extra) = match w(80) {
        0..=47 => (3, 8, 5),
        48..=55 => (0, 5, 4),
        56..=62 => (12, 20, 10),
        63..=70 => (3, 60, 30),
        71..=76 => (1, 2, 1),
        77 => (70, 10, 10),
        78 => (20, 350, 150),
        // now and then beyond a thousand variables and constraints
        _ => [(5, 1400, 300), (300, 40, 300), (6, 200, 1200)][w(3) as usize],
    };
    Knobs { inputs, aux, extra, odd: w(3) > 0, loose: false }
}

/// A circuit with exact parameters computed by the model.
#[derive(Clone)]
pub struct Setup {
    pub spec: Arc<Spec>,
    pub tox: Toxic,
    pub q: Arc<Qap>,
    pub params: Arc<Parameters<Sim>>,
}

pub fn setup(k: Knobs) -> Option<Setup> {
    let spec = Arc::new(Spec::random(k));
    simrt::region::mix_state(spec.fingerprint());
    let mut r = rng();
    quiet(|| {
        let tox = Toxic::random(&mut r);
        let q = spec.qap(tox.tau);
        match crs(&q, &tox) {
            Ok(p) => Some(Setup { spec, tox, q: Arc::new(q), params: Arc::new(p) }),
            Err(_) => {
                count("probe:refused-circuit");
                None
            }
        }
    })
}

pub struct Wit {
    pub v: Arc<Vec<Fr>>,
    pub public: Vec<Fr>,
}
impl Setup {
    pub fn wit(&self, r: &mut Rng) -> Wit {
        quiet(|| {
            let v = self.spec.assign(r);
            if let Some(i) = self.spec.violated(&v) {
                simrt::run::harness(&format!("the harness built an assignment that violates constraint {}", i));
            }
            Wit { public: self.spec.public(&v), v: Arc::new(v) }
        })
    }
    pub fn want(&self, x: &Wit, r: Fr, s: Fr) -> Proof<Sim> {
        quiet(|| model_proof(&self.q, &self.tox, &vector(&self.spec, &x.v), r, s))
    }
    pub fn ckt(&self, x: &Wit) -> Ckt {
        Ckt::new(&self.spec, Some(&x.v))
    }
}

pub fn blind(r: &mut Rng) -> Fr {
    match r.below(6) {
        0 => Fr::ZERO,
        1 => Fr::ONE,
        2 => -Fr::ONE,
        _ => full(r),
    }
}

fn same_err(a: &SynthesisError, b: &SynthesisError) -> bool {
    err_name(a) == err_name(b)
}

/// Runs f on this thread, another thread or (if `pool`) inside the pool or a pool of the caller's own.
pub fn place<T: Send>(pool: bool, f: impl FnOnce() -> T + Send) -> T {
    match w(if pool { 4 } else { 2 }) {
        0 => f(),
        1 => std::thread::scope(|s| match s.spawn(f).join() {
            Ok(v) => v,
            Err(p) => std::panic::resume_unwind(p),
        }),
        3 => own_pool(f),
        _ => {
            let mut out = None;
            let o = &mut out;
            bellman::multicore::Worker::new().scope(1, move |s, _| s.spawn(move |_| *o = Some(f())));
            out.unwrap()
        }
    }
}

// ----------------------------------------------------------------------- C07

fn gen_with(spec: &Arc<Spec>, wit: Option<&Arc<Vec<Fr>>>, t: &Toxic) -> (Result<Parameters<Sim>, SynthesisError>, usize) {
    let c = Ckt::new(spec, wit);
    let asked = c.asked.clone();
    let r = generate_parameters::<Sim, _>(c, P(t.g1), P(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau);
    (r, asked.load(SeqCst))
}

pub fn c07() {
    pool(8);
    if w(60) == 59 {
        return big_degree();
    }
    let mut k = knobs();
    k.loose = w(4) == 3;
    let spec = Arc::new(Spec::random(k));
    simrt::region::mix_state(spec.fingerprint());
    set_sample(&spec.describe());
    let mut r = rng();
    let mut tox = Toxic::random(&mut r);
    match w(12) {
        8 => tox.gamma = Fr::ZERO,
        9 => tox.delta = Fr::ZERO,
        10 => tox.delta = -Fr::ONE,
        11 => tox.g1 = Fr::ONE,
        _ => {}
    }
    let (q, want) = quiet(|| {
        let q = spec.qap(tox.tau);
        let want = crs(&q, &tox);
        (q, want)
    });
    let n = 1 + w(3);
    let wit = Arc::new(quiet(|| spec.assign(&mut r)));
    let go = |i: u64| {
        let wit = if i % 2 == 1 { Some(&wit) } else { None };
        let (got, asked) = gen_with(&spec, wit, &tox);
        if asked != 0 {
            fail("witness-used", format!("parameter generation invoked {} assignment closures of a {}", asked, spec.describe()));
        }
        quiet(|| match (&got, &want) {
            (Ok(g), Ok(m)) => {
                if let Some(d) = diff_params(g, m) {
                    fail("wrong-parameters", format!("{}: {}", spec.describe(), d));
                }
                if g.vk.ic.len() != spec.n_in + 1 {
                    fail("wrong-parameters", "verifying key length");
                }
                count("oracle:crs");
            }
            (Ok(_), Err(e)) => fail("not-refused", format!("a {} that must be refused with {:?} was accepted", spec.describe(), e)),
            (Err(e), Ok(_)) => fail("refused", format!("a {} was refused with {}", spec.describe(), err_name(e))),
            (Err(e), Err(m)) => {
                if !m.iter().any(|x| *x == err_name(e)) {
                    fail("wrong-error", format!("a {} that must be refused with {:?} was refused with {}", spec.describe(), m, err_name(e)));
                }
                count("fault:unusable-circuit-or-trapdoor");
                count("oracle:refusal");
            }
        });
    };
    phase("generate");
    if n == 1 {
        place(true, || go(w(2)));
    } else {
        let go = &go;
        std::thread::scope(|s| {
            for i in 0..n {
                s.spawn(move || go(i));
            }
        });
    }
    let _ = q;
}

/// The domain of the small field has 1024 elements at most.
fn big_degree() {
    use crate::smallfield::Fr as Fs;
    type Small = crate::engine::DlEngine<Fs>;
    struct Rows(usize, Fs);
    impl bellman::Circuit<Fs> for Rows {
        fn synthesize<CS: bellman::ConstraintSystem<Fs>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
            let x = cs.alloc(|| "x", || Ok(self.1))?;
            for _ in 0..self.0 {
                cs.enforce(|| "row", |l| l + x, |l| l + CS::one(), |l| l + x);
            }
            Ok(())
        }
    }
    let n = [1024, 1023, 1030, 511, 2000, 100, 2047, 2048][w(8) as usize];
    let mut r = rng();
    let mut nzs = || loop {
        let v = full::<Fs>(&mut r);
        if !v.is_zero_vartime() && v != Fs::ONE {
            return v;
        }
    };
    let max = 1usize << Fs::S;
    phase("generate a large circuit");
    count("fault:degree-limit");
    let (g1, g2, a, b, g, d, t) = (nzs(), nzs(), nzs(), nzs(), nzs(), nzs(), nzs());
    let p = generate_parameters::<Small, _>(Rows(n, Fs::ONE), P(g1), P(g2), a, b, g, d, t);
    // rows of the circuit plus the row of the constant
    match (&p, n + 1 > max) {
        (Err(SynthesisError::PolynomialDegreeTooLarge), true) => {}
        (Ok(_), true) => fail("not-refused", format!("{} constraints were accepted although the field has only {} roots of unity", n, max)),
        (Err(e), true) => fail("wrong-error", format!("too many constraints were reported as {}", err_name(e))),
        (Err(SynthesisError::PolynomialDegreeTooLarge), false) if n + 1 <= max / 2 => {
            fail("refused", format!("{} constraints were refused", n))
        }
        _ => {}
    }
    count("oracle:refusal");
}

// ----------------------------------------------------------------------- C08

fn check_requests(s: &Setup, log: &[(Req, usize, usize)]) {
    let q = &s.q;
    let nzc = |v: &[Fr]| v.iter().filter(|x| !bool::from(x.is_zero())).count();
    let (n_in, n_aux) = (q.n_in, q.a.len() - q.n_in);
    let want = [
        (Req::Vk, n_in, 0),
        (Req::H, q.m - 1, 0),
        (Req::L, n_aux, 0),
        (Req::A, n_in, nzc(&q.a[n_in..])),
        (Req::B1, nzc(&q.b[..n_in]), nzc(&q.b[n_in..])),
        (Req::B2, nzc(&q.b[..n_in]), nzc(&q.b[n_in..])),
    ];
    for r in log {
        if !want.contains(r) {
            fail("wrong-request", format!("the prover asked for {:?} instead of {:?} for a {}", r, want.iter().find(|x| x.0 == r.0), s.spec.describe()));
        }
    }
    for r in &want {
        if !log.contains(r) {
            fail("wrong-request", format!("the prover never asked for {:?}", r));
        }
    }
    count("oracle:requests");
}

fn diff_proof(a: &Proof<Sim>, b: &Proof<Sim>) -> Option<&'static str> {
    if a.a != b.a {
        Some("element A")
    } else if a.b != b.b {
        Some("element B")
    } else if a.c != b.c {
        Some("element C")
    } else {
        None
    }
}

pub fn c08() {
    pool(8);
    let s = match setup(knobs()) {
        Some(s) => s,
        None => return,
    };
    set_sample(&s.spec.describe());
    let n = 1 + w(3);
    let jobs: Vec<(u64, u64, u64)> = (0..n).map(|_| (w(0), w(4), w(5))).collect();
    let go = |(seed, style, slow): (u64, u64, u64)| {
        let mut r = Rng::new(seed);
        let x = s.wit(&mut r);
        let (rr, ss) = (blind(&mut r), blind(&mut r));
        let want = s.want(&x, rr, ss);
        let c = s.ckt(&x);
        phase("prove");
        let got = if style < 2 {
            create_proof::<Sim, _, _>(c, &*s.params, rr, ss)
        } else {
            let mut p = SimParams::new(&s.params);
            p.style = style - 2;
            p.slow = slow;
            let log = p.log.clone();
            let g = create_proof::<Sim, _, _>(c, p, rr, ss);
            let l = log.lock().unwrap().clone();
            if g.is_ok() {
                quiet(|| check_requests(&s, &l));
            }
            g
        };
        let got = match got {
            Err(e) => fail("honest-proof-failed", format!("proving a {} failed with {}", s.spec.describe(), err_name(&e))),
            Ok(p) => p,
        };
        if let Some(d) = diff_proof(&got, &want) {
            fail("wrong-proof", format!("{} of the proof of a {} is wrong", d, s.spec.describe()));
        }
        count("oracle:proof");
        phase("verify");
        if let Err(e) = verify_proof(&prepare_verifying_key(&s.params.vk), &got, &x.public) {
            fail("honest-proof-rejected", format!("{:?}", e));
        }
        let mut b = batch::Verifier::new();
        b.queue((&got, &x.public[..]));
        if let Err(e) = b.verify(SRng(&mut r), &s.params.vk) {
            fail("honest-proof-rejected", format!("by the batch verifier: {:?}", e));
        }
        count("oracle:verified");
    };
    if n == 1 {
        place(false, || go(jobs[0]));
    } else {
        let go = &go;
        std::thread::scope(|sc| {
            for j in &jobs {
                sc.spawn(move || go(*j));
            }
        });
    }
}

// ----------------------------------------------------------------------- C09

/// One adversarial or honest statement.
pub struct Stmt {
    pub what: &'static str,
    pub vk: VerifyingKey<Sim>,
    pub proof: Proof<Sim>,
    pub inputs: Vec<Fr>,
    /// The statement is known to be false (or true) for reasons other than the
    /// equation.
    pub known: Option<bool>,
}

pub struct World {
    s: Setup,
    wits: Vec<(Wit, Proof<Sim>)>,
    other: Option<VerifyingKey<Sim>>,
}

pub fn world(r: &mut Rng) -> Option<World> {
    let s = setup(knobs())?;
    let mut wits = vec![];
    for _ in 0..2 {
        let x = s.wit(r);
        let p = s.want(&x, blind(r), blind(r));
        wits.push((x, p));
    }
    let other = quiet(|| {
        let t = Toxic::random(r);
        crs(&s.spec.qap(t.tau), &t).ok().map(|p| p.vk)
    });
    Some(World { s, wits, other })
}

impl World {
    /// A statement about this circuit, honest or not.
    pub fn stmt(&self, r: &mut Rng, real_prover: bool) -> Stmt {
        let i = r.below(self.wits.len() as u64) as usize;
        let (x, p) = &self.wits[i];
        let other = &self.wits[(i + 1) % self.wits.len()].1;
        let mut st = Stmt { what: "honest", vk: self.s.params.vk.clone(), proof: p.clone(), inputs: x.public.clone(), known: Some(true) };
        let d = loop {
            let d = fe::<Fr>(r);
            if !bool::from(d.is_zero()) {
                break d;
            }
        };
        let k = r.below(26);
        if k > 3 {
            count("fault:deviating-prover");
            st.known = None;
        }
        match k {
            4 => {
                st.what = "A shifted";
                st.proof.a.0 += d
            }
            5 => {
                st.what = "B shifted";
                st.proof.b.0 += d
            }
            6 => {
                st.what = "C shifted";
                st.proof.c.0 += d
            }
            7 => {
                st.what = "A and C swapped";
                std::mem::swap(&mut st.proof.a, &mut st.proof.c)
            }
            8 => {
                st.what = "A of another proof";
                st.proof.a = other.a
            }
            9 => {
                st.what = "B of another proof";
                st.proof.b = other.b
            }
            10 => {
                st.what = "C of another proof";
                st.proof.c = other.c
            }
            11 => {
                st.what = "the proof of another statement";
                st.proof = other.clone()
            }
            12 => {
                st.what = "one element negated";
                match r.below(3) {
                    0 => st.proof.a.0 = -st.proof.a.0,
                    1 => st.proof.b.0 = -st.proof.b.0,
                    _ => st.proof.c.0 = -st.proof.c.0,
                }
            }
            13 => {
                st.what = "re-randomised by scaling";
                st.proof.a.0 *= d;
                st.proof.b.0 *= d.invert().unwrap();
                st.known = Some(true);
            }
            14 => {
                st.what = "an element is the identity";
                match r.below(4) {
                    0 => st.proof.a.0 = Fr::ZERO,
                    1 => st.proof.b.0 = Fr::ZERO,
                    2 => st.proof.c.0 = Fr::ZERO,
                    _ => st.proof = Proof { a: A(Fr::ZERO), b: A(Fr::ZERO), c: A(Fr::ZERO) },
                }
            }
            15 if !st.inputs.is_empty() => {
                st.what = "an input changed";
                let j = r.below(st.inputs.len() as u64) as usize;
                st.inputs[j] += d;
            }
            16 if st.inputs.len() > 1 => {
                st.what = "inputs reordered";
                let j = r.below(st.inputs.len() as u64 - 1) as usize;
                st.inputs.swap(j, j + 1);
            }
            17 => {
                st.what = "an input too few";
                st.known = Some(false);
                if st.inputs.pop().is_none() {
                    st.inputs.push(Fr::ZERO);
                }
            }
            18 => {
                st.what = "inputs too many";
                st.known = Some(false);
                for _ in 0..1 + r.below(3) {
                    st.inputs.push(if r.below(2) == 0 { Fr::ZERO } else { d });
                }
            }
            19 | 20 => {
                st.what = "a proof from an assignment that violates a constraint";
                let mut v = (*x.v).clone();
                for _ in 0..1 + r.below(2) {
                    if v.is_empty() {
                        break;
                    }
                    let j = r.below(v.len() as u64) as usize;
                    v[j] += d;
                }
                let bad = self.s.spec.violated(&v).is_some();
                st.inputs = self.s.spec.public(&v);
                let y = Wit { v: Arc::new(v), public: st.inputs.clone() };
                let (a, b) = (blind(r), blind(r));
                if real_prover {
                    match create_proof::<Sim, _, _>(self.s.ckt(&y), &*self.s.params, a, b) {
                        Ok(p) => st.proof = p,
                        Err(_) => {
                            count("probe:prover-refused");
                            st.what = "honest";
                            st.inputs = x.public.clone();
                            st.known = Some(true);
                            return st;
                        }
                    }
                } else {
                    st.proof = self.s.want(&y, a, b);
                }
                // the model prover does not divide by z, so it would cheat
                st.known = if real_prover || !bad { Some(!bad) } else { None };
            }
            21 => {
                if let Some(vk) = &self.other {
                    st.what = "another key of the same circuit";
                    st.vk = vk.clone();
                    st.known = None;
                }
            }
            22 => {
                st.what = "a key with other commitments";
                match r.below(4) {
                    0 => {
                        st.vk.ic.pop();
                        st.inputs.pop();
                    }
                    1 => {
                        st.vk.ic.push(A(d));
                        st.inputs.push(fe(r));
                    }
                    2 => {
                        st.vk.ic.clear();
                        st.inputs.clear();
                    }
                    _ => st.vk.ic.reverse(),
                }
            }
            23 => {
                st.what = "a key with altered elements";
                match r.below(6) {
                    0 => std::mem::swap(&mut st.vk.gamma_g2, &mut st.vk.delta_g2),
                    1 => st.vk.gamma_g2.0 = Fr::ZERO,
                    2 => st.vk.delta_g2.0 = Fr::ZERO,
                    3 => st.vk.alpha_g1.0 += d,
                    4 => st.vk.beta_g2.0 += d,
                    _ => {
                        // not part of the equation
                        st.vk.beta_g1.0 += d;
                        st.vk.delta_g1.0 = Fr::ZERO;
                        st.known = Some(true);
                    }
                }
            }
            24 | 25 => {
                st.what = "forged with the trapdoor for arbitrary inputs";
                for v in st.inputs.iter_mut() {
                    *v = fe(r);
                }
                let (a, b) = (full::<Fr>(r), full::<Fr>(r));
                let mut acc = st.vk.ic[0].0;
                for (i, v) in st.inputs.iter().zip(&st.vk.ic[1..]) {
                    acc += v.0 * i;
                }
                let c = (a * b - st.vk.alpha_g1.0 * st.vk.beta_g2.0 - acc * st.vk.gamma_g2.0) * st.vk.delta_g2.0.invert().unwrap();
                st.proof = Proof { a: A(a), b: A(b), c: A(c) };
                st.known = Some(true);
                if k == 25 {
                    st.what = "nearly forged with the trapdoor";
                    st.proof.c.0 += d;
                    st.known = Some(false);
                }
            }
            _ => {}
        }
        st
    }
}

pub fn verdict(st: &Stmt) -> Result<(), &'static str> {
    if st.inputs.len() + 1 != st.vk.ic.len() {
        Err("InvalidVerifyingKey")
    } else if equation(&st.vk, &st.proof, &st.inputs) {
        Ok(())
    } else {
        Err("InvalidProof")
    }
}
fn vname(r: &Result<(), VerificationError>) -> Result<(), &'static str> {
    match r {
        Ok(()) => Ok(()),
        Err(VerificationError::InvalidVerifyingKey) => Err("InvalidVerifyingKey"),
        Err(VerificationError::InvalidProof) => Err("InvalidProof"),
    }
}

pub fn c09() {
    pool(6);
    let mut r = rng();
    let wd = match world(&mut r) {
        Some(x) => x,
        None => return,
    };
    set_sample(&wd.s.spec.describe());
    let n = 1 + w(3);
    let seeds: Vec<u64> = (0..n).map(|_| w(0)).collect();
    let go = |seed: u64| {
        let mut r = Rng::new(seed);
        for _ in 0..1 + r.below(6) {
            phase("deviate");
            let st = wd.stmt(&mut r, true);
            phase("verify");
            let pvk = prepare_verifying_key(&st.vk);
            let got = vname(&verify_proof(&pvk, &st.proof, &st.inputs));
            let want = quiet(|| verdict(&st));
            if got != want {
                fail(
                    if got.is_ok() { "unsound" } else { "rejected" },
                    format!("{}: verification says {:?}, the equation says {:?} ({} inputs, key of {})", st.what, got, want, st.inputs.len(), st.vk.ic.len()),
                );
            }
            if let Some(k) = st.known {
                if k != got.is_ok() {
                    fail(if got.is_ok() { "unsound" } else { "rejected" }, format!("{}: verification says {:?}", st.what, got));
                }
            }
            count(if got.is_ok() { "oracle:accepted" } else { "oracle:rejected" });
        }
    };
    if n == 1 {
        go(seeds[0]);
    } else {
        let go = &go;
        std::thread::scope(|s| {
            for x in &seeds {
                s.spawn(move || go(*x));
            }
        });
    }
}

// ----------------------------------------------------------------------- C10

/// Breaks the parameters themselves; returns the errors it must lead to.
fn damage(p: &mut Parameters<Sim>, r: &mut Rng) -> Vec<BaseFault> {
    fn cut<G: Clone>(v: &mut Arc<Vec<G>>, r: &mut Rng) -> bool {
        if v.is_empty() {
            return false;
        }
        let n = if r.below(2) == 0 { v.len() - 1 } else { r.below(v.len() as u64) as usize };
        Arc::make_mut(v).truncate(n);
        true
    }
    match r.below(7) {
        0 => {
            p.vk.delta_g1.0 = Fr::ZERO;
            vec![BaseFault::Identity]
        }
        1 => {
            p.vk.delta_g2.0 = Fr::ZERO;
            vec![BaseFault::Identity]
        }
        k => {
            let ok = match k {
                2 => cut(&mut p.h, r),
                3 => cut(&mut p.l, r),
                4 => cut(&mut p.a, r),
                5 => cut(&mut p.b_g1, r),
                _ => cut(&mut p.b_g2, r),
            };
            if ok {
                count("fault:truncated-parameters");
                vec![BaseFault::Eof]
            } else {
                vec![]
            }
        }
    }
}

fn one_c10(s: &Setup, seed: u64) {
    let mut r = Rng::new(seed);
    let x = s.wit(&mut r);
    let (rr, ss) = (blind(&mut r), blind(&mut r));
    let want = s.want(&x, rr, ss);
    let kind = r.below(8);
    let mut expected: Vec<BaseFault> = vec![];
    let mut params = (*s.params).clone();
    let mut certain = false;
    if kind < 3 {
        expected = damage(&mut params, &mut r);
        certain = !expected.is_empty();
        if certain && expected[0] == BaseFault::Identity {
            count("fault:identity-delta");
        }
    }
    let params = Arc::new(params);
    let (res, hit) = if kind == 0 || kind == 1 {
        phase("prove with stored parameters");
        (create_proof::<Sim, _, _>(s.ckt(&x), &*params, rr, ss), certain)
    } else {
        let mut p = SimParams::new(&params);
        p.slow = r.below(7);
        // Views of separate vectors end exactly where the query ends.
        p.style = if certain { 0 } else { r.below(2) };
        p.next_only = r.below(4) == 0;
        let n = if certain { r.below(2) } else { r.below(3) };
        for _ in 0..n {
            let f = match r.below(6) {
                0 => BaseFault::Eof,
                1 => BaseFault::Identity,
                2 => BaseFault::Io(KINDS[r.below(8) as usize]),
                3 => BaseFault::Io(std::io::ErrorKind::TimedOut),
                _ => BaseFault::Io(std::io::ErrorKind::Other),
            };
            expected.push(f);
            p.faults.push(if r.below(3) == 0 {
                ParamFault::Request(REQS[r.below(6) as usize], f)
            } else {
                let id = r.below(8) as usize;
                let len = match id {
                    0 => params.h.len(),
                    1 => params.l.len(),
                    2 | 3 => params.a.len(),
                    4 | 5 => params.b_g1.len(),
                    _ => params.b_g2.len(),
                };
                let at = r.below(len as u64 + 1) as usize;
                ParamFault::Stream(id, at, f, if r.below(2) == 0 { None } else { Some(r.below(8) as usize) })
            });
        }
        let (hits, failed) = (p.hits.clone(), p.requests_failed.clone());
        phase("prove with a failing source");
        let g = create_proof::<Sim, _, _>(s.ckt(&x), p, rr, ss);
        let hit = hits.hits.load(SeqCst) > 0 || !failed.lock().unwrap().is_empty();
        (g, hit || certain)
    };
    match (&res, hit) {
        (Ok(_), true) => fail("fault-swallowed", format!("the parameter source failed ({:?}) but proving a {} returned a proof", expected, s.spec.describe())),
        (Err(e), false) => fail("spurious-error", format!("no fault was met but proving a {} failed with {}", s.spec.describe(), err_name(e))),
        (Err(e), true) => {
            if !expected.iter().any(|f| f.matches(e)) {
                fail("wrong-error", format!("the parameter source failed with {:?} but proving reported {}", expected, err_name(e)));
            }
            count("oracle:error-kind");
        }
        (Ok(p), false) => {
            if let Some(d) = diff_proof(p, &want) {
                fail("wrong-proof", d);
            }
            count("oracle:proof");
        }
    }
    if hit {
        phase("retry with a healthy source");
        let g = if r.below(2) == 0 {
            create_proof::<Sim, _, _>(s.ckt(&x), &*s.params, rr, ss)
        } else {
            create_proof::<Sim, _, _>(s.ckt(&x), SimParams::new(&s.params), rr, ss)
        };
        match g {
            Ok(p) if diff_proof(&p, &want).is_none() => count("oracle:recovered"),
            Ok(_) => fail("wrong-proof", "the retry after a failed source gives another proof"),
            Err(e) => fail("no-recovery", format!("the retry with a healthy source failed with {}", err_name(&e))),
        }
    }
}

pub fn c10() {
    pool(8);
    let s = match setup(knobs()) {
        Some(s) => s,
        None => return,
    };
    set_sample(&s.spec.describe());
    let n = 1 + w(3);
    let seeds: Vec<u64> = (0..n).map(|_| w(0)).collect();
    if n == 1 {
        one_c10(&s, seeds[0]);
    } else {
        let s = &s;
        std::thread::scope(|sc| {
            for x in &seeds {
                sc.spawn(move || one_c10(s, *x));
            }
        });
    }
}

// ----------------------------------------------------------------------- C11

pub fn c11() {
    if w(4) == 3 {
        return super::gadgets::c11_gadgets();
    }
    pool(6);
    let s = match setup(knobs()) {
        Some(s) => s,
        None => return,
    };
    set_sample(&s.spec.describe());
    let mut r = rng();
    let x = s.wit(&mut r);
    let rounds = 1 + w(3);
    for _ in 0..rounds {
        let nv = s.spec.vars.len() as u64;
        let f = match w(3) {
            0 if nv > 0 => Fail::Assignment(r.below(nv) as usize),
            1 if nv > 0 => Fail::Closure(r.below(nv) as usize, r.below(5) as u8),
            _ => Fail::Step(r.below(s.spec.ops.len() as u64 + 1) as usize, r.below(5) as u8),
        };
        let want: Option<SynthesisError> = match f {
            Fail::Assignment(_) => Some(SynthesisError::AssignmentMissing),
            Fail::Closure(_, e) => Some(mk_err(e)),
            Fail::Step(i, e) if i < s.spec.ops.len() => Some(mk_err(e)),
            _ => None,
        };
        let structural = matches!(f, Fail::Step(..));
        let mut c = s.ckt(&x);
        c.fail = Some(f);
        // Generation needs no witness.
        phase("generate");
        let t = &s.tox;
        let g = generate_parameters::<Sim, _>(c.clone(), P(t.g1), P(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau);
        match (&g, &want) {
            (Err(e), Some(m)) if structural && same_err(e, m) => count("oracle:error"),
            (Ok(p), m) if !structural || m.is_none() => {
                if let Some(d) = diff_params(p, &s.params) {
                    fail("wrong-parameters", format!("{:?}: {}", f, d));
                }
                count("oracle:crs");
            }
            (Ok(_), _) => fail("fault-swallowed", format!("generation ignored {:?}", f)),
            (Err(e), _) => fail("wrong-error", format!("generation of a circuit failing with {:?} reported {}", f, err_name(e))),
        }
        phase("prove");
        let (rr, ss) = (blind(&mut r), blind(&mut r));
        let p = if r.below(2) == 0 {
            create_proof::<Sim, _, _>(c.clone(), &*s.params, rr, ss)
        } else {
            create_random_proof::<Sim, _, _, _>(c.clone(), &*s.params, &mut SRng(&mut r))
        };
        match (&p, &want) {
            (Err(e), Some(m)) if same_err(e, m) => count("oracle:error"),
            (Ok(_), None) => {}
            (Ok(_), Some(_)) => fail("fault-swallowed", format!("a proof was created although the circuit failed with {:?}", f)),
            (Err(e), _) => fail("wrong-error", format!("proving a circuit failing with {:?} reported {}", f, err_name(e))),
        }
        phase("record");
        use bellman::Circuit;
        let mut rec = Rec::<Fr>::new(Mode::Witness);
        let q = c.clone().synthesize(&mut rec);
        if !rec.ns.is_empty() {
            fail("namespace-left-open", format!("{} namespaces were not left after {:?}", rec.ns.len(), f));
        }
        if q.is_err() != want.is_some() {
            simrt::run::harness("the circuit of the harness did not fail as told");
        }
        phase("test");
        let mut tcs = bellman::gadgets::test::TestConstraintSystem::<Fr>::new();
        let q = c.clone().synthesize(&mut tcs);
        match (&q, &want) {
            (Err(e), Some(m)) if same_err(e, m) => count("oracle:error"),
            (Ok(()), None) => {}
            _ => fail("wrong-error", format!("the testing constraint system turned {:?} into {:?}", f, q.map_err(|e| err_name(&e)))),
        }
        // Restored: everything works again.
        c.fail = None;
        phase("retry");
        let want = s.want(&x, rr, ss);
        match create_proof::<Sim, _, _>(c, &*s.params, rr, ss) {
            Ok(p) => {
                if let Some(d) = diff_proof(&p, &want) {
                    fail("wrong-proof", format!("after a failed synthesis: {}", d));
                }
                if verify_proof(&prepare_verifying_key(&s.params.vk), &p, &x.public).is_err() {
                    fail("honest-proof-rejected", "after a failed synthesis");
                }
                count("oracle:recovered");
            }
            Err(e) => fail("no-recovery", format!("the restored circuit failed with {}", err_name(&e))),
        }
    }
}

// ----------------------------------------------------------------------- C16

pub fn c16() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
    batches(false)
}

/// C28: the parallel batch verifier, which the crate's own manifest declares no
/// feature for, built from the same sources.
pub fn c28() {
    pool(9);
    batches(true)
}

fn batches(parallel: bool) {
    let mut r = rng();
    let wd = match world(&mut r) {
        Some(x) => x,
        None => return,
    };
    let vk = if w(12) == 11 { wd.other.clone().unwrap_or_else(|| wd.s.params.vk.clone()) } else { wd.s.params.vk.clone() };
    if w(8) == 7 {
        return guessed(&wd, parallel, &mut r);
    }
    let n = match w(8) {
        0 => 0,
        1 => 1,
        6 if parallel => 8 * (1 + w(6)) as usize,
        7 => match w(12) {
            // around sizes at which an implementation might split or count differently
            11 => [255, 256, 257, 300, 512, 520, 1025, 2050][w(8) as usize],
            _ => w(if parallel { 90 } else { 40 }) as usize,
        },
        _ => w(10) as usize,
    };
    // all honest, many bad items, or nothing bad but what is planted below
    let mode = w(5);
    let (honest, sparse) = (mode == 0, mode >= 3);
    let mut items: Vec<(Proof<Sim>, Vec<Fr>)> = vec![];
    while items.len() < n {
        let i = r.below(wd.wits.len() as u64) as usize;
        let (x, p) = &wd.wits[i];
        if honest || sparse || r.below(3) > 0 {
            items.push((p.clone(), x.public.clone()));
        } else {
            let st = wd.stmt(&mut r, false);
            if st.inputs.len() == x.public.len() || r.below(4) == 0 {
                items.push((st.proof, st.inputs));
            }
        }
    }
    // A place in the batch: anywhere, or towards either end.
    let place = |r: &mut Rng, n: usize| match r.below(4) {
        0 => n - 1 - r.below(n.min(3) as u64) as usize,
        1 => r.below(n.min(9) as u64) as usize,
        _ => r.below(n as u64) as usize,
    };
    if sparse && !items.is_empty() && r.below(2) == 0 {
        count("fault:single-bad-item");
        let i = place(&mut r, items.len());
        match r.below(4) {
            0 => items[i].0.c.0 += full::<Fr>(&mut r),
            1 if !items[i].1.is_empty() => {
                let k = r.below(items[i].1.len() as u64) as usize;
                items[i].1[k] += full::<Fr>(&mut r);
            }
            _ => {
                let st = wd.stmt(&mut r, false);
                if st.inputs.len() == items[i].1.len() || r.below(4) == 0 {
                    items[i] = (st.proof, st.inputs);
                }
            }
        }
    }
    // Errors that would cancel if the coefficients were equal, related or zero.
    else if items.len() > 1 && !honest && w(3) > 0 {
        count("fault:cancelling-items");
        let m = items.len();
        let i = place(&mut r, m);
        let mut j = place(&mut r, m);
        // how a verifier might tie its coefficients together
        let g = [8, 2, 4, 16][(r.below(8) as usize).min(3)].min(m);
        let hyp = if r.below(2) == 0 { 0 } else { r.below(9) };
        if r.below(2) == 0 {
            j = i % g + g * r.below((m - i % g + g - 1) as u64 / g as u64) as usize;
        }
        if i == j {
            j = (i + 1) % m;
        }
        if r.below(2) == 0 {
            // neighbours: the same base statement
            let (x, p) = &wd.wits[0];
            items[i] = (p.clone(), x.public.clone());
            items[j] = (p.clone(), x.public.clone());
        }
        let odd = fe::<Fr>(&mut r);
        let weight = |i: usize| -> Fr {
            let f = |x: usize| Fr::from(x as u64);
            let two = |x: usize| (0..x).fold(Fr::ONE, |a, _| a.double());
            match hyp {
                0 => Fr::ONE,
                1 => f(i + 1),
                2 => f(i / g + 1),
                3 => f(i % g + 1),
                4 => f(i / g + 1) * f(i % g + 1),
                5 => two(i),
                6 => two(i / g),
                7 => f(i + 1).square(),
                _ if i == 0 => odd,
                _ => Fr::ONE,
            }
        };
        let d = full::<Fr>(&mut r);
        let (ei, ej) = (d * weight(j), -d * weight(i));
        match r.below(4) {
            0 => {
                items[i].0.c.0 += ei;
                items[j].0.c.0 += ej;
            }
            1 if !items[i].1.is_empty() && !items[j].1.is_empty() => {
                items[i].1[0] += ei;
                items[j].1[0] += ej;
            }
            2 => {
                let (bi, bj) = (items[i].0.b.0, items[j].0.b.0);
                items[i].0.a.0 += ei * bj;
                items[j].0.a.0 += ej * bi;
            }
            _ => {
                // spread over the whole batch
                let mut sum = Fr::ZERO;
                for k in 0..m - 1 {
                    let e = fe::<Fr>(&mut r);
                    sum += e * weight(k);
                    items[k].0.c.0 += e;
                }
                let last: Option<Fr> = weight(m - 1).invert().into();
                items[m - 1].0.c.0 -= sum * last.unwrap_or(Fr::ONE);
            }
        }
    }
    if w(2) == 1 {
        // order and repetition
        for i in (1..items.len()).rev() {
            items.swap(i, r.below(i as u64 + 1) as usize);
        }
        if !items.is_empty() && r.below(2) == 0 {
            let k = items[r.below(items.len() as u64) as usize].clone();
            items.push(k);
            count("probe:repeated-item");
        }
    }
    set_sample(&format!("batch of {} over a {}", items.len(), wd.s.spec.describe()));
    simrt::region::mix_state(items.len() as u64);
    let each: Vec<Result<(), &str>> = items
        .iter()
        .map(|(p, x)| verdict(&Stmt { what: "", vk: vk.clone(), proof: p.clone(), inputs: x.clone(), known: None }))
        .collect();
    if each.iter().any(|x| x.is_err()) {
        count("fault:invalid-item");
    }
    let want = if each.iter().any(|x| *x == Err("InvalidVerifyingKey")) {
        Err("InvalidVerifyingKey")
    } else if each.iter().any(|x| x.is_err()) {
        Err("InvalidProof")
    } else {
        Ok(())
    };
    if parallel {
        return multicore(&vk, &items, &each, want, &mut r);
    }
    let pvk = prepare_verifying_key(&vk);
    let mut b = if r.below(2) == 0 { batch::Verifier::new() } else { batch::Verifier::default() };
    for (i, (p, x)) in items.iter().enumerate() {
        let it: batch::Item<Sim> = if r.below(2) == 0 { (p, &x[..]).into() } else { (p.clone(), x.clone()).into() };
        let v = vname(&it.clone().verify_single(&pvk));
        if v != each[i] {
            fail("single-verdict", format!("item {} of {} verified alone gives {:?} instead of {:?}", i, items.len(), v, each[i]));
        }
        b.queue(it);
    }
    let zeros = w(3) == 2;
    let mode = if zeros { 1 } else { 0 };
    let mut g = FaultyRng::new(r.next(), mode, [8, 16, 3, 40, 8 * items.len() as u64][r.below(5) as usize]);
    phase("batch verify");
    let got = vname(&if r.below(2) == 0 { b.verify(&mut g, &vk) } else { b.verify(g, &vk) });
    if got != want {
        fail(
            if got.is_ok() { "unsound" } else { "rejected" },
            format!("a batch of {} ({} invalid) gives {:?} instead of {:?}", items.len(), each.iter().filter(|x| x.is_err()).count(), got, want),
        );
    }
    count("oracle:batch");
    count(if got.is_ok() { "probe:batch-accepted" } else { "probe:batch-rejected" });
}

/// An adversary who knows some bytes of the verifier's randomness in advance must not gain
/// anything unless they are all of it: two invalid items whose errors cancel if the weights were
/// made of a few bytes, or did not depend on some byte.
fn guessed(wd: &World, parallel: bool, r: &mut Rng) {
    let (x, p) = &wd.wits[0];
    let vk = wd.s.params.vk.clone();
    let it = |e: Fr| (Proof::<Sim> { c: { let mut c = p.c; c.0 += e; c }, ..p.clone() }, x.public.clone());
    let judge = |p: &Proof<Sim>, x: &Vec<Fr>| verdict(&Stmt { what: "", vk: vk.clone(), proof: p.clone(), inputs: x.clone(), known: None });
    if judge(p, &x.public).is_err() {
        return;
    }
    let mut script: Vec<u8> = (0..256).map(|_| r.next() as u8).collect();
    let d = nz(r);
    let (items, what) = if r.below(2) == 0 {
        // weights of a few bytes, read in a row or once per larger draw
        let width = [1usize, 2, 4, 8][r.below(4) as usize];
        let stride = *[width, 8, 16, 32, 64].iter().filter(|s| **s >= width).nth(r.below(2) as usize).unwrap();
        let z = |i: usize| {
            let mut b = [0u8; 8];
            b[..width].copy_from_slice(&script[i * stride..][..width]);
            Fr::from(u64::from_le_bytes(b))
        };
        let (z0, z1) = (z(0), z(1));
        let items = if parallel {
            // powers of one weight
            vec![it(d * z0), it(-d)]
        } else {
            vec![it(d * z1), it(-d * z0)]
        };
        (items, format!("the first {} of every {} bytes of randomness are known", width, stride))
    } else {
        let at = r.below(64) as usize;
        let (a, b) = script.split_at_mut(64);
        b[..64].copy_from_slice(a);
        b[at] ^= 1 + r.below(255) as u8;
        let apart = if parallel { 8 } else { 1 };
        let mut items: Vec<_> = (0..2 * apart).map(|_| it(Fr::ZERO)).collect();
        let k = r.below(apart as u64) as usize;
        items[k] = it(d);
        items[k + apart] = it(-d);
        (items, format!("the weights differ in byte {} of their randomness", at))
    };
    let each: Vec<_> = items.iter().map(|(p, x)| judge(p, x)).collect();
    if each.iter().all(|x| x.is_ok()) {
        return;
    }
    count("fault:known-randomness");
    set_sample(&format!("batch of {}: {}", items.len(), what));
    phase("batch verify with known randomness");
    let ok = if parallel {
        use groth16_multicore as gm;
        let vk = &gm::VerifyingKey::<Sim> {
            alpha_g1: vk.alpha_g1,
            beta_g1: vk.beta_g1,
            beta_g2: vk.beta_g2,
            gamma_g2: vk.gamma_g2,
            delta_g1: vk.delta_g1,
            delta_g2: vk.delta_g2,
            ic: vk.ic.clone(),
        };
        let mut b = gm::batch::Verifier::<Sim>::new();
        for (p, x) in &items {
            b.queue((gm::Proof { a: p.a, b: p.b, c: p.c }, x.clone()));
        }
        simrt::interpose::os_random_script(script);
        let v = b.verify_multicore(vk).is_ok();
        simrt::interpose::os_random_script(vec![]);
        v
    } else {
        let mut b = batch::Verifier::new();
        for x in items.iter() {
            b.queue(x.clone());
        }
        b.verify(Script(script, r.next()), &vk).is_ok()
    };
    if ok {
        fail("guessable-weights", format!("a batch with invalid items was accepted by an adversary's plan: {}", what));
    }
    count("oracle:batch-known-randomness");
}

/// Returns given bytes first.
struct Script(Vec<u8>, u64);
impl rand_core::RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = if self.0.is_empty() { simrt::rng::splitmix(&mut self.1) as u8 } else { self.0.remove(0) };
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Script {}

fn multicore(vk: &VerifyingKey<Sim>, items: &[(Proof<Sim>, Vec<Fr>)], each: &[Result<(), &str>], want: Result<(), &'static str>, r: &mut Rng) {
    use groth16_multicore as gm;
    let vk = &gm::VerifyingKey::<Sim> {
        alpha_g1: vk.alpha_g1,
        beta_g1: vk.beta_g1,
        beta_g2: vk.beta_g2,
        gamma_g2: vk.gamma_g2,
        delta_g1: vk.delta_g1,
        delta_g2: vk.delta_g2,
        ic: vk.ic.clone(),
    };
    let go = |first: usize| {
        let mut b = gm::batch::Verifier::<Sim>::new();
        for i in 0..items.len() {
            let (p, x) = &items[(first + i) % items.len()];
            b.queue((gm::Proof { a: p.a, b: p.b, c: p.c }, x.clone()));
        }
        let got = vname(&b.verify_multicore(vk));
        if got != want {
            fail(
                if got.is_ok() { "unsound" } else { "rejected" },
                format!("a batch of {} ({} invalid) verified in parallel gives {:?} instead of {:?}", items.len(), each.iter().filter(|x| x.is_err()).count(), got, want),
            );
        }
        count("oracle:parallel-batch");
        count(if got.is_ok() { "probe:batch-accepted" } else { "probe:batch-rejected" });
    };
    if r.below(6) == 0 {
        // Without randomness there may be no verdict, but never a wrong one.
        phase("parallel batch verify without randomness");
        simrt::interpose::os_random_fail(1 + r.below(4));
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(0)));
        count(if out.is_ok() { "probe:verdict-without-randomness" } else { "probe:no-verdict" });
        simrt::interpose::os_random_fail(0);
    }
    let weak = [0, 0, 1, 8, 20][r.below(5) as usize];
    simrt::interpose::os_random_faults(weak, r.below(3), r.below(3));
    phase("parallel batch verify");
    let callers = 1 + w(3) as usize;
    if callers == 1 {
        place(true, || go(0));
    } else {
        let go = &go;
        std::thread::scope(|s| {
            for k in 0..callers {
                s.spawn(move || go(k * 3));
            }
        });
    }
}

// ----------------------------------------------------------------------- C17

/// Records every request made of it.
struct RecRng {
    r: Rng,
    out: Vec<u8>,
    calls: Vec<(usize, usize)>,
}
impl RecRng {
    fn new(seed: u64) -> Self {
        RecRng { r: Rng::new(seed), out: vec![], calls: vec![] }
    }
}
impl rand_core::RngCore for RecRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.r.next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
        self.calls.push((self.out.len(), d.len()));
        self.out.extend_from_slice(d);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for RecRng {}

struct OneShot<'a>(&'a [u8], usize);
impl<'a> rand_core::RngCore for OneShot<'a> {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = *self.0.get(self.1).unwrap_or(&0);
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// The field elements one could obtain from the stream, with where they start.
fn drawn(g: &RecRng) -> Vec<(Fr, usize, usize)> {
    g.calls
        .iter()
        .map(|(at, _)| {
            let mut o = OneShot(&g.out[*at..], 0);
            let v = Fr::random(&mut o);
            (v, *at, at + o.1)
        })
        .collect()
}

/// Recovers the trapdoor of a reference string for a known circuit.
fn recover(spec: &Spec, p: &Parameters<Sim>) -> Option<Toxic> {
    let inv = |x: Fr| Option::<Fr>::from(x.invert());
    if p.h.len() < 2 {
        return None;
    }
    let tau = p.h[1].0 * inv(p.h[0].0)?;
    let q = spec.qap(tau);
    let i = q.a.iter().position(|x| !bool::from(x.is_zero()))?;
    if i != 0 {
        return None;
    }
    let g1 = p.a.get(0)?.0 * inv(q.a[0])?;
    let delta = p.vk.delta_g1.0 * inv(g1)?;
    let g2 = p.vk.delta_g2.0 * inv(delta)?;
    Some(Toxic {
        g1,
        g2,
        alpha: p.vk.alpha_g1.0 * inv(g1)?,
        beta: p.vk.beta_g1.0 * inv(g1)?,
        gamma: p.vk.gamma_g2.0 * inv(g2)?,
        delta,
        tau,
    })
}

pub fn c17() {
    pool(6);
    let k = knobs();
    let spec = Arc::new(Spec::random(k));
    simrt::region::mix_state(spec.fingerprint());
    set_sample(&spec.describe());
    let rows = spec.cons.len() + spec.n_in + 1;
    if rows < 3 {
        count("probe:circuit-too-small");
        return;
    }
    let seed = w(0);
    let steps = 1 + w(4);
    let plan: Vec<(u64, u64)> = (0..steps).map(|_| (w(4), w(0))).collect();
    // values used, in the order of operations
    let session = |g: &mut RecRng| -> Vec<(String, Fr)> {
        let mut used: Vec<(String, Fr)> = vec![];
        let mut params: Option<(Arc<Parameters<Sim>>, Toxic)> = None;
        for (n, (op, seed)) in plan.iter().enumerate() {
            let mut r = Rng::new(*seed);
            let op = if params.is_none() && *op != 3 { 0 } else { *op };
            match op {
                0 => {
                    phase("generate at random");
                    match generate_random_parameters::<Sim, _, _>(Ckt::new(&spec, None), g) {
                        Ok(p) => quiet(|| {
                            let t = match recover(&spec, &p) {
                                Some(t) => t,
                                None => fail("degenerate-trapdoor", "the trapdoor cannot be recovered: some element is zero"),
                            };
                            match crs(&spec.qap(t.tau), &t) {
                                Ok(m) => {
                                    if let Some(d) = diff_params(&p, &m) {
                                        fail("inconsistent-parameters", format!("no single trapdoor explains the parameters of a {}: {}", spec.describe(), d));
                                    }
                                }
                                Err(e) => fail("inconsistent-parameters", format!("{:?}", e)),
                            }
                            for (name, v) in [("g1", t.g1), ("g2", t.g2), ("alpha", t.alpha), ("beta", t.beta), ("gamma", t.gamma), ("delta", t.delta), ("tau", t.tau)] {
                                used.push((format!("{} of operation {}", name, n), v));
                            }
                            count("oracle:trapdoor");
                            params = Some((Arc::new(p), t));
                        }),
                        Err(e) => fail("generation-failed", err_name(&e)),
                    }
                }
                3 => {
                    // A failing operation must not disturb what follows.
                    phase("a failing operation");
                    let mut c = Ckt::new(&spec, None);
                    c.fail = Some(Fail::Step(r.below(spec.ops.len() as u64) as usize, 2));
                    match &params {
                        Some((p, _)) if r.below(2) == 0 => {
                            let x = Arc::new(spec.assign(&mut r));
                            c.wit = Some(x);
                            if create_random_proof::<Sim, _, _, _>(c, &**p, g).is_ok() {
                                fail("fault-swallowed", "a failing circuit was proved");
                            }
                        }
                        _ => {
                            if generate_random_parameters::<Sim, _, _>(c, g).is_ok() {
                                fail("fault-swallowed", "a failing circuit has parameters");
                            }
                        }
                    }
                }
                _ => {
                    let (p, t) = params.clone().unwrap();
                    let x = Arc::new(quiet(|| spec.assign(&mut r)));
                    phase("prove at random");
                    match create_random_proof::<Sim, _, _, _>(Ckt::new(&spec, Some(&x)), &*p, g) {
                        Ok(pr) => quiet(|| {
                            let q = spec.qap(t.tau);
                            let v = vector(&spec, &x);
                            let dot = |c: &[Fr]| c.iter().zip(&v).fold(Fr::ZERO, |a, (p, y)| a + *p * y);
                            let di = t.delta.invert().unwrap();
                            let rr = (pr.a.0 * t.g1.invert().unwrap() - t.alpha - dot(&q.a)) * di;
                            let ss = (pr.b.0 * t.g2.invert().unwrap() - t.beta - dot(&q.b)) * di;
                            let m = model_proof(&q, &t, &v, rr, ss);
                            if diff_proof(&pr, &m).is_some() {
                                fail("inconsistent-proof", "no pair of blinding values explains the proof");
                            }
                            used.push((format!("r of operation {}", n), rr));
                            used.push((format!("s of operation {}", n), ss));
                            count("oracle:blinding");
                        }),
                        Err(e) => fail("honest-proof-failed", err_name(&e)),
                    }
                }
            }
        }
        used
    };
    let mut g = RecRng::new(seed);
    let used = session(&mut g);
    // Every value stems from its own fresh output of the stream.
    quiet(|| {
        let cand = drawn(&g);
        let mut taken: Vec<(usize, usize, &str)> = vec![];
        for (name, v) in &used {
            if let Some(o) = used.iter().find(|o| o.1 == *v && o.0 != *name) {
                fail("reused-value", format!("{} equals {}", name, o.0));
            }
            match cand.iter().find(|c| c.0 == *v) {
                None => fail("not-from-the-stream", format!("{} is not a field element drawn from the caller's stream", name)),
                Some((_, a, b)) => {
                    if let Some(o) = taken.iter().find(|o| *a < o.1 && o.0 < *b) {
                        fail("reused-output", format!("{} and {} come from the same output of the stream", name, o.2));
                    }
                    taken.push((*a, *b, name));
                }
            }
            if bool::from(v.is_zero()) {
                fail("zero-value", name);
            }
        }
        if !used.is_empty() {
            count("oracle:fresh");
        }
    });
    // The same stream gives the same values under another interleaving; another
    // stream gives entirely different ones.
    let mut g2 = RecRng::new(seed);
    let again = session(&mut g2);
    if again != used {
        fail("not-a-function-of-the-stream", "the same stream led to other values");
    }
    if w(2) == 1 {
        let mut g3 = RecRng::new(seed ^ 0x5555_1234);
        let other = session(&mut g3);
        for (name, v) in &other {
            if used.iter().any(|o| o.1 == *v) {
                fail("reused-value", format!("{} does not depend on the stream", name));
            }
        }
        count("oracle:streams-differ");
    }
}

// ----------------------------------------------------------------------- C26

pub fn c26() {
    pool(8);
    let n_setups = 1 + w(2);
    let mut setups = vec![];
    for _ in 0..n_setups {
        let mut k = knobs();
        k.aux = k.aux.min(20);
        k.extra = k.extra.min(10);
        if let Some(s) = setup(k) {
            setups.push(s);
        }
    }
    if setups.is_empty() {
        return;
    }
    let threads = 2 + w(4);
    let plans: Vec<(u64, u64)> = (0..threads).map(|_| (w(0), 1 + w(3))).collect();
    set_sample(&format!("{} callers over {}", threads, setups[0].spec.describe()));
    let before: Vec<Parameters<Sim>> = setups.iter().map(|s| (*s.params).clone()).collect();
    let pvks: Vec<_> = setups.iter().map(|s| prepare_verifying_key(&s.params.vk)).collect();
    let caller = |id: usize, seed: u64, n: u64| {
        let mut r = Rng::new(seed);
        for _ in 0..n {
            let si = r.below(setups.len() as u64) as usize;
            let s = &setups[si];
            match r.below(13) {
                0 => {
                    phase("generate");
                    let t = quiet(|| Toxic::random(&mut r));
                    let want = quiet(|| crs(&s.spec.qap(t.tau), &t));
                    let got = gen(&s.spec, &t);
                    match (got, want) {
                        (Ok(g), Ok(m)) => {
                            if let Some(d) = diff_params(&g, &m) {
                                fail("wrong-parameters", format!("caller {}: {}", id, d));
                            }
                            // and use them for a while, next to the keys of the others
                            let own = Setup { spec: s.spec.clone(), q: quiet(|| Arc::new(s.spec.qap(t.tau))), tox: t, params: Arc::new(g) };
                            let pvk = prepare_verifying_key(&own.params.vk);
                            for _ in 0..r.below(3) {
                                let x = own.wit(&mut r);
                                let (a, b) = (blind(&mut r), blind(&mut r));
                                let key = if r.below(3) == 0 { &s.params.vk } else { &own.params.vk };
                                let p = if r.below(2) == 0 { s.want(&x, a, b) } else { own.want(&x, a, b) };
                                let other;
                                let k = if std::ptr::eq(key, &own.params.vk) && r.below(2) == 0 {
                                    &pvk
                                } else {
                                    other = prepare_verifying_key(&key.clone());
                                    &other
                                };
                                if verify_proof(k, &p, &x.public).is_ok() != equation(key, &p, &x.public) {
                                    fail("wrong-verdict", format!("caller {}: under a key generated meanwhile", id));
                                }
                                count("oracle:verified");
                            }
                        }
                        (Err(e), Ok(_)) => fail("refused", format!("caller {}: {}", id, err_name(&e))),
                        _ => {}
                    }
                    count("oracle:crs");
                }
                1 | 2 | 3 => {
                    phase("prove");
                    let x = s.wit(&mut r);
                    let (a, b) = (blind(&mut r), blind(&mut r));
                    match create_proof::<Sim, _, _>(s.ckt(&x), &*s.params, a, b) {
                        Ok(p) => {
                            if let Some(d) = diff_proof(&p, &s.want(&x, a, b)) {
                                fail("wrong-proof", format!("caller {}: {}", id, d));
                            }
                            count("oracle:proof");
                            phase("verify");
                            if verify_proof(&pvks[si], &p, &x.public).is_err() {
                                fail("honest-proof-rejected", format!("caller {}", id));
                            }
                            let mut bad = p.clone();
                            bad.c.0 += Fr::ONE;
                            if verify_proof(&pvks[si], &bad, &x.public).is_ok() {
                                fail("unsound", format!("caller {}", id));
                            }
                            count("oracle:verified");
                        }
                        Err(e) => fail("honest-proof-failed", format!("caller {}: {}", id, err_name(&e))),
                    }
                }
                4 => {
                    phase("prove with a failing source");
                    let x = s.wit(&mut r);
                    let mut p = SimParams::new(&s.params);
                    p.slow = r.below(7);
                    p.faults.push(if r.below(2) == 0 {
                        ParamFault::Request(REQS[r.below(6) as usize], BaseFault::Io(std::io::ErrorKind::Other))
                    } else {
                        ParamFault::Stream(r.below(8) as usize, r.below(6) as usize, BaseFault::Eof, None)
                    });
                    let (hits, failed) = (p.hits.clone(), p.requests_failed.clone());
                    let g = create_proof::<Sim, _, _>(s.ckt(&x), p, Fr::ONE, Fr::ONE);
                    let hit = hits.hits.load(SeqCst) > 0 || !failed.lock().unwrap().is_empty();
                    if g.is_ok() == hit {
                        fail("wrong-outcome", format!("caller {}: fault hit = {}, proof = {}", id, hit, g.is_ok()));
                    }
                    count("oracle:failed-operation");
                }
                5 => {
                    phase("failing circuit");
                    let x = s.wit(&mut r);
                    let mut c = s.ckt(&x);
                    c.fail = Some(Fail::Step(r.below(s.spec.ops.len().max(1) as u64) as usize, 1));
                    if s.spec.ops.is_empty() {
                        continue;
                    }
                    match create_proof::<Sim, _, _>(c, &*s.params, Fr::ONE, Fr::ONE) {
                        Err(SynthesisError::DivisionByZero) => count("oracle:failed-operation"),
                        r => fail("wrong-outcome", format!("caller {}: {:?}", id, r.is_ok())),
                    }
                }
                6 => {
                    phase("abandoned work");
                    // started and never waited for
                    let wk = bellman::multicore::Worker::new();
                    let nb = s.params.h.len();
                    let e: Vec<Fr> = (0..nb).map(|_| full(&mut r)).collect();
                    let wt = bellman::multiexp::multiexp::<_, _, P<Fr, 1>, _>(
                        &wk,
                        (s.params.h.clone(), 0),
                        bellman::multiexp::FullDensity,
                        Arc::new(e.iter().map(|x| x.into()).collect::<Vec<bellman::multiexp::Exponent<Fr>>>()),
                    );
                    count("fault:handle-dropped");
                    drop(wt);
                    if r.below(2) == 0 {
                        let wt = wk.compute(|| panic!("injected panic"));
                        count("fault:panic");
                        if r.below(2) == 0 {
                            if catch_unwind(AssertUnwindSafe(|| wt.wait())).is_ok() {
                                fail("lost-panic", "a panicking computation returned");
                            }
                        }
                    }
                }
                7 | 8 => {
                    phase("operations in the pool");
                    // some callers use the library from tasks of their own
                    let k = 2 + r.below(4);
                    let jobs: Vec<(u64, u64)> = (0..k).map(|_| (r.below(4), r.next())).collect();
                    let one = |what: u64, seed: u64| {
                        let mut r = Rng::new(seed);
                        match what {
                            0 => {
                                let t = quiet(|| Toxic::random(&mut r));
                                let want = quiet(|| crs(&s.spec.qap(t.tau), &t));
                                if let (Ok(g), Ok(m)) = (gen(&s.spec, &t), want) {
                                    if let Some(d) = diff_params(&g, &m) {
                                        fail("wrong-parameters", format!("caller {} in the pool: {}", id, d));
                                    }
                                }
                            }
                            1 => {
                                let x = s.wit(&mut r);
                                let mut p = s.want(&x, Fr::ONE, full(&mut r));
                                let bad = r.below(2) == 0;
                                if bad {
                                    p.a.0 += Fr::ONE;
                                }
                                if verify_proof(&pvks[si], &p, &x.public).is_ok() != equation(&s.params.vk, &p, &x.public) {
                                    fail("wrong-verdict", format!("caller {} in the pool", id));
                                }
                            }
                            _ => {
                                use bellman::domain::{EvaluationDomain, Scalar};
                                let n = 1 + r.below(300) as usize;
                                let v: Vec<Fr> = (0..n).map(|_| full(&mut r)).collect();
                                let wk = bellman::multicore::Worker::new();
                                let mut d = EvaluationDomain::from_coeffs(v.iter().map(|x| Scalar(*x)).collect()).unwrap();
                                d.coset_fft(&wk);
                                d.icoset_fft(&wk);
                                let o = d.into_coeffs();
                                if o.iter().take(n).map(|x| x.0).ne(v.iter().copied()) {
                                    fail("wrong-coefficient", format!("caller {} in the pool: a transform and its inverse over {} elements", id, n));
                                }
                            }
                        }
                    };
                    let wk = bellman::multicore::Worker::new();
                    wk.scope(k as usize, |sc, _| {
                        for (what, seed) in &jobs {
                            let one = &one;
                            sc.spawn(move |_| one(*what, *seed));
                        }
                    });
                    count("oracle:in-pool");
                }
                9 => {
                    phase("transform");
                    use bellman::domain::{EvaluationDomain, Scalar};
                    let n = 1 + r.below(200) as usize;
                    let v: Vec<Fr> = (0..n).map(|_| full(&mut r)).collect();
                    let wk = bellman::multicore::Worker::new();
                    let mut d = EvaluationDomain::from_coeffs(v.iter().map(|x| Scalar(*x)).collect()).unwrap();
                    if r.below(2) == 0 {
                        d.fft(&wk);
                        d.ifft(&wk);
                    } else {
                        d.coset_fft(&wk);
                        d.icoset_fft(&wk);
                    }
                    let o = d.into_coeffs();
                    if o.iter().take(n).map(|x| x.0).ne(v.iter().copied()) || o[n..].iter().any(|x| !bool::from(x.0.is_zero())) {
                        fail("wrong-coefficient", format!("caller {}: a transform and its inverse over {} elements", id, n));
                    }
                    count("oracle:transform");
                }
                10 => {
                    phase("batch");
                    let mut b = batch::Verifier::new();
                    let mut good = true;
                    for _ in 0..r.below(12) {
                        let x = s.wit(&mut r);
                        let mut p = s.want(&x, blind(&mut r), blind(&mut r));
                        if r.below(12) == 0 {
                            p.c.0 += Fr::ONE;
                            good = false;
                        }
                        b.queue((p, x.public));
                    }
                    let g = FaultyRng::new(r.next(), 0, 8);
                    if b.verify(g, &s.params.vk).is_ok() != good {
                        fail("wrong-verdict", format!("caller {}: a batch that is {}", id, if good { "valid" } else { "not valid" }));
                    }
                    count("oracle:batch");
                }
                11 => {
                    phase("encode");
                    // each caller writes and reads the shared objects through streams of its own
                    let x = s.wit(&mut r);
                    let p = s.want(&x, Fr::ONE, full(&mut r));
                    let (mut o, mut kept) = (SimWrite::new(StreamPlan::drawn(&mut r)), vec![]);
                    let ok = s.params.write(&mut o).is_ok() && p.write(&mut o).is_ok() && s.params.vk.write(&mut kept).is_ok();
                    if !ok {
                        fail("spurious-error", format!("caller {}: writing failed", id));
                    }
                    let mut i = SimRead::new(&o.out, StreamPlan::drawn(&mut r));
                    match (Parameters::<Sim>::read(&mut i, r.below(2) == 0), Proof::<Sim>::read(&mut i), VerifyingKey::<Sim>::read(&kept[..])) {
                        (Ok(a), Ok(q), Ok(k)) => {
                            if diff_params(&a, &s.params).is_some() || q != p || k != s.params.vk {
                                fail("wrong-value", format!("caller {}: what was read back differs", id));
                            }
                            let pvk = prepare_verifying_key(&k);
                            if verify_proof(&pvk, &q, &x.public).is_err() {
                                fail("honest-proof-rejected", format!("caller {}: by a key read back", id));
                            }
                        }
                        // an identity element is written but never read
                        _ => {
                            let whole = p.a.0 != Fr::ZERO && p.b.0 != Fr::ZERO && p.c.0 != Fr::ZERO;
                            if whole {
                                fail("refused", format!("caller {}: reading back failed", id));
                            }
                        }
                    }
                    count("oracle:read-back");
                }
                _ => {
                    phase("multiexp");
                    let wk = bellman::multicore::Worker::new();
                    let nb = s.params.h.len();
                    let e: Vec<Fr> = (0..nb).map(|_| fe(&mut r)).collect();
                    let want = quiet(|| e.iter().zip(s.params.h.iter()).fold(Fr::ZERO, |a, (x, b)| a + *x * b.0));
                    let g: Result<P<Fr, 1>, _> = bellman::multiexp::multiexp(
                        &wk,
                        (s.params.h.clone(), 0),
                        bellman::multiexp::FullDensity,
                        Arc::new(e.iter().map(|x| x.into()).collect::<Vec<bellman::multiexp::Exponent<Fr>>>()),
                    )
                    .wait();
                    match g {
                        Ok(P(v)) if v == want => count("oracle:sum"),
                        Ok(_) => fail("wrong-sum", format!("caller {}", id)),
                        Err(e) => fail("spurious-error", format!("caller {}: {}", id, err_name(&e))),
                    }
                }
            }
        }
    };
    let caller = &caller;
    std::thread::scope(|sc| {
        for (i, (seed, n)) in plans.iter().enumerate() {
            sc.spawn(move || caller(i, *seed, *n));
        }
    });
    for (s, b) in setups.iter().zip(&before) {
        if let Some(d) = diff_params(&s.params, b) {
            fail("shared-parameters-changed", d);
        }
    }
}
