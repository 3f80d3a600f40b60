//! C04-C06: evaluation domains and multi-exponentiation.
use crate::engine::{Fr, A, P};
use crate::faults::*;
use crate::smallfield::Fr as Fs;
use crate::util::*;
use bellman::domain::{EvaluationDomain, Group, Point, Scalar};
use bellman::multicore::{Waiter, Worker};
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity, QueryDensity};
use bellman::SynthesisError;
use ff::{PrimeField, PrimeFieldBits};
use simrt::rng::Rng;
use simrt::{count, fail, phase, quiet, w};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

// ----------------------------------------------------------------------- C04

fn dft<F: PrimeField>(a: &[F], omega: F) -> Vec<F> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let ev: Vec<F> = a.iter().step_by(2).copied().collect();
    let od: Vec<F> = a.iter().skip(1).step_by(2).copied().collect();
    let o2 = omega.square();
    let (e, o) = (dft(&ev, o2), dft(&od, o2));
    let mut w = F::ONE;
    let mut r = vec![F::ZERO; n];
    for k in 0..n / 2 {
        let t = w * o[k];
        r[k] = e[k] + t;
        r[k + n / 2] = e[k] - t;
        w *= omega;
    }
    r
}

/// Evaluates by the definition at one index.
fn at<F: PrimeField>(a: &[F], x: F) -> F {
    a.iter().rev().fold(F::ZERO, |acc, c| acc * x + c)
}

fn inv<F: PrimeField>(x: F) -> F {
    Option::<F>::from(x.invert()).expect("invert zero in the model")
}

fn omega<F: PrimeField>(m: usize) -> F {
    let mut o = F::ROOT_OF_UNITY;
    for _ in m.trailing_zeros()..F::S {
        o = o.square();
    }
    o
}

struct Model<F> {
    v: Vec<F>,
}
impl<F: PrimeField> Model<F> {
    fn fft(&mut self) {
        let o = omega::<F>(self.v.len());
        let r = dft(&self.v, o);
        // spot check of the reference itself by the definition
        if !r.is_empty() {
            let k = r.len() / 3;
            assert!(r[k] == at(&self.v, o.pow_vartime([k as u64])));
        }
        self.v = r;
    }
    fn ifft(&mut self) {
        let m = self.v.len();
        let r = dft(&self.v, inv(omega::<F>(m)));
        let mi = inv(F::from(m as u64));
        self.v = r.into_iter().map(|x| x * mi).collect();
    }
    fn powers(&mut self, g: F) {
        let mut p = F::ONE;
        for x in self.v.iter_mut() {
            *x *= p;
            p *= g;
        }
    }
}

fn domain_run<F: PrimeField, G: Group<F>>(
    r: &mut Rng,
    n: usize,
    worker: &Worker,
    mk: &dyn Fn(F) -> G,
    get: &(dyn Fn(&G) -> F + Sync),
) {
    let vals: Vec<F> = match r.below(5) {
        0 => vec![F::ZERO; n],
        1 => (0..n).map(|i| if i == n / 2 { F::ONE } else { F::ZERO }).collect(),
        2 => vec![F::ONE; n],
        _ => (0..n).map(|_| fe::<F>(r)).collect(),
    };
    let m = n.max(1).next_power_of_two();
    phase("from_coeffs");
    let d = EvaluationDomain::<F, G>::from_coeffs(vals.iter().map(|x| mk(*x)).collect());
    let mut d = match d {
        Err(SynthesisError::PolynomialDegreeTooLarge) => {
            count("probe:degree-refused");
            count("oracle:degree");
            if (m.trailing_zeros()) < F::S {
                fail("degree", format!("a vector of length {} was refused although the field has 2^{} roots of unity", n, F::S));
            }
            return;
        }
        Err(e) => fail("degree", format!("from_coeffs({}) failed with {}", n, err_name(&e))),
        Ok(d) => d,
    };
    if m.trailing_zeros() > F::S {
        fail("degree", format!("a vector of length {} was accepted although the field only has 2^{} roots of unity", n, F::S));
    }
    let mut model = Model { v: vals };
    model.v.resize(m, F::ZERO);
    let same = |d: &EvaluationDomain<F, G>, m: &Model<F>, what: &str| {
        let got: Vec<F> = d.as_ref().iter().map(get).collect();
        if got.len() != m.v.len() {
            fail("length", format!("{}: {} coefficients instead of {}", what, got.len(), m.v.len()));
        }
        if let Some(i) = got.iter().zip(&m.v).position(|(a, b)| a != b) {
            fail("wrong-coefficient", format!("{} over {} elements: coefficient {} is wrong", what, got.len(), i));
        }
        count("oracle:coefficients");
    };
    same(&d, &model, "from_coeffs");
    let steps = 1 + r.below(5);
    for _ in 0..steps {
        let name;
        match r.below(9) {
            0 => {
                name = "fft";
                phase(name);
                d.fft(worker);
                quiet(|| model.fft());
            }
            1 => {
                name = "ifft";
                phase(name);
                d.ifft(worker);
                quiet(|| model.ifft());
            }
            2 => {
                name = "coset_fft";
                phase(name);
                d.coset_fft(worker);
                quiet(|| {
                    model.powers(F::MULTIPLICATIVE_GENERATOR);
                    model.fft();
                });
            }
            3 => {
                name = "icoset_fft";
                phase(name);
                d.icoset_fft(worker);
                quiet(|| {
                    model.ifft();
                    model.powers(inv(F::MULTIPLICATIVE_GENERATOR));
                });
            }
            4 => {
                name = "distribute_powers";
                let g = fe::<F>(r);
                phase(name);
                d.distribute_powers(worker, g);
                quiet(|| model.powers(g));
            }
            5 | 6 => {
                name = "mul_assign";
                let o: Vec<F> = (0..m).map(|_| fe::<F>(r)).collect();
                let od = EvaluationDomain::<F, Scalar<F>>::from_coeffs(o.iter().map(|x| Scalar(*x)).collect()).unwrap();
                phase(name);
                d.mul_assign(worker, &od);
                for (a, b) in model.v.iter_mut().zip(&o) {
                    *a *= b;
                }
                if od.as_ref().iter().zip(&o).any(|(a, b)| a.0 != *b) {
                    fail("operand-changed", "mul_assign changed its operand");
                }
            }
            7 => {
                name = "sub_assign";
                let o: Vec<F> = (0..m).map(|_| fe::<F>(r)).collect();
                let od = EvaluationDomain::<F, G>::from_coeffs(o.iter().map(|x| mk(*x)).collect()).unwrap();
                phase(name);
                d.sub_assign(worker, &od);
                for (a, b) in model.v.iter_mut().zip(&o) {
                    *a -= b;
                }
            }
            _ => {
                name = "divide_by_z_on_coset";
                phase(name);
                d.divide_by_z_on_coset(worker);
                let zi = inv(F::MULTIPLICATIVE_GENERATOR.pow_vartime([m as u64]) - F::ONE);
                for a in model.v.iter_mut() {
                    *a *= zi;
                }
            }
        }
        phase("");
        count(&format!("probe:{}", name));
        same(&d, &model, name);
    }
    let tau = fe::<F>(r);
    if d.z(&tau) != tau.pow_vartime([m as u64]) - F::ONE {
        fail("z", format!("z(tau) is wrong for a domain of {}", m));
    }
    let c = d.into_coeffs();
    if c.len() != m || c.iter().zip(&model.v).any(|(a, b)| get(a) != *b) {
        fail("wrong-coefficient", "into_coeffs");
    }
}

pub fn c04() {
    let np = pool(9) + if w(8) == 7 { 8 } else { 0 };
    std::env::set_var("RAYON_NUM_THREADS", np.to_string());
    let kind = w(4);
    let size = w(8);
    let place = w(4);
    let mut r = rng();
    let n = match size {
        0 => r.below(4),
        1 => r.below(10),
        2 => r.below(33),
        3 => r.below(70),
        4 => {
            let k = 1 << r.below(8);
            k + r.below(3) - r.below(2)
        }
        5 => 100 + r.below(200),
        6 => r.below(600),
        _ => {
            if kind == 0 {
                480 + r.below(1200)
            } else {
                match r.below(40) {
                    // beyond the sizes at which an implementation might switch its strategy
                    0 => match r.below(4) {
                        0 if place != 2 => (1 << (16 + r.below(3))) + r.below(4) - 1,
                        _ => 1 << (13 + r.below(3)),
                    },
                    1 => 5000 + r.below(12000),
                    2..=9 => {
                        let k = 1 << (11 + r.below(2));
                        k + r.below(3) - r.below(2)
                    }
                    10..=15 => 1000 + r.below(4000),
                    _ => 256 + r.below(1000),
                }
            }
        }
    } as usize;
    simrt::region::mix_state(n as u64 ^ kind << 40);
    simrt::set_sample(&format!("{} pool threads, {} elements, field/group kind {}, called from {}", np, n, kind, ["a caller thread", "a pool task", "a scope task", "a pool of the caller"][place as usize]));
    let go = move |r: &mut Rng| {
        let worker = Worker::new();
        match kind {
            0 | 1 => domain_run::<Fs, Scalar<Fs>>(r, n, &worker, &|x| Scalar(x), &|g| g.0),
            2 => domain_run::<Fr, Scalar<Fr>>(r, n, &worker, &|x| Scalar(x), &|g| g.0),
            _ => domain_run::<Fr, Point<P<Fr, 1>>>(r, n, &worker, &|x| Point(P(x)), &|g| g.0 .0),
        }
    };
    match place {
        0 => go(&mut r),
        3 => own_pool(|| go(&mut r)),
        1 => {
            let worker = Worker::new();
            let mut r2 = Rng::new(r.next());
            worker.compute(move || go(&mut r2)).wait();
        }
        _ => {
            let worker = Worker::new();
            let k = 1 + r.below(3);
            let seeds: Vec<u64> = (0..k).map(|_| r.next()).collect();
            let seeds = &seeds;
            let go = &go;
            worker.scope(k as usize, |s, _| {
                for x in seeds {
                    s.spawn(move |_| go(&mut Rng::new(*x)));
                }
            });
        }
    }
}

// ------------------------------------------------------------------- C05/C06

struct Case<F: PrimeFieldBits> {
    bases: Arc<Vec<A<F, 1>>>,
    offset: usize,
    exps: Vec<F>,
    /// None = full density
    dens: Option<Vec<bool>>,
}

fn exps<F: PrimeFieldBits>(v: &[F]) -> Arc<Vec<Exponent<F>>> {
    Arc::new(v.iter().map(|x| x.into()).collect())
}

fn density(d: &[bool], r: &mut Rng) -> DensityTracker {
    let mut t = DensityTracker::new();
    for _ in d {
        t.add_element();
    }
    // any order, with repetitions
    for (i, b) in d.iter().enumerate() {
        if *b {
            t.inc(i);
            if r.below(3) == 0 {
                t.inc(i);
            }
        }
    }
    if t.get_total_density() != d.iter().filter(|b| **b).count() {
        fail("density", "total density is not the number of selected positions");
    }
    if (&t).get_query_size() != Some(d.len()) || (&t).iter().ne(d.iter().copied()) {
        fail("density", "the density map does not hold what was recorded");
    }
    t
}

fn exp_mix<F: PrimeFieldBits>(r: &mut Rng, kind: u64) -> F {
    match kind {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::from(r.below(2)),
        3 => F::from(r.below(9)),
        4 => {
            // single high bits
            let k = r.below(F::NUM_BITS as u64 - 1);
            F::from(2).pow_vartime([k])
        }
        _ => fe::<F>(r),
    }
}

fn len() -> usize {
    let k = w(9);
    let mut r = rng();
    (match k {
        0 => r.below(3),
        1 => r.below(8),
        2 => r.below(33),
        3 => 30 + r.below(5),
        4 => r.below(100),
        5 => 50 + r.below(120),
        6 => 140 + r.below(20),
        7 => 400 + r.below(10),
        _ => match r.below(24) {
            // around the next changes of the window size
            0 => 2970 + r.below(40),
            1 => 1090 + r.below(16),
            2 => 1200 + r.below(4000),
            4 => match r.below(8) {
                // counters of 16 bits
                0 => 65_530 + r.below(12),
                // larger windows: ln n passes 10 and 11
                1 => 22_020 + r.below(14),
                2 => 59_868 + r.below(14),
                _ => 5_000 + r.below(9_000),
            },
            3 => {
                if r.below(4) == 0 {
                    8090 + r.below(40)
                } else {
                    3000 + r.below(300)
                }
            }
            _ => 200 + r.below(1000),
        },
    }) as usize
}

impl<F: PrimeFieldBits> Case<F> {
    fn random(n: usize, short: bool, ident: bool) -> Case<F> {
        let d = w(4);
        let ek = w(8);
        let offset = w(5) as usize;
        let extra = w(4) as usize;
        let mut r = rng();
        let dens = match d {
            0 => None,
            1 => Some((0..n).map(|_| r.below(2) == 0).collect::<Vec<bool>>()),
            2 => Some((0..n).map(|_| r.below(8) == 0).collect()),
            _ => Some((0..n).map(|_| r.below(8) != 0).collect()),
        };
        let sel = dens.as_ref().map(|d| d.iter().filter(|b| **b).count()).unwrap_or(n);
        let exps = (0..n)
            .map(|_| {
                let k = if ek == 7 { r.below(8) } else { ek };
                exp_mix::<F>(&mut r, k)
            })
            .collect();
        let total = if short { offset + r.below(sel as u64 + 1) as usize } else { offset + sel + extra };
        let mut bases: Vec<A<F, 1>> = (0..total)
            .map(|_| loop {
                let v = full::<F>(&mut r);
                if !v.is_zero_vartime() {
                    return A(v);
                }
            })
            .collect();
        if ident && total > 0 {
            let k = r.below(total as u64) as usize;
            bases[k] = A(F::ZERO);
        }
        simrt::region::mix_state((n as u64) << 20 | (sel as u64) << 4 | d);
        Case { bases: Arc::new(bases), offset, exps, dens }
    }
    fn selected(&self) -> Vec<(usize, F)> {
        let mut at = self.offset;
        let mut v = vec![];
        for (i, e) in self.exps.iter().enumerate() {
            if self.dens.as_ref().map(|d| d[i]).unwrap_or(true) {
                v.push((at, *e));
                at += 1;
            }
        }
        v
    }
    fn sum(&self) -> F {
        self.selected().into_iter().filter(|(_, e)| !e.is_zero_vartime()).fold(F::ZERO, |a, (i, e)| a + self.bases[i].0 * e)
    }
    /// What a pass over the stock vector source must run into.
    fn stock_faults(&self) -> Vec<BaseFault> {
        let mut f = vec![];
        for (i, e) in self.selected() {
            if i >= self.bases.len() {
                f.push(BaseFault::Eof);
            } else if self.bases[i].0.is_zero_vartime() && !e.is_zero_vartime() {
                f.push(BaseFault::Identity);
            }
        }
        f
    }
    fn sim(&self) -> SimSource<A<F, 1>> {
        SimSource::new(self.bases.clone(), self.offset)
    }
    fn start_sim(&self, worker: &Worker, s: SimSource<A<F, 1>>, ex: &Arc<Vec<Exponent<F>>>, r: &mut Rng) -> Waiter<Result<P<F, 1>, SynthesisError>> {
        match &self.dens {
            None => multiexp(worker, s, FullDensity, ex.clone()),
            Some(d) => multiexp(worker, s, Arc::new(density(d, r)), ex.clone()),
        }
    }
    fn start_stock(&self, worker: &Worker, ex: &Arc<Vec<Exponent<F>>>, r: &mut Rng) -> Waiter<Result<P<F, 1>, SynthesisError>> {
        let s = (self.bases.clone(), self.offset);
        match &self.dens {
            None => multiexp(worker, s, FullDensity, ex.clone()),
            Some(d) => multiexp(worker, s, Arc::new(density(d, r)), ex.clone()),
        }
    }
}

fn unchanged<F: PrimeFieldBits>(c: &Case<F>, bases: &[A<F, 1>], ex: &Arc<Vec<Exponent<F>>>) {
    if bases != &c.bases[..] {
        fail("inputs-changed", "multiexp changed the bases");
    }
    for (e, v) in ex.iter().zip(&c.exps) {
        let ok = match (e, Exponent::from(v)) {
            (Exponent::Zero, Exponent::Zero) | (Exponent::One, Exponent::One) => true,
            (Exponent::Bits(a), Exponent::Bits(b)) => *a == b,
            _ => false,
        };
        if !ok {
            fail("inputs-changed", "multiexp changed the exponents");
        }
    }
}

fn c05_run<F: PrimeFieldBits>() {
    let worker = Worker::new();
    let k = 1 + w(3);
    let mut pend = vec![];
    for _ in 0..k {
        let n = len();
        let c = Case::<F>::random(n, false, false);
        let copies = 1 + w(3);
        let ex = exps(&c.exps);
        let snap = c.bases.to_vec();
        let mut r = rng();
        let mut ws = vec![];
        for _ in 0..copies {
            phase("multiexp");
            let stock = w(2) == 0;
            if stock {
                ws.push((c.start_stock(&worker, &ex, &mut r), None));
            } else {
                let mut s = c.sim();
                s.slow = if w(8) == 7 { 5 + w(2) } else { w(3) };
                if n > 100 {
                    s.slow = 0;
                }
                let log = s.log.clone();
                ws.push((c.start_sim(&worker, s, &ex, &mut r), Some(log)));
            }
        }
        pend.push((c, ex, snap, ws));
    }
    simrt::set_sample(&format!("{} inputs: {:?} exponents", k, pend.iter().map(|p| p.0.exps.len()).collect::<Vec<_>>()));
    while !pend.is_empty() {
        let i = w(pend.len() as u64) as usize;
        let (c, ex, snap, ws) = pend.swap_remove(i);
        let want = quiet(|| c.sum());
        let top = c.offset + c.selected().len();
        for (wt, log) in ws {
            phase("multiexp wait");
            match wt.wait() {
                Ok(P(v)) if v == want => {}
                Ok(_) => fail("wrong-sum", format!("multiexp over {} exponents, {} selected, offset {}", c.exps.len(), top - c.offset, c.offset)),
                Err(e) => fail("spurious-error", format!("multiexp over {} exponents failed with {}", c.exps.len(), err_name(&e))),
            }
            count("oracle:sum");
            if let Some(l) = log {
                let m = l.consumed_max.load(SeqCst);
                if m > top {
                    fail("over-consumed", format!("{} bases were consumed for {} selected positions at offset {}", m - c.offset, top - c.offset, c.offset));
                }
            }
        }
        unchanged(&c, &snap, &ex);
    }
}

pub fn c05() {
    pool(8);
    if w(3) == 2 {
        c05_run::<Fs>()
    } else {
        c05_run::<Fr>()
    }
}

fn c06_run<F: PrimeFieldBits>() {
    let worker = Worker::new();
    let k = 1 + w(4);
    struct Job<F: PrimeFieldBits> {
        c: Case<F>,
        ex: Arc<Vec<Exponent<F>>>,
        wt: Waiter<Result<P<F, 1>, SynthesisError>>,
        sim: Option<SimSource<A<F, 1>>>,
        kinds: Vec<BaseFault>,
    }
    let mut jobs = vec![];
    for _ in 0..k {
        let n = len();
        let mode = w(8);
        let c = Case::<F>::random(n, mode == 1, mode == 2);
        let ex = exps(&c.exps);
        let mut r = rng();
        let nsel = c.selected().len();
        phase("multiexp");
        if w(3) == 0 {
            let kinds = c.stock_faults();
            for f in &kinds {
                count(match f {
                    BaseFault::Eof => "fault:stock-source-eof",
                    _ => "fault:stock-source-identity",
                });
            }
            let wt = c.start_stock(&worker, &ex, &mut r);
            jobs.push(Job { c, ex, wt, sim: None, kinds });
        } else {
            let mut s = c.sim();
            let mut kinds = c.stock_faults();
            if mode >= 3 && nsel > 0 {
                let at = c.offset + [0, nsel - 1, r.below(nsel as u64) as usize, r.below(nsel as u64) as usize][w(4) as usize];
                let f = BaseFault::draw();
                let pass = if w(2) == 0 { None } else { Some(w(90) as usize) };
                s.fault = Some((at, f, pass));
                s.next_only = w(3) == 2;
                s.slow = if w(8) == 7 { 5 + w(2) } else if n < 60 { w(3) } else { 0 };
                kinds.push(f);
            }
            let keep = s.clone();
            let wt = c.start_sim(&worker, s, &ex, &mut r);
            jobs.push(Job { c, ex, wt, sim: Some(keep), kinds });
        }
    }
    simrt::set_sample(&format!("{} concurrent multiexps over {:?} exponents with source faults", k, jobs.iter().map(|p| p.c.exps.len()).collect::<Vec<_>>()));
    while !jobs.is_empty() {
        let i = w(jobs.len() as u64) as usize;
        let j = jobs.swap_remove(i);
        phase("multiexp wait");
        if w(8) == 7 {
            count("fault:handle-dropped");
            drop(j.wt);
            continue;
        }
        let res = j.wt.wait();
        phase("");
        let hit = match &j.sim {
            Some(s) => s.log.hits.load(SeqCst) > 0,
            None => !j.kinds.is_empty(),
        };
        match (&res, hit) {
            (Ok(_), true) => fail("fault-swallowed", format!("the source failed ({:?}) but multiexp over {} exponents returned a value", j.kinds, j.c.exps.len())),
            (Err(e), false) => fail("spurious-error", format!("no pass met a fault but multiexp failed with {}", err_name(e))),
            (Err(e), true) => {
                if !j.kinds.iter().any(|f| f.matches(e)) {
                    fail("wrong-error", format!("the source failed with {:?} but multiexp reported {}", j.kinds, err_name(e)));
                }
                count("oracle:error-kind");
            }
            (Ok(P(v)), false) => {
                if *v != quiet(|| j.c.sum()) {
                    fail("wrong-sum", format!("multiexp over {} exponents", j.c.exps.len()));
                }
                count("oracle:sum");
            }
        }
        // Recovery: same worker, same data, healthy source.
        if hit && w(2) == 0 {
            let sel = j.c.selected();
            let need = sel.last().map(|x| x.0 + 1).unwrap_or(0);
            let mut b = j.c.bases.to_vec();
            while b.len() < need {
                b.push(A(F::ONE));
            }
            for x in b.iter_mut() {
                if x.0.is_zero_vartime() {
                    *x = A(F::ONE);
                }
            }
            let c = Case { bases: Arc::new(b), offset: j.c.offset, exps: j.c.exps.clone(), dens: j.c.dens.clone() };
            let mut r = rng();
            let want = c.sum();
            match c.start_stock(&worker, &j.ex, &mut r).wait() {
                Ok(P(v)) if v == want => {}
                Ok(_) => fail("wrong-sum", "after a failed computation the repaired one gives another value"),
                Err(e) => fail("spurious-error", format!("after a failed computation the repaired one fails with {}", err_name(&e))),
            }
            count("oracle:recovered");
        }
    }
}

pub fn c06() {
    pool(8);
    if w(3) == 2 {
        c06_run::<Fs>()
    } else {
        c06_run::<Fr>()
    }
}
