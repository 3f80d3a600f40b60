// The same operations over one build of the library; `b` and `g` name its
// bellman and groth16.  Included once for each build (see serial.rs).
use super::{DomOp, Fault, Item};
use crate::engine::{Sim, A, P};
use crate::faults::{BaseFault, Req};
use crate::r1cs::{Ckt, Toxic};
use crate::util::SRng;
use b::domain::{EvaluationDomain, Group, Point, Scalar};
use b::multicore::Worker;
use ff::PrimeField;
use group::prime::PrimeCurveAffine;
use simrt::rng::Rng;
use std::sync::Arc;

type Fr = crate::engine::Fr;

pub fn err(e: &b::SynthesisError) -> String {
    match e {
        b::SynthesisError::AssignmentMissing => "AssignmentMissing".into(),
        b::SynthesisError::DivisionByZero => "DivisionByZero".into(),
        b::SynthesisError::Unsatisfiable => "Unsatisfiable".into(),
        b::SynthesisError::PolynomialDegreeTooLarge => "PolynomialDegreeTooLarge".into(),
        b::SynthesisError::UnexpectedIdentity => "UnexpectedIdentity".into(),
        b::SynthesisError::UnconstrainedVariable => "UnconstrainedVariable".into(),
        b::SynthesisError::IoError(e) => format!("IoError({:?}:{})", e.kind(), e),
    }
}
fn fwd(e: bellman::SynthesisError) -> b::SynthesisError {
    match e {
        bellman::SynthesisError::AssignmentMissing => b::SynthesisError::AssignmentMissing,
        bellman::SynthesisError::DivisionByZero => b::SynthesisError::DivisionByZero,
        bellman::SynthesisError::Unsatisfiable => b::SynthesisError::Unsatisfiable,
        bellman::SynthesisError::PolynomialDegreeTooLarge => b::SynthesisError::PolynomialDegreeTooLarge,
        bellman::SynthesisError::UnexpectedIdentity => b::SynthesisError::UnexpectedIdentity,
        bellman::SynthesisError::UnconstrainedVariable => b::SynthesisError::UnconstrainedVariable,
        bellman::SynthesisError::IoError(e) => b::SynthesisError::IoError(e),
    }
}
fn back(e: b::SynthesisError) -> bellman::SynthesisError {
    match e {
        b::SynthesisError::AssignmentMissing => bellman::SynthesisError::AssignmentMissing,
        b::SynthesisError::DivisionByZero => bellman::SynthesisError::DivisionByZero,
        b::SynthesisError::Unsatisfiable => bellman::SynthesisError::Unsatisfiable,
        b::SynthesisError::PolynomialDegreeTooLarge => bellman::SynthesisError::PolynomialDegreeTooLarge,
        b::SynthesisError::UnexpectedIdentity => bellman::SynthesisError::UnexpectedIdentity,
        b::SynthesisError::UnconstrainedVariable => bellman::SynthesisError::UnconstrainedVariable,
        b::SynthesisError::IoError(e) => bellman::SynthesisError::IoError(e),
    }
}
fn verdict(r: Result<(), b::VerificationError>) -> String {
    match r {
        Ok(()) => "accepted".into(),
        Err(b::VerificationError::InvalidProof) => "invalid proof".into(),
        Err(b::VerificationError::InvalidVerifyingKey) => "invalid verifying key".into(),
    }
}

// ------------------------------------------------ circuits of either build

pub struct Ad<C>(pub C);
impl<F: PrimeField, C: bellman::Circuit<F>> b::Circuit<F> for Ad<C> {
    fn synthesize<CS: b::ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), b::SynthesisError> {
        self.0.synthesize(&mut CsAd(cs, std::marker::PhantomData)).map_err(fwd)
    }
}
struct CsAd<'a, F, CS>(&'a mut CS, std::marker::PhantomData<F>);
fn vin(v: bellman::Variable) -> b::Variable {
    b::Variable::new_unchecked(match v.get_unchecked() {
        bellman::Index::Input(i) => b::Index::Input(i),
        bellman::Index::Aux(i) => b::Index::Aux(i),
    })
}
fn vout(v: b::Variable) -> bellman::Variable {
    bellman::Variable::new_unchecked(match v.get_unchecked() {
        b::Index::Input(i) => bellman::Index::Input(i),
        b::Index::Aux(i) => bellman::Index::Aux(i),
    })
}
fn lc<F: PrimeField>(z: b::LinearCombination<F>, l: bellman::LinearCombination<F>) -> b::LinearCombination<F> {
    l.as_ref().iter().fold(z, |z, (v, c)| z + (*c, vin(*v)))
}
impl<'a, F: PrimeField, CS: b::ConstraintSystem<F>> bellman::ConstraintSystem<F> for CsAd<'a, F, CS> {
    type Root = Self;
    fn alloc<FF, AN, AR>(&mut self, a: AN, f: FF) -> Result<bellman::Variable, bellman::SynthesisError>
    where
        FF: FnOnce() -> Result<F, bellman::SynthesisError>,
        AN: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.alloc(a, || f().map_err(fwd)).map(vout).map_err(back)
    }
    fn alloc_input<FF, AN, AR>(&mut self, a: AN, f: FF) -> Result<bellman::Variable, bellman::SynthesisError>
    where
        FF: FnOnce() -> Result<F, bellman::SynthesisError>,
        AN: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.alloc_input(a, || f().map_err(fwd)).map(vout).map_err(back)
    }
    fn enforce<AN, AR, LA, LB, LC>(&mut self, n: AN, x: LA, y: LB, z: LC)
    where
        AN: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(bellman::LinearCombination<F>) -> bellman::LinearCombination<F>,
        LB: FnOnce(bellman::LinearCombination<F>) -> bellman::LinearCombination<F>,
        LC: FnOnce(bellman::LinearCombination<F>) -> bellman::LinearCombination<F>,
    {
        let zero = bellman::LinearCombination::zero;
        self.0.enforce(n, |l| lc(l, x(zero())), |l| lc(l, y(zero())), |l| lc(l, z(zero())))
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        #[allow(unused_imports)]
        use b::ConstraintSystem;
        self.0.get_root().push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        #[allow(unused_imports)]
        use b::ConstraintSystem;
        self.0.get_root().pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

// ------------------------------------------------------------ worker

/// Chunked and nested use of the worker; the result is the same for any chunks.
pub fn worker(n: usize, vals: &[u64], nest: bool) -> Vec<u64> {
    let w = Worker::new();
    let mut v: Vec<u64> = (0..n).map(|i| vals[i % vals.len()]).collect();
    let zero = w.scope(v.len(), |s, chunk| {
        for (i, c) in v.chunks_mut(chunk).enumerate() {
            s.spawn(move |s| {
                if nest {
                    let (x, y) = c.split_at_mut(c.len() / 2);
                    s.spawn(move |_| x.iter_mut().for_each(|e| *e = e.rotate_left(5) ^ 1));
                    y.iter_mut().for_each(|e| *e = e.rotate_left(5) ^ 1);
                } else {
                    c.iter_mut().for_each(|e| *e = e.rotate_left(5) ^ 1);
                }
                let _ = i;
            });
        }
        (chunk == 0) as u64
    });
    v.push(zero);
    let own = v.clone();
    let a = w.compute(move || own.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
    let w2 = w.clone();
    let b = w.compute(move || {
        let mut x = vec![3u64; 5];
        w2.scope(5, |s, c| x.chunks_mut(c).for_each(|c| s.spawn(move |_| c.iter_mut().for_each(|e| *e += 1))));
        x.iter().sum()
    });
    let d = b::multicore::Waiter::done(7);
    v.push(a.wait());
    v.push(b.wait());
    v.push(d.wait());
    // work runs although nobody waits for it
    let ran = Arc::new(std::sync::atomic::AtomicU64::new(0));
    for _ in 0..n % 4 {
        let ran = ran.clone();
        drop(w.compute(move || ran.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    }
    for _ in 0..1000 {
        if ran.load(std::sync::atomic::Ordering::SeqCst) == n as u64 % 4 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    v.push(ran.load(std::sync::atomic::Ordering::SeqCst));
    v
}

// ------------------------------------------------------------ domains

fn dom<F: PrimeField, G: Group<F>>(vals: &[F], ops: &[DomOp<F>], mk: impl Fn(F) -> G, get: impl Fn(&G) -> F) -> Result<Vec<F>, String> {
    let w = Worker::new();
    let mut d = EvaluationDomain::<F, G>::from_coeffs(vals.iter().map(|x| mk(*x)).collect()).map_err(|e| err(&e))?;
    let mut more = vec![];
    for o in ops {
        match o {
            DomOp::Fft => d.fft(&w),
            DomOp::Ifft => d.ifft(&w),
            DomOp::CosetFft => d.coset_fft(&w),
            DomOp::IcosetFft => d.icoset_fft(&w),
            DomOp::Powers(x) => d.distribute_powers(&w, *x),
            DomOp::DivZ => d.divide_by_z_on_coset(&w),
            DomOp::Mul(o) => {
                let o = EvaluationDomain::<F, Scalar<F>>::from_coeffs(o.iter().map(|x| Scalar(*x)).collect()).map_err(|e| err(&e))?;
                d.mul_assign(&w, &o)
            }
            DomOp::Sub(o) => {
                let o = EvaluationDomain::<F, G>::from_coeffs(o.iter().map(|x| mk(*x)).collect()).map_err(|e| err(&e))?;
                d.sub_assign(&w, &o)
            }
            DomOp::Z(x) => more.push(d.z(x)),
        }
    }
    Ok(d.into_coeffs().iter().map(get).chain(more).collect())
}
pub fn domain<F: crate::engine::Fld>(points: bool, vals: &[F], ops: &[DomOp<F>]) -> Result<Vec<F>, String> {
    if points {
        dom::<F, Point<P<F, 1>>>(vals, ops, |x| Point(P(x)), |p| p.0 .0)
    } else {
        dom::<F, Scalar<F>>(vals, ops, |x| Scalar(x), |p| p.0)
    }
}

// --------------------------------------------------- multi-exponentiation

#[derive(Clone)]
pub struct Src<G> {
    v: Arc<Vec<G>>,
    at: usize,
    /// Breaks at this element; (also when skipping it).
    bad: Option<(usize, BaseFault, bool)>,
}
impl<G: PrimeCurveAffine> Src<G> {
    fn step(&mut self, n: usize, skip: bool) -> Result<(), b::SynthesisError> {
        if let Some((k, f, both)) = self.bad {
            if self.at + n > k && (both || !skip) {
                return Err(fwd(f.err()));
            }
        }
        if n > 0 && self.at >= self.v.len() {
            return Err(fwd(BaseFault::Eof.err()));
        }
        if !skip && bool::from(self.v[self.at].is_identity()) {
            return Err(b::SynthesisError::UnexpectedIdentity);
        }
        self.at += n;
        Ok(())
    }
}
impl<G: PrimeCurveAffine> b::multiexp::SourceBuilder<G> for Src<G> {
    type Source = Src<G>;
    fn build(self) -> Src<G> {
        self
    }
}
impl<G: PrimeCurveAffine> b::multiexp::Source<G> for Src<G> {
    fn next(&mut self) -> Result<&G, b::SynthesisError> {
        self.step(1, false)?;
        Ok(&self.v[self.at - 1])
    }
    fn skip(&mut self, n: usize) -> Result<(), b::SynthesisError> {
        self.step(n, true)
    }
}

pub fn mexp<F: crate::engine::Fld>(
    bases: &Arc<Vec<A<F, 1>>>,
    skip: usize,
    density: Option<&[bool]>,
    exps: &[F],
    fault: Option<(usize, BaseFault, bool)>,
    own: bool,
) -> Result<F, String> {
    use b::multiexp::{multiexp, DensityTracker, Exponent, FullDensity};
    let w = Worker::new();
    let e: Arc<Vec<Exponent<F>>> = Arc::new(exps.iter().map(|x| x.into()).collect());
    let src = Src { v: bases.clone(), at: skip, bad: fault };
    let tuple = (bases.clone(), skip);
    let r: Result<P<F, 1>, _> = match density {
        None if own => multiexp(&w, src, FullDensity, e).wait(),
        None => multiexp(&w, tuple, FullDensity, e).wait(),
        Some(d) => {
            let mut t = DensityTracker::new();
            for (i, x) in d.iter().enumerate() {
                t.add_element();
                if *x {
                    t.inc(i);
                    t.inc(i);
                }
            }
            if t.get_total_density() != d.iter().filter(|x| **x).count() {
                return Err("wrong total density".into());
            }
            if own {
                multiexp(&w, src, Arc::new(t), e).wait()
            } else {
                multiexp(&w, tuple, Arc::new(t), e).wait()
            }
        }
    };
    r.map(|p| p.0).map_err(|e| err(&e))
}

// ------------------------------------------------------------- Groth16

fn bytes(p: &g::Parameters<Sim>) -> Vec<u8> {
    let mut o = vec![];
    let _ = p.write(&mut o);
    o
}
pub fn generate(c: Ckt, t: &Toxic) -> Result<Vec<u8>, String> {
    g::generate_parameters::<Sim, _>(Ad(c), P(t.g1), P(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau).map(|p| bytes(&p)).map_err(|e| err(&e))
}
pub fn generate_random(c: Ckt, seed: u64) -> Result<Vec<u8>, String> {
    let mut r = Rng::new(seed);
    g::generate_random_parameters::<Sim, _, _>(Ad(c), &mut SRng(&mut r)).map(|p| bytes(&p)).map_err(|e| err(&e))
}

pub struct Source {
    p: Arc<g::Parameters<Sim>>,
    fault: Fault,
}
impl Source {
    fn req(&self, r: Req) -> Result<(), b::SynthesisError> {
        match &self.fault {
            Fault::Request(q, f) if *q == r => Err(fwd(f.err())),
            _ => Ok(()),
        }
    }
    fn one<G: PrimeCurveAffine>(&self, id: usize, v: &[G], at: usize) -> Src<G> {
        let bad = match &self.fault {
            Fault::Stream(i, k, f, both) if *i == id => Some((at + *k, *f, *both)),
            _ => None,
        };
        Src { v: Arc::new(v.to_vec()), at, bad }
    }
}
impl g::ParameterSource<Sim> for Source {
    type G1Builder = Src<A<Fr, 1>>;
    type G2Builder = Src<A<Fr, 2>>;
    fn get_vk(&mut self, _: usize) -> Result<g::VerifyingKey<Sim>, b::SynthesisError> {
        self.req(Req::Vk)?;
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, _: usize) -> Result<Self::G1Builder, b::SynthesisError> {
        self.req(Req::H)?;
        Ok(self.one(0, &self.p.h, 0))
    }
    fn get_l(&mut self, _: usize) -> Result<Self::G1Builder, b::SynthesisError> {
        self.req(Req::L)?;
        Ok(self.one(1, &self.p.l, 0))
    }
    fn get_a(&mut self, i: usize, _: usize) -> Result<(Self::G1Builder, Self::G1Builder), b::SynthesisError> {
        self.req(Req::A)?;
        Ok((self.one(2, &self.p.a, 0), self.one(3, &self.p.a, i)))
    }
    fn get_b_g1(&mut self, i: usize, _: usize) -> Result<(Self::G1Builder, Self::G1Builder), b::SynthesisError> {
        self.req(Req::B1)?;
        Ok((self.one(4, &self.p.b_g1, 0), self.one(5, &self.p.b_g1, i)))
    }
    fn get_b_g2(&mut self, i: usize, _: usize) -> Result<(Self::G2Builder, Self::G2Builder), b::SynthesisError> {
        self.req(Req::B2)?;
        Ok((self.one(6, &self.p.b_g2, 0), self.one(7, &self.p.b_g2, i)))
    }
}

/// Parameters of this build, from their encoding; `short` drops the ends of
/// its vectors (one bit each).
pub fn load(enc: &[u8], checked: bool, short: u64) -> Result<Arc<g::Parameters<Sim>>, String> {
    let mut p = g::Parameters::<Sim>::read(enc, checked).map_err(|e| format!("{:?}", e.kind()))?;
    fn cut<T: Clone>(v: &mut Arc<Vec<T>>, on: bool) {
        if on {
            let mut x = (**v).clone();
            x.pop();
            *v = Arc::new(x);
        }
    }
    cut(&mut p.h, short & 1 != 0);
    cut(&mut p.l, short & 2 != 0);
    cut(&mut p.a, short & 4 != 0);
    cut(&mut p.b_g1, short & 8 != 0);
    cut(&mut p.b_g2, short & 16 != 0);
    Ok(Arc::new(p))
}
fn pbytes(p: &g::Proof<Sim>) -> Vec<u8> {
    let mut o = vec![];
    let _ = p.write(&mut o);
    o
}
pub fn prove(c: Ckt, enc: &[u8], short: u64, fault: &Fault, r: Fr, s: Fr) -> Result<Vec<u8>, String> {
    let p = load(enc, false, short)?;
    match fault {
        Fault::None => g::create_proof::<Sim, _, _>(Ad(c), &*p, r, s),
        Fault::Random(seed) => {
            let mut r = Rng::new(*seed);
            g::create_random_proof::<Sim, _, _, _>(Ad(c), &*p, &mut SRng(&mut r))
        }
        f => g::create_proof::<Sim, _, _>(Ad(c), Source { p, fault: f.clone() }, r, s),
    }
    .map(|p| pbytes(&p))
    .map_err(|e| err(&e))
}
/// Verdicts on all items one by one and together.
pub fn verify(enc_vk: &[u8], items: &[Item], seed: u64) -> Vec<String> {
    let vk = match g::VerifyingKey::<Sim>::read(enc_vk) {
        Ok(v) => v,
        Err(e) => return vec![format!("{:?}", e.kind())],
    };
    let pvk = g::prepare_verifying_key(&vk);
    let mut out = vec![];
    let mut batch = g::batch::Verifier::new();
    for (p, x) in items {
        match g::Proof::<Sim>::read(&p[..]) {
            Err(e) => out.push(format!("{:?}", e.kind())),
            Ok(p) => {
                out.push(verdict(g::verify_proof(&pvk, &p, x)));
                let it: g::batch::Item<Sim> = (&p, &x[..]).into();
                out.push(verdict(it.clone().verify_single(&pvk)));
                batch.queue(it);
            }
        }
    }
    let mut r = Rng::new(seed);
    out.push(verdict(batch.verify(SRng(&mut r), &vk)));
    out
}
/// Reads an encoding and writes what was read.
pub fn reencode(kind: u64, enc: &[u8], checked: bool) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    match kind {
        0 => g::Proof::<Sim>::read(enc).map(|p| p.write(&mut o)),
        1 => g::VerifyingKey::<Sim>::read(enc).map(|p| p.write(&mut o)),
        _ => g::Parameters::<Sim>::read(enc, checked).map(|p| p.write(&mut o)),
    }
    .map_err(|e| format!("{:?}: {}", e.kind(), e))?
    .map_err(|e| format!("{:?}: {}", e.kind(), e))?;
    Ok(o)
}

// ------------------------------------------------------------- gadgets

/// The fingerprint, size and satisfaction of some gadgets.
pub fn gadgets(msg: &[u8], x: u64, hash: bool) -> Vec<String> {
    use b::gadgets::boolean::{AllocatedBit, Boolean};
    use b::gadgets::num::AllocatedNum;
    use b::gadgets::test::TestConstraintSystem;
    use b::ConstraintSystem;
    let mut cs = TestConstraintSystem::<Fr>::new();
    let bits: Vec<Boolean> = (0..msg.len() * 8)
        .map(|i| Boolean::from(AllocatedBit::alloc(cs.namespace(|| format!("bit {}", i)), Some(msg[i / 8] >> (7 - i % 8) & 1 == 1)).unwrap()))
        .collect();
    let mut out: Vec<String> = vec![];
    if hash {
        let h = b::gadgets::sha256::sha256(cs.namespace(|| "sha"), &bits);
        out.push(h.map(|h| h.iter().map(|x| format!("{:?}", x.get_value())).collect()).unwrap_or_else(|e| err(&e)));
        let h = b::gadgets::blake2s::blake2s(cs.namespace(|| "blake"), &bits, b"12345678");
        out.push(h.map(|h| h.iter().map(|x| format!("{:?}", x.get_value())).collect()).unwrap_or_else(|e| err(&e)));
    }
    let n = AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(Fr::from(x))).unwrap();
    let m = n.mul(cs.namespace(|| "mul"), &n).unwrap();
    let strict = m.to_bits_le_strict(cs.namespace(|| "strict")).unwrap();
    out.push(strict.iter().map(|x| format!("{:?}", x.get_value())).collect());
    if let Err(e) = n.assert_nonzero(cs.namespace(|| "nonzero")) {
        out.push(err(&e));
    }
    let _ = b::gadgets::multipack::pack_into_inputs(cs.namespace(|| "pack"), &bits);
    out.push(cs.hash());
    out.push(format!("{} {} {:?}", cs.num_constraints(), cs.num_inputs(), cs.which_is_unsatisfied()));
    out
}
