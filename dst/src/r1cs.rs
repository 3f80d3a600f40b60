//! Recorded constraint systems, random circuits and the exact Groth16 model
//! in the exponent (every group element is its discrete logarithm).
use crate::engine::{Fr, Sim, A, P};
use crate::util::*;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::{Field, PrimeField};
use groth16::{Parameters, Proof, VerifyingKey};
use simrt::rng::Rng;
use simrt::w;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Lc<F> = Vec<(Index, F)>;

// ---------------------------------------------------------------- recording

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Invoke assignment closures.
    Witness,
    /// Never invoke them (parameter generation).
    Shape,
}

/// Records everything a circuit does to a constraint system.
pub struct Rec<F: PrimeField> {
    pub mode: Mode,
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<[Lc<F>; 3]>,
    /// Sequence of allocations (true = input) and constraints (None).
    pub trace: Vec<Option<bool>>,
    pub names: Vec<String>,
    pub ns: Vec<String>,
    pub pops: usize,
    /// Fail the n-th assignment (counting from 0) with AssignmentMissing.
    pub drop_assignment: Option<usize>,
    pub asked: usize,
    pub keep_names: bool,
}

impl<F: PrimeField> Rec<F> {
    pub fn new(mode: Mode) -> Self {
        Rec {
            mode,
            inputs: vec![F::ONE],
            aux: vec![],
            cons: vec![],
            trace: vec![],
            names: vec![],
            ns: vec![],
            pops: 0,
            drop_assignment: None,
            asked: 0,
            keep_names: false,
        }
    }
    fn value(&mut self, f: impl FnOnce() -> Result<F, SynthesisError>) -> Result<F, SynthesisError> {
        if self.mode == Mode::Shape {
            return Ok(F::ZERO);
        }
        let k = self.asked;
        self.asked += 1;
        if self.drop_assignment == Some(k) {
            return Err(SynthesisError::AssignmentMissing);
        }
        f()
    }
    fn name(&mut self, s: String) {
        if self.keep_names {
            let mut p = self.ns.join("/");
            if !p.is_empty() {
                p.push('/');
            }
            self.names.push(p + &s);
        }
    }
    pub fn val(&self, i: Index) -> F {
        match i {
            Index::Input(i) => self.inputs[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn eval(&self, l: &Lc<F>) -> F {
        l.iter().fold(F::ZERO, |a, (i, c)| a + self.val(*i) * c)
    }
    /// First constraint the current values violate.
    pub fn violated(&self) -> Option<usize> {
        self.cons.iter().position(|c| self.eval(&c[0]) * self.eval(&c[1]) != self.eval(&c[2]))
    }
    pub fn is_ok(&self) -> bool {
        self.violated().is_none()
    }
    /// Same allocations and constraints, term by term after merging terms.
    pub fn same_shape(&self, o: &Self) -> Result<(), String> {
        if self.trace != o.trace {
            let at = self.trace.iter().zip(&o.trace).position(|(a, b)| a != b);
            return Err(format!(
                "sequences of allocations and constraints differ: {} and {} steps, first difference at {:?}",
                self.trace.len(),
                o.trace.len(),
                at
            ));
        }
        for (i, (a, b)) in self.cons.iter().zip(&o.cons).enumerate() {
            for k in 0..3 {
                if net(&a[k]) != net(&b[k]) {
                    return Err(format!("constraint {} differs in part {}", i, k));
                }
            }
        }
        Ok(())
    }
}

/// Merged terms, without those that cancel.
pub fn net<F: PrimeField>(l: &Lc<F>) -> Vec<((bool, usize), F)> {
    let mut m: BTreeMap<(bool, usize), F> = BTreeMap::new();
    for (i, c) in l {
        let k = match i {
            Index::Input(i) => (false, *i),
            Index::Aux(i) => (true, *i),
        };
        *m.entry(k).or_insert(F::ZERO) += c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero_vartime()).collect()
}

fn rec_lc<F: PrimeField>(l: LinearCombination<F>) -> Lc<F> {
    l.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect()
}

impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FF, AN, AR>(&mut self, a: AN, f: FF) -> Result<Variable, SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        AN: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.value(f)?;
        if self.keep_names {
            self.name(a().into());
        }
        self.aux.push(v);
        self.trace.push(Some(false));
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FF, AN, AR>(&mut self, a: AN, f: FF) -> Result<Variable, SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        AN: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.value(f)?;
        if self.keep_names {
            self.name(a().into());
        }
        self.inputs.push(v);
        self.trace.push(Some(true));
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<AN, AR, LA, LB, LC>(&mut self, n: AN, a: LA, b: LB, c: LC)
    where
        AN: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        if self.keep_names {
            self.name(n().into());
        }
        let z = LinearCombination::zero;
        self.cons.push([rec_lc(a(z())), rec_lc(b(z())), rec_lc(c(z()))]);
        self.trace.push(None);
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.ns.push(if self.keep_names { n().into() } else { String::new() });
    }
    fn pop_namespace(&mut self) {
        self.pops += 1;
        if self.ns.pop().is_none() {
            simrt::fail("namespace", "a namespace was left that had not been entered");
        }
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}

// ------------------------------------------------------------ random circuits

/// How a variable gets its value.
#[derive(Clone, Debug)]
pub enum Def {
    Free,
    /// value = A*B - rest; constraint A*B = rest + value
    Derived(Lc<Fr>, Lc<Fr>, Lc<Fr>),
    Bool,
}

#[derive(Clone, Debug)]
pub enum Op {
    Alloc(usize),
    Enforce(usize),
    Enter,
    Leave,
    /// A step of the circuit that can fail (faults only).
    Step,
}

#[derive(Clone, Debug)]
pub struct Spec {
    /// (is input, definition) by variable id; ids are in allocation order.
    pub vars: Vec<(bool, Def)>,
    pub index: Vec<Index>,
    pub cons: Vec<[Lc<Fr>; 3]>,
    pub ops: Vec<Op>,
    pub n_in: usize,
    pub n_aux: usize,
}

fn coeff(r: &mut Rng) -> Fr {
    match r.below(8) {
        0 => Fr::from(2),
        1 => -Fr::ONE,
        2 => Fr::from(r.below(1000)),
        3 => full::<Fr>(r),
        _ => Fr::ONE,
    }
}

#[derive(Clone, Copy)]
pub struct Knobs {
    pub inputs: u64,
    pub aux: u64,
    pub extra: u64,
    /// allow zero coefficients, duplicate and cancelling terms
    pub odd: bool,
    /// allow variables that end up unconstrained
    pub loose: bool,
}

impl Spec {
    pub fn random(k: Knobs) -> Spec {
        let n_in = w(k.inputs + 1) as usize;
        let n_aux = w(k.aux + 1) as usize;
        let extra = w(k.extra + 1) as usize;
        let mut r = rng();
        let r = &mut r;
        let mut s = Spec { vars: vec![], index: vec![], cons: vec![], ops: vec![], n_in: 0, n_aux: 0 };
        let mut left_in = n_in;
        let mut left_aux = n_aux;
        let mut depth = 0;
        while left_in + left_aux > 0 {
            if r.below(6) == 0 {
                s.ops.push(Op::Enter);
                depth += 1;
            }
            if depth > 0 && r.below(5) == 0 {
                s.ops.push(Op::Leave);
                depth -= 1;
            }
            if r.below(5) == 0 {
                s.ops.push(Op::Step);
            }
            let input = left_in > 0 && (left_aux == 0 || r.below((left_in + left_aux) as u64) < left_in as u64);
            if input {
                left_in -= 1;
            } else {
                left_aux -= 1;
            }
            let def = match r.below(5) {
                0 => Def::Free,
                1 => Def::Bool,
                _ => {
                    let a = s.lc(r, 4, k.odd);
                    let b = s.lc(r, 4, k.odd);
                    let c = if r.below(3) == 0 { s.lc(r, 2, k.odd) } else { vec![] };
                    Def::Derived(a, b, c)
                }
            };
            let id = s.vars.len();
            let ix = if input {
                s.n_in += 1;
                Index::Input(s.n_in)
            } else {
                s.n_aux += 1;
                Index::Aux(s.n_aux - 1)
            };
            s.vars.push((input, def.clone()));
            s.index.push(ix);
            s.ops.push(Op::Alloc(id));
            match def {
                Def::Derived(a, b, mut c) => {
                    let at = r.below(c.len() as u64 + 1) as usize;
                    c.insert(at, (ix, Fr::ONE));
                    s.enforce([a, b, c]);
                }
                Def::Bool => {
                    let one = (Index::Input(0), Fr::ONE);
                    s.enforce([vec![one, (ix, -Fr::ONE)], vec![(ix, Fr::ONE)], vec![]]);
                }
                Def::Free => {}
            }
        }
        for _ in 0..extra {
            let kind = r.below(7);
            let l = s.lc(r, 5, k.odd);
            let one = vec![(Index::Input(0), Fr::ONE)];
            match kind {
                0 => s.enforce([l.clone(), one, l]),
                1 => s.enforce([one, l.clone(), l]),
                2 => s.enforce([vec![], l, vec![]]),
                3 => s.enforce([l, vec![], vec![]]),
                4 => {
                    // (l - l) * k = 0 : cancelling terms
                    let mut c = l.clone();
                    if k.odd {
                        c.extend(l.iter().map(|(i, v)| (*i, -*v)));
                    } else {
                        c = vec![];
                    }
                    let other = s.lc(r, 2, k.odd);
                    s.enforce([c, other, vec![]]);
                }
                5 => {
                    // l * (k - k) = 0
                    let mut c = s.lc(r, 2, false);
                    if k.odd {
                        c.extend(c.clone().iter().map(|(i, v)| (*i, -*v)));
                    } else {
                        c = vec![];
                    }
                    s.enforce([l, c, vec![]]);
                }
                _ => {
                    // repeat an earlier constraint
                    if !s.cons.is_empty() {
                        let j = r.below(s.cons.len() as u64) as usize;
                        let c = s.cons[j].clone();
                        s.enforce(c);
                    }
                }
            }
        }
        for _ in 0..depth {
            s.ops.push(Op::Leave);
        }
        if !k.loose {
            // Give every auxiliary variable an effect.
            let used = s.effective();
            for id in 0..s.vars.len() {
                if let Index::Aux(i) = s.index[id] {
                    if !used[i] {
                        let l = vec![(s.index[id], Fr::ONE)];
                        let one = vec![(Index::Input(0), Fr::ONE)];
                        if r.below(2) == 0 {
                            s.enforce([l.clone(), one, l]);
                        } else {
                            s.enforce([one, l.clone(), l]);
                        }
                    }
                }
            }
        }
        s
    }

    fn enforce(&mut self, c: [Lc<Fr>; 3]) {
        self.cons.push(c);
        self.ops.push(Op::Enforce(self.cons.len() - 1));
    }

    fn lc(&self, r: &mut Rng, max: u64, odd: bool) -> Lc<Fr> {
        let mut n = r.below(max + 1);
        if r.below(60) == 0 {
            // a long combination
            n = 8 + r.below(80);
        }
        let mut l: Lc<Fr> = vec![];
        for _ in 0..n {
            let k = r.below(self.vars.len() as u64 + 1) as usize;
            let ix = if k == 0 { Index::Input(0) } else { self.index[k - 1] };
            if !odd && l.iter().any(|(i, _)| *i == ix) {
                continue;
            }
            let mut c = coeff(r);
            if !odd && bool::from(c.is_zero()) {
                c = Fr::ONE;
            }
            if odd && r.below(10) == 0 {
                c = Fr::ZERO;
            }
            l.push((ix, c));
            if odd && r.below(8) == 0 {
                l.push((ix, -c));
            }
        }
        l
    }

    /// Which auxiliary variables have some net coefficient somewhere.
    pub fn effective(&self) -> Vec<bool> {
        let mut u = vec![false; self.n_aux];
        for c in &self.cons {
            for l in c {
                for ((aux, i), _) in net(l) {
                    if aux {
                        u[i] = true;
                    }
                }
            }
        }
        u
    }

    /// A satisfying assignment by variable id.
    pub fn assign(&self, r: &mut Rng) -> Vec<Fr> {
        let mut v: Vec<Fr> = vec![];
        for (_, d) in &self.vars {
            let x = match d {
                Def::Free => fe::<Fr>(r),
                Def::Bool => Fr::from(r.below(2)),
                Def::Derived(a, b, c) => self.eval(a, &v) * self.eval(b, &v) - self.eval(c, &v),
            };
            v.push(x);
        }
        v
    }
    pub fn value(&self, i: Index, v: &[Fr]) -> Fr {
        match i {
            Index::Input(0) => Fr::ONE,
            _ => v[self.index.iter().position(|x| *x == i).unwrap()],
        }
    }
    pub fn eval(&self, l: &Lc<Fr>, v: &[Fr]) -> Fr {
        l.iter().fold(Fr::ZERO, |a, (i, c)| a + self.value(*i, v) * c)
    }
    pub fn violated(&self, v: &[Fr]) -> Option<usize> {
        self.cons.iter().position(|c| self.eval(&c[0], v) * self.eval(&c[1], v) != self.eval(&c[2], v))
    }
    pub fn public(&self, v: &[Fr]) -> Vec<Fr> {
        (0..self.vars.len()).filter(|i| self.vars[*i].0).map(|i| v[i]).collect()
    }
    pub fn describe(&self) -> String {
        format!("circuit with {} inputs, {} aux, {} constraints", self.n_in, self.n_aux, self.cons.len())
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = (self.n_in as u64) << 40 | (self.n_aux as u64) << 20 | self.cons.len() as u64;
        for c in &self.cons {
            for l in c {
                h = h.rotate_left(7).wrapping_add(l.len() as u64 + 1);
                for (i, v) in l {
                    let k = match i {
                        Index::Input(i) => *i as u64,
                        Index::Aux(i) => (*i as u64) << 16,
                    };
                    h = (h ^ k ^ fhash(v)).wrapping_mul(0x100000001b3);
                }
            }
        }
        h
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fail {
    /// The assignment of this variable id is missing.
    Assignment(usize),
    /// The synthesis itself fails just before this op.
    Step(usize, u8),
    /// The assignment closure itself returns this error.
    Closure(usize, u8),
}

pub fn mk_err(k: u8) -> SynthesisError {
    match k % 5 {
        0 => SynthesisError::AssignmentMissing,
        1 => SynthesisError::DivisionByZero,
        2 => SynthesisError::Unsatisfiable,
        3 => SynthesisError::UnconstrainedVariable,
        _ => std::io::Error::new(std::io::ErrorKind::Other, "injected circuit failure").into(),
    }
}

#[derive(Clone)]
pub struct Ckt {
    pub spec: Arc<Spec>,
    pub wit: Option<Arc<Vec<Fr>>>,
    pub fail: Option<Fail>,
    /// Set when any assignment closure is invoked.
    pub asked: Arc<std::sync::atomic::AtomicUsize>,
}

impl Ckt {
    pub fn new(spec: &Arc<Spec>, wit: Option<&Arc<Vec<Fr>>>) -> Ckt {
        Ckt { spec: spec.clone(), wit: wit.cloned(), fail: None, asked: Default::default() }
    }
    fn go<CS: ConstraintSystem<Fr>>(&self, cs: &mut CS, at: &mut usize, ixs: &mut Vec<Variable>) -> Result<(), SynthesisError> {
        while *at < self.spec.ops.len() {
            let k = *at;
            if let Some(Fail::Step(i, e)) = self.fail {
                if i == k {
                    simrt::count("fault:circuit-step-error");
                    return Err(mk_err(e));
                }
            }
            *at += 1;
            match &self.spec.ops[k] {
                Op::Alloc(id) => {
                    let id = *id;
                    let f = || {
                        self.asked.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        match self.fail {
                            Some(Fail::Assignment(i)) if i == id => {
                                simrt::count("fault:assignment-missing");
                                Err(SynthesisError::AssignmentMissing)
                            }
                            Some(Fail::Closure(i, e)) if i == id => {
                                simrt::count("fault:assignment-error");
                                Err(mk_err(e))
                            }
                            _ => match &self.wit {
                                Some(v) => Ok(v[id]),
                                None => Err(SynthesisError::AssignmentMissing),
                            },
                        }
                    };
                    let v = if self.spec.vars[id].0 {
                        cs.alloc_input(|| format!("v{}", id), f)?
                    } else {
                        cs.alloc(|| format!("v{}", id), f)?
                    };
                    if v.get_unchecked() != self.spec.index[id] {
                        simrt::fail("variable-index", format!("variable {} was given index {:?} instead of {:?}", id, v.get_unchecked(), self.spec.index[id]));
                    }
                    ixs.push(v);
                }
                Op::Enforce(i) => {
                    let c = &self.spec.cons[*i];
                    let build = |mut l: LinearCombination<Fr>, t: &Lc<Fr>| {
                        for (ix, co) in t {
                            let v = match ix {
                                Index::Input(0) => CS::one(),
                                _ => Variable::new_unchecked(*ix),
                            };
                            // exercise the different ways of adding a term
                            if *co == Fr::ONE {
                                l = l + v;
                            } else if *co == -Fr::ONE {
                                l = l - v;
                            } else {
                                l = l + (*co, v);
                            }
                        }
                        l
                    };
                    cs.enforce(|| format!("c{}", i), |l| build(l, &c[0]), |l| build(l, &c[1]), |l| build(l, &c[2]));
                }
                Op::Enter => {
                    let mut ns = cs.namespace(|| format!("n{}", k));
                    self.go(&mut ns, at, ixs)?;
                }
                Op::Leave => return Ok(()),
                Op::Step => {}
            }
        }
        Ok(())
    }
}

impl Circuit<Fr> for Ckt {
    fn synthesize<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut at = 0;
        let mut v = vec![];
        // Leave without Enter only ends the current level; keep going at the top.
        while at < self.spec.ops.len() {
            self.go(cs, &mut at, &mut v)?;
        }
        Ok(())
    }
}

// --------------------------------------------------------------- exact model

#[derive(Clone, Debug)]
pub struct Toxic {
    pub g1: Fr,
    pub g2: Fr,
    pub alpha: Fr,
    pub beta: Fr,
    pub gamma: Fr,
    pub delta: Fr,
    pub tau: Fr,
}
impl Toxic {
    pub fn random(r: &mut Rng) -> Toxic {
        Toxic { g1: nz(r), g2: nz(r), alpha: nz(r), beta: nz(r), gamma: nz(r), delta: nz(r), tau: nz(r) }
    }
}

/// Evaluations of the circuit's polynomials at tau.
pub struct Qap {
    pub m: usize,
    pub tau: Fr,
    pub z: Fr,
    /// per variable: inputs first (including one), then aux
    pub a: Vec<Fr>,
    pub b: Vec<Fr>,
    pub c: Vec<Fr>,
    pub n_in: usize,
}

pub fn qap(cons: &[[Lc<Fr>; 3]], n_in_with_one: usize, n_aux: usize, tau: Fr) -> Qap {
    let rows = cons.len() + n_in_with_one;
    let m = rows.next_power_of_two();
    let exp = m.trailing_zeros();
    let mut omega = Fr::ROOT_OF_UNITY;
    for _ in exp..Fr::S {
        omega = omega.square();
    }
    let z = ff::Field::pow_vartime(&tau, [m as u64]) - Fr::ONE;
    let minv = Fr::from(m as u64).invert().unwrap();
    let mut wi = Fr::ONE;
    let lag: Vec<Fr> = (0..rows)
        .map(|_| {
            let d = tau - wi;
            let l = if bool::from(d.is_zero()) { Fr::ONE } else { z * minv * wi * d.invert().unwrap() };
            wi *= omega;
            l
        })
        .collect();
    let n = n_in_with_one + n_aux;
    let mut p = [vec![Fr::ZERO; n], vec![Fr::ZERO; n], vec![Fr::ZERO; n]];
    for (row, c) in cons.iter().enumerate() {
        for k in 0..3 {
            for (i, co) in &c[k] {
                let j = match i {
                    Index::Input(i) => *i,
                    Index::Aux(i) => n_in_with_one + *i,
                };
                p[k][j] += lag[row] * co;
            }
        }
    }
    for i in 0..n_in_with_one {
        p[0][i] += lag[cons.len() + i];
    }
    let [a, b, c] = p;
    Qap { m, tau, z, a, b, c, n_in: n_in_with_one }
}

impl Spec {
    pub fn qap(&self, tau: Fr) -> Qap {
        qap(&self.cons, self.n_in + 1, self.n_aux, tau)
    }
}

/// The reference string, or the reason it must be refused.
pub fn crs(q: &Qap, t: &Toxic) -> Result<Parameters<Sim>, Vec<&'static str>> {
    let mut refuse = vec![];
    let (gi, di) = (t.gamma.invert(), t.delta.invert());
    if bool::from(gi.is_none()) || bool::from(di.is_none()) {
        refuse.push("UnexpectedIdentity");
    }
    let e = |i: usize| t.beta * q.a[i] + t.alpha * q.b[i] + q.c[i];
    let gi = gi.unwrap_or(Fr::ZERO);
    let di = di.unwrap_or(Fr::ZERO);
    let n = q.a.len();
    let ic: Vec<_> = (0..q.n_in).map(|i| A(t.g1 * e(i) * gi)).collect();
    if (q.n_in..n).any(|i| bool::from(e(i).is_zero())) {
        refuse.push("UnconstrainedVariable");
    }
    if !refuse.is_empty() {
        return Err(refuse);
    }
    let l: Vec<_> = (q.n_in..n).map(|i| A(t.g1 * e(i) * di)).collect();
    let mut tp = Fr::ONE;
    let h: Vec<_> = (0..q.m - 1)
        .map(|_| {
            let v = t.g1 * tp * q.z * di;
            tp *= t.tau;
            A(v)
        })
        .collect();
    let nzv = |v: &[Fr], g: Fr| v.iter().filter(|x| !bool::from(x.is_zero())).map(|x| *x * g).collect::<Vec<Fr>>();
    Ok(Parameters {
        vk: VerifyingKey {
            alpha_g1: A(t.g1 * t.alpha),
            beta_g1: A(t.g1 * t.beta),
            beta_g2: A(t.g2 * t.beta),
            gamma_g2: A(t.g2 * t.gamma),
            delta_g1: A(t.g1 * t.delta),
            delta_g2: A(t.g2 * t.delta),
            ic,
        },
        h: Arc::new(h),
        l: Arc::new(l),
        a: Arc::new(nzv(&q.a, t.g1).into_iter().map(A).collect()),
        b_g1: Arc::new(nzv(&q.b, t.g1).into_iter().map(A).collect()),
        b_g2: Arc::new(nzv(&q.b, t.g2).into_iter().map(A).collect()),
    })
}

/// The proof an honest prover must output for inputs (with one) and aux values.
pub fn model_proof(q: &Qap, t: &Toxic, x: &[Fr], r: Fr, s: Fr) -> Proof<Sim> {
    let dot = |v: &[Fr]| v.iter().zip(x).fold(Fr::ZERO, |a, (p, y)| a + *p * y);
    let (at, bt, ct) = (dot(&q.a), dot(&q.b), dot(&q.c));
    let di = t.delta.invert().unwrap();
    let mut aux = Fr::ZERO;
    for i in q.n_in..q.a.len() {
        aux += x[i] * (t.beta * q.a[i] + t.alpha * q.b[i] + q.c[i]);
    }
    let hz = at * bt - ct;
    let a = t.alpha + at + r * t.delta;
    let b = t.beta + bt + s * t.delta;
    let c = (aux + hz) * di + a * s + b * r - r * s * t.delta;
    Proof { a: A(a * t.g1), b: A(b * t.g2), c: A(c * t.g1) }
}

/// Values of (one, inputs.., aux..) from values by variable id.
pub fn vector(s: &Spec, v: &[Fr]) -> Vec<Fr> {
    let mut x = vec![Fr::ONE];
    x.extend(s.public(v));
    x.extend((0..s.vars.len()).filter(|i| !s.vars[*i].0).map(|i| v[i]));
    x
}

/// The pairing equation over discrete logarithms.
pub fn equation(vk: &VerifyingKey<Sim>, p: &Proof<Sim>, inputs: &[Fr]) -> bool {
    if inputs.len() + 1 != vk.ic.len() {
        return false;
    }
    let mut acc = vk.ic[0].0;
    for (i, v) in inputs.iter().zip(&vk.ic[1..]) {
        acc += v.0 * i;
    }
    p.a.0 * p.b.0 == vk.alpha_g1.0 * vk.beta_g2.0 + acc * vk.gamma_g2.0 + p.c.0 * vk.delta_g2.0
}

pub fn diff_params(a: &Parameters<Sim>, b: &Parameters<Sim>) -> Option<String> {
    macro_rules! f {
        ($($x:ident).+) => {
            if a.$($x).+ != b.$($x).+ { return Some(format!("{} differs", stringify!($($x).+))); }
        };
    }
    f!(vk.alpha_g1);
    f!(vk.beta_g1);
    f!(vk.beta_g2);
    f!(vk.gamma_g2);
    f!(vk.delta_g1);
    f!(vk.delta_g2);
    macro_rules! v {
        ($($x:ident).+) => {
            if a.$($x).+.len() != b.$($x).+.len() {
                return Some(format!("{} has {} elements instead of {}", stringify!($($x).+), a.$($x).+.len(), b.$($x).+.len()));
            }
            if let Some(i) = a.$($x).+.iter().zip(b.$($x).+.iter()).position(|(x, y)| x != y) {
                return Some(format!("{}[{}] differs", stringify!($($x).+), i));
            }
        };
    }
    v!(vk.ic);
    v!(h);
    v!(l);
    v!(a);
    v!(b_g1);
    v!(b_g2);
    None
}

pub fn gen(spec: &Arc<Spec>, t: &Toxic) -> Result<Parameters<Sim>, SynthesisError> {
    groth16::generate_parameters::<Sim, _>(
        Ckt::new(spec, None),
        P(t.g1),
        P(t.g2),
        t.alpha,
        t.beta,
        t.gamma,
        t.delta,
        t.tau,
    )
}
