//! C27: the testing constraint system against an independent record of what
//! was synthesized and overwritten, and against real proofs.
use super::groth::{blind, setup};
use crate::engine::{Fr, Sim};
use crate::r1cs::{net, Ckt, Knobs, Lc, Mode, Rec};
use crate::util::*;
use crate::zp::*;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, Variable};
use ff::{PrimeField, PrimeFieldBits};
use groth16::{create_proof, prepare_verifying_key, verify_proof};
use simrt::rng::Rng;
use simrt::{count, fail, phase, quiet, set_sample, w};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Obj {
    Var(Index),
    Con,
    Space,
}

/// What the testing constraint system should contain.
struct Model<F> {
    objs: BTreeMap<String, Obj>,
    ns: Vec<String>,
    inputs: Vec<(F, String)>,
    aux: Vec<(F, String)>,
    cons: Vec<([Lc<F>; 3], String)>,
}

impl<F: PrimeField> Model<F> {
    fn new() -> Self {
        let mut objs = BTreeMap::new();
        objs.insert("ONE".to_string(), Obj::Var(Index::Input(0)));
        Model { objs, ns: vec![], inputs: vec![(F::ONE, "ONE".into())], aux: vec![], cons: vec![] }
    }
    fn path(&self, name: &str) -> String {
        let mut p = self.ns.clone();
        p.push(name.to_string());
        p.join("/")
    }
    fn val(&self, i: Index) -> F {
        match i {
            Index::Input(i) => self.inputs[i].0,
            Index::Aux(i) => self.aux[i].0,
        }
    }
    fn put(&mut self, i: Index, v: F) {
        match i {
            Index::Input(i) => self.inputs[i].0 = v,
            Index::Aux(i) => self.aux[i].0 = v,
        }
    }
    fn eval(&self, l: &Lc<F>) -> F {
        l.iter().fold(F::ZERO, |a, (i, c)| a + self.val(*i) * c)
    }
    fn first_bad(&self) -> Option<&str> {
        self.cons.iter().find(|(c, _)| self.eval(&c[0]) * self.eval(&c[1]) != self.eval(&c[2])).map(|c| &c.1[..])
    }
    fn vars(&self) -> Vec<Index> {
        (0..self.inputs.len()).map(Index::Input).chain((0..self.aux.len()).map(Index::Aux)).collect()
    }
    /// The shape: number of variables and the merged terms of every constraint.
    fn shape(&self) -> (usize, usize, Vec<[Vec<((bool, usize), F)>; 3]>) {
        (self.inputs.len(), self.aux.len(), self.cons.iter().map(|(c, _)| [net(&c[0]), net(&c[1]), net(&c[2])]).collect())
    }
}

fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// All queries against the model.
fn compare<F: PrimeField>(t: &mut TestConstraintSystem<F>, m: &Model<F>, r: &mut Rng) {
    let want = m.first_bad();
    let got = t.which_is_unsatisfied();
    if got != want {
        fail("wrong-verdict", format!("the first violated of {} constraints is {:?} but {:?} was reported", m.cons.len(), want, got));
    }
    if t.is_satisfied() != want.is_none() {
        fail("wrong-verdict", format!("is_satisfied is {} while {:?} is violated", t.is_satisfied(), want));
    }
    count(if want.is_some() { "oracle:violated" } else { "oracle:satisfied" });
    if t.num_constraints() != m.cons.len() || t.num_inputs() != m.inputs.len() {
        fail("wrong-count", format!("{} inputs and {} constraints instead of {} and {}", t.num_inputs(), t.num_constraints(), m.inputs.len(), m.cons.len()));
    }
    let mut public: Vec<F> = m.inputs[1..].iter().map(|x| x.0).collect();
    if !t.verify(&public) {
        fail("wrong-inputs", "verify refused the current public inputs");
    }
    if !public.is_empty() {
        let k = r.below(public.len() as u64) as usize;
        public[k] += F::ONE;
        if t.verify(&public) {
            fail("wrong-inputs", format!("verify accepted another value for public input {}", k));
        }
        public[k] -= F::ONE;
    }
    count("oracle:public-inputs");
    // an assignment of another length cannot be what was synthesized
    if r.below(4) == 0 {
        if r.below(2) == 0 || public.is_empty() {
            public.push(F::ONE);
        } else {
            public.pop();
        }
        let mut v = false;
        if !panics(|| v = t.verify(&public)) && v {
            fail("wrong-inputs", format!("verify accepted {} values for {} public inputs", public.len(), m.inputs.len() - 1));
        }
        count("probe:wrong-length");
    }
    let k = r.below(m.inputs.len() as u64) as usize;
    if t.get_input(k, &m.inputs[k].1) != m.inputs[k].0 {
        fail("wrong-value", format!("input {} reads back as something else", k));
    }
    for (p, o) in &m.objs {
        if let Obj::Var(i) = o {
            if t.get(p) != m.val(*i) {
                fail("wrong-value", format!("{:?} reads back as something else than what was last assigned", p));
            }
        }
    }
    count("oracle:read-back");
}

/// Reading or writing a name that is no variable is reported and changes nothing.
fn unknown<F: PrimeField>(t: &mut TestConstraintSystem<F>, m: &Model<F>, r: &mut Rng) {
    let bad: Vec<&String> = m.objs.iter().filter(|o| !matches!(o.1, Obj::Var(_))).map(|o| o.0).collect();
    let p = if !bad.is_empty() && r.below(2) == 0 {
        bad[r.below(bad.len() as u64) as usize].clone()
    } else {
        let mut p = m.objs.keys().nth(r.below(m.objs.len() as u64) as usize).unwrap().clone();
        match r.below(4) {
            0 => p += "/",
            1 => p = format!("x/{}", p),
            2 => p += "'",
            _ => {
                p.pop();
            }
        }
        p
    };
    if matches!(m.objs.get(&p), Some(Obj::Var(_))) {
        return;
    }
    count("fault:unknown-name");
    if !panics(|| t.get(&p)) {
        fail("unknown-name", format!("reading {:?} ({:?}) was not reported", p, m.objs.get(&p)));
    }
    if !panics(|| t.set(&p, F::ONE)) {
        fail("unknown-name", format!("overwriting {:?} ({:?}) was not reported", p, m.objs.get(&p)));
    }
    let k = r.below(m.inputs.len() as u64) as usize;
    if m.inputs[k].1 != p && !panics(|| t.get_input(k, &p)) {
        fail("unknown-name", format!("input {} was read under the name {:?} of something else", k, p));
    }
    count("oracle:unknown-name");
}

/// Builds a linear combination in one of the many ways, and its terms.
fn lc<F: PrimeField>(r: &mut Rng, vars: &[Index], deep: bool) -> (LinearCombination<F>, Lc<F>) {
    let mut l = LinearCombination::<F>::zero();
    let mut m: Lc<F> = vec![];
    for _ in 0..r.below(4) {
        let i = vars[r.below(vars.len() as u64) as usize];
        let v = match i {
            Index::Input(0) => TestConstraintSystem::<F>::one(),
            _ => Variable::new_unchecked(i),
        };
        let c = fe::<F>(r);
        match r.below(if deep { 8 } else { 4 }) {
            0 => {
                l = l + v;
                m.push((i, F::ONE));
            }
            1 => {
                l = l - v;
                m.push((i, -F::ONE));
            }
            2 => {
                l = l + (c, v);
                m.push((i, c));
            }
            3 => {
                l = l - (c, v);
                m.push((i, -c));
            }
            k => {
                let (l2, m2) = lc::<F>(r, vars, false);
                let s = match k {
                    4 => {
                        l = l + &l2;
                        F::ONE
                    }
                    5 => {
                        l = l - &l2;
                        -F::ONE
                    }
                    6 => {
                        l = l + (c, &l2);
                        c
                    }
                    _ => {
                        l = l - (c, &l2);
                        -c
                    }
                };
                m.extend(m2.into_iter().map(|(i, x)| (i, x * s)));
            }
        }
    }
    let got: Lc<F> = l.as_ref().iter().map(|(v, c)| (v.get_unchecked(), *c)).collect();
    if net(&got) != net(&m) {
        fail("wrong-combination", "a linear combination does not have the terms it was built from");
    }
    (l, m)
}

fn name(r: &mut Rng, k: &mut usize, m_objs: &BTreeMap<String, Obj>, ns: &[String]) -> String {
    loop {
        *k += 1;
        let n = match r.below(8) {
            0 => ["", "a", "b", "ONE", "ab", "é", "a b"][r.below(7) as usize].to_string(),
            1 => format!("a{}", r.below(4)),
            _ => format!("v{}", k),
        };
        let p = ns.iter().chain(Some(&n)).cloned().collect::<Vec<_>>().join("/");
        if !m_objs.contains_key(&p) {
            return n;
        }
    }
}

/// Offers a name that is taken or not allowed; the system is not used afterwards.
fn clash<F: PrimeField>(t: &mut TestConstraintSystem<F>, m: &Model<F>, r: &mut Rng) {
    let here = if m.ns.is_empty() { String::new() } else { m.ns.join("/") + "/" };
    let taken: Vec<&str> = m.objs.keys().filter_map(|k| k.strip_prefix(&here[..])).filter(|k| !k.contains('/')).collect();
    let n = if taken.is_empty() || r.below(4) == 0 {
        ["a/b", "/", "x/", "/ONE"][r.below(4) as usize].to_string()
    } else {
        taken[r.below(taken.len() as u64) as usize].to_string()
    };
    count("fault:name-clash");
    let what = r.below(4);
    let mut refused = false;
    let p = panics(|| match what {
        0 => refused = t.alloc(|| n.clone(), || Ok(F::ONE)).is_err(),
        1 => refused = t.alloc_input(|| n.clone(), || Ok(F::ONE)).is_err(),
        2 => t.enforce(|| n.clone(), |l| l, |l| l, |l| l),
        _ => t.push_namespace(|| n.clone()),
    });
    if !p && !refused {
        fail("name-clash", format!("{:?} was accepted for a new {} in {:?} although it is taken or not allowed", n, ["variable", "input", "constraint", "namespace"][what as usize], here));
    }
    count("oracle:name-clash");
}

fn history<F: PrimeFieldBits>() {
    let steps = 1 + w(60);
    let mut r = rng();
    let mut t = TestConstraintSystem::<F>::new();
    let mut m = Model::<F>::new();
    let mut k = 0;
    let nv = [0, 3, 8, 30][r.below(4) as usize];
    phase("history");
    for _ in 0..steps {
        let act = r.below(16);
        let n = name(&mut r, &mut k, &m.objs, &m.ns);
        let path = m.path(&n);
        match act {
            0..=2 if m.aux.len() + m.inputs.len() <= nv => {
                let v = fe::<F>(&mut r);
                let miss = r.below(6) == 0;
                let e = r.below(5) as u8;
                let input = act == 0;
                let f = || if miss { Err(crate::r1cs::mk_err(e)) } else { Ok(v) };
                let deep = r.below(3) == 0;
                let got = match (input, deep) {
                    (true, false) => t.alloc_input(|| n.clone(), f),
                    (false, false) => t.alloc(|| n.clone(), f),
                    (true, true) => (&mut t).alloc_input(|| &n[..], f),
                    (false, true) => (&mut t).alloc(|| &n[..], f),
                };
                match (got, miss) {
                    (Err(g), true) => {
                        count("fault:assignment-error");
                        if err_name(&g) != err_name(&crate::r1cs::mk_err(e)) {
                            fail("wrong-error", format!("{} instead of the error of the assignment", err_name(&g)));
                        }
                    }
                    (Ok(_), true) => fail("fault-swallowed", "a failing assignment was accepted"),
                    (Err(e), false) => fail("wrong-error", format!("an allocation failed with {}", err_name(&e))),
                    (Ok(var), false) => {
                        let i = if input { Index::Input(m.inputs.len()) } else { Index::Aux(m.aux.len()) };
                        if var.get_unchecked() != i {
                            fail("wrong-index", format!("a new variable is {:?} instead of {:?}", var.get_unchecked(), i));
                        }
                        if input {
                            m.inputs.push((v, path.clone()));
                        } else {
                            m.aux.push((v, path.clone()));
                        }
                        m.objs.insert(path, Obj::Var(i));
                    }
                }
            }
            0..=6 => {
                let vars = m.vars();
                let (la, a) = lc::<F>(&mut r, &vars, true);
                let (lb, b) = lc::<F>(&mut r, &vars, true);
                let (lc_, c) = match r.below(4) {
                    0 => lc::<F>(&mut r, &vars, true),
                    _ => {
                        // make it hold for the current values
                        let v = m.eval(&a) * m.eval(&b);
                        let one = m.val(Index::Input(0));
                        let i = vars[r.below(vars.len() as u64) as usize];
                        let (i, x) = if m.val(i).is_zero_vartime() { (Index::Input(0), one) } else { (i, m.val(i)) };
                        let co = v * x.invert().unwrap();
                        let var = if i == Index::Input(0) { TestConstraintSystem::<F>::one() } else { Variable::new_unchecked(i) };
                        (LinearCombination::zero() + (co, var), vec![(i, co)])
                    }
                };
                let whole = r.below(2) == 0;
                t.enforce(|| n.clone(), |z| if whole { la } else { z + &la }, |z| z + &lb, |z| z + &lc_);
                m.cons.push(([a, b, c], path.clone()));
                m.objs.insert(path, Obj::Con);
            }
            7 if m.ns.len() < 4 => {
                t.push_namespace(|| n.clone());
                m.objs.insert(path, Obj::Space);
                m.ns.push(n);
            }
            8 if !m.ns.is_empty() => {
                t.pop_namespace();
                m.ns.pop();
            }
            9 => {
                // a namespace used through its guard, entered and left
                let v = fe::<F>(&mut r);
                let i = Index::Aux(m.aux.len());
                {
                    let mut ns = t.namespace(|| n.clone());
                    let mut inner = ns.namespace(|| "in");
                    let _ = inner.alloc(|| "x", || Ok(v));
                    inner.get_root().num_inputs();
                }
                m.objs.insert(path.clone(), Obj::Space);
                m.objs.insert(format!("{}/in", path), Obj::Space);
                m.objs.insert(format!("{}/in/x", path), Obj::Var(i));
                m.aux.push((v, format!("{}/in/x", path)));
            }
            10..=12 => {
                let vs: Vec<(String, Index)> = m.objs.iter().filter_map(|(p, o)| if let Obj::Var(i) = o { Some((p.clone(), *i)) } else { None }).filter(|x| x.0 != "ONE").collect();
                if !vs.is_empty() {
                    let (p, i) = &vs[r.below(vs.len() as u64) as usize];
                    let v = match r.below(3) {
                        0 => m.val(*i) + F::ONE,
                        _ => fe::<F>(&mut r),
                    };
                    t.set(p, v);
                    m.put(*i, v);
                    count("fault:overwrite");
                }
            }
            13 => unknown(&mut t, &m, &mut r),
            _ => compare(&mut t, &m, &mut r),
        }
    }
    compare(&mut t, &m, &mut r);
    unknown(&mut t, &m, &mut r);
    compare(&mut t, &m, &mut r);
    set_sample(&format!("history of {} steps, {} inputs, {} aux, {} constraints", steps, m.inputs.len(), m.aux.len(), m.cons.len()));
    simrt::region::mix_state((m.cons.len() as u64) << 32 | (m.aux.len() as u64) << 16 | m.inputs.len() as u64 | m.inputs.iter().chain(&m.aux).fold(0, |a, x| (a ^ fhash(&x.0)).rotate_left(9)));
    phase("print");
    let s = t.pretty_print();
    for (_, n) in &m.cons {
        if !s.contains(&format!("{}: ", n)) {
            fail("wrong-listing", format!("constraint {:?} is missing from the listing", n));
        }
    }
    if F::Repr::default().as_ref().len() == 32 {
        fingerprints(&t, &m, &mut r);
    }
    clash(&mut t, &m, &mut r);
}

/// Rebuilds the system with one difference (or none that matters).
fn fingerprints<F: PrimeField>(t: &TestConstraintSystem<F>, m: &Model<F>, r: &mut Rng) {
    let h = t.hash();
    for _ in 0..3 {
        let mut cons: Vec<[Lc<F>; 3]> = m.cons.iter().map(|c| c.0.clone()).collect();
        let (mut ni, mut na) = (m.inputs.len(), m.aux.len());
        let vars = m.vars();
        if !cons.is_empty() {
            let c = r.below(cons.len() as u64) as usize;
            let part = r.below(3) as usize;
            let i = vars[r.below(vars.len() as u64) as usize];
            let x = full::<F>(r);
            match r.below(8) {
                0 => {
                    // the same terms in another order, one of them split
                    let l = &mut cons[c][part];
                    l.reverse();
                    l.push((i, x));
                    l.insert(0, (i, -x));
                }
                1 => cons[c][part].push((i, F::ONE)),
                2 => {
                    cons.remove(c);
                }
                3 => cons.swap(0, c),
                4 => cons[c].swap(0, part),
                5 => ni += 1,
                6 => na += 1,
                _ => {
                    if let Some(t) = cons[c][part].first_mut() {
                        t.1 = t.1.double();
                    }
                }
            }
        }
        let mut o = TestConstraintSystem::<F>::new();
        // values and names are different, which must not matter
        for i in 1..ni {
            let _ = o.alloc_input(|| format!("in{}", i), || Ok(full::<F>(r)));
        }
        for i in 0..na {
            let _ = o.alloc(|| format!("aux{}", i), || Ok(full::<F>(r)));
        }
        let mut m2 = Model::<F>::new();
        m2.inputs.resize(ni, (F::ZERO, String::new()));
        m2.aux.resize(na, (F::ZERO, String::new()));
        for (k, c) in cons.iter().enumerate() {
            let b = |z: LinearCombination<F>, l: &Lc<F>| l.iter().fold(z, |z, (i, x)| z + (*x, Variable::new_unchecked(*i)));
            o.enforce(|| format!("c{}", k), |z| b(z, &c[0]), |z| b(z, &c[1]), |z| b(z, &c[2]));
            m2.cons.push((c.clone(), String::new()));
        }
        let same = m2.shape() == m.shape();
        if (o.hash() == h) != same {
            fail("wrong-fingerprint", format!("two systems of {} shape have {} fingerprints", if same { "the same" } else { "different" }, if same { "different" } else { "the same" }));
        }
        count(if same { "oracle:same-fingerprint" } else { "oracle:other-fingerprint" });
    }
}

/// The verdict of the testing constraint system on an assignment and what a
/// proof of the same circuit and assignment verifies to.
fn against_proofs() {
    pool(4);
    let (inputs, aux, extra) = match w(4) {
        0 | 1 => (3, 6, 4),
        2 => (1, 3, 2),
        _ => (6, 20, 10),
    };
    let s = match setup(Knobs { inputs, aux, extra, odd: w(2) == 1, loose: false }) {
        Some(s) => s,
        None => return,
    };
    set_sample(&s.spec.describe());
    let mut r = rng();
    let x = s.wit(&mut r);
    let mut t = TestConstraintSystem::<Fr>::new();
    let mut rec = Rec::<Fr>::new(Mode::Witness);
    rec.keep_names = true;
    phase("synthesize");
    if let Err(e) = s.ckt(&x).synthesize(&mut t) {
        fail("wrong-error", format!("synthesis into the testing system failed with {}", err_name(&e)));
    }
    let _ = s.ckt(&x).synthesize(&mut rec);
    let mut names: Vec<(String, Index)> = vec![];
    let (mut ni, mut na) = (1, 0);
    let mut cons = vec![];
    for (n, k) in rec.names.iter().zip(&rec.trace) {
        match k {
            Some(true) => {
                names.push((n.clone(), Index::Input(ni)));
                ni += 1;
            }
            Some(false) => {
                names.push((n.clone(), Index::Aux(na)));
                na += 1;
            }
            None => cons.push(n.clone()),
        }
    }
    if !t.is_satisfied() {
        fail("wrong-verdict", format!("an honest assignment of a {} is reported to violate {:?}", s.spec.describe(), t.which_is_unsatisfied()));
    }
    let mut v: Vec<Fr> = (*x.v).clone();
    let pvk = quiet(|| prepare_verifying_key(&s.params.vk));
    for _ in 0..1 + r.below(3) {
        for _ in 0..r.below(3) {
            if names.is_empty() {
                break;
            }
            let (n, i) = &names[r.below(names.len() as u64) as usize];
            let id = s.spec.index.iter().position(|x| x == i).unwrap();
            let to = match r.below(4) {
                0 => x.v[id],
                1 => v[id] + Fr::from(1),
                _ => fe::<Fr>(&mut r),
            };
            t.set(n, to);
            v[id] = to;
            if t.get(n) != to {
                fail("wrong-value", format!("{:?} reads back as something else", n));
            }
            count("fault:overwrite");
        }
        let want = quiet(|| s.spec.violated(&v)).map(|i| &cons[i][..]);
        if t.which_is_unsatisfied() != want {
            fail("wrong-verdict", format!("the first violated constraint is {:?} but {:?} was reported", want, t.which_is_unsatisfied()));
        }
        let public = s.spec.public(&v);
        if !t.verify(&public) {
            fail("wrong-inputs", "the public inputs are not what was assigned");
        }
        phase("prove");
        let p = create_proof::<Sim, _, _>(Ckt::new(&s.spec, Some(&Arc::new(v.clone()))), &*s.params, blind(&mut r), blind(&mut r));
        let ok = match &p {
            Ok(p) => verify_proof(&pvk, p, &public).is_ok(),
            Err(_) => false,
        };
        if ok != t.is_satisfied() {
            fail("disagrees-with-proofs", format!("satisfied in testing: {}, but the proof of the same assignment verifies: {}", t.is_satisfied(), ok));
        }
        count(if ok { "oracle:proof-accepted" } else { "oracle:proof-rejected" });
    }
}

pub fn c27() {
    match w(16) {
        0..=4 => history::<Fr>(),
        5 => history::<Z3>(),
        6 => history::<Z5>(),
        7 => history::<Z13>(),
        8 => history::<crate::smallfield::Fr>(),
        9 => history::<Z97>(),
        10 => history::<Z257>(),
        _ => against_proofs(),
    }
}
