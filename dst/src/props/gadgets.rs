//! C18-C24: gadgets against a reference model, missing witnesses and a
//! byzantine prover; the shape of circuits in setup, proving and testing.
use crate::byz::Byz;
use crate::engine::{Fr, Sim, P};
use crate::gprog::*;
use crate::r1cs::{crs, diff_params, qap, Mode, Rec, Toxic};
use crate::util::*;
use crate::zp::*;
use bellman::SynthesisError;
use ff::PrimeFieldBits;
use simrt::rng::Rng;
use simrt::{count, fail, phase, set_sample, w};
use std::sync::Arc;

// ------------------------------------------------------------------ generation

pub struct Gen<F> {
    pub r: Rng,
    pub p: Prog<F>,
    pub v: Vals<F>,
    /// Bits known to be plain allocated ones.
    plain: Vec<usize>,
    edge: Option<bool>,
    group: Option<Vec<Op<F>>>,
    strays: u64,
}

impl<F: PrimeFieldBits> Gen<F> {
    pub fn new(r: Rng) -> Self {
        let edge = match w(12) {
            10 => Some(false),
            11 => Some(true),
            _ => None,
        };
        Gen { r, p: Prog { ops: vec![] }, v: Vals::default(), plain: vec![], edge, group: None, strays: if w(6) == 5 { 1 } else { 0 } }
    }
    fn push(&mut self, op: Op<F>) {
        let before = self.v.bits.len();
        match self.edge {
            Some(e) => self.v.step(&op, &mut Src::Edge(e)),
            None => self.v.step(&op, &mut Src::Rng(&mut self.r)),
        }
        if matches!(
            op,
            Op::BitIn | Op::BitTied(_) | Op::BitCond(_) | Op::U64In | Op::FieldIn(_) | Op::Raw(..) | Op::Strict(_) | Op::Loose(_)
        ) {
            self.plain.extend(before..self.v.bits.len());
        }
        match &mut self.group {
            Some(g) => {
                g.push(op);
                self.v.at -= 1;
            }
            None => self.p.ops.push(op),
        }
    }
    fn open(&mut self) {
        self.group = Some(vec![]);
    }
    fn close(&mut self) {
        let g = self.group.take().unwrap();
        self.p.ops.push(Op::Group(g));
        self.v.at += 1;
    }
    fn below(&mut self, n: usize) -> usize {
        self.r.below(n as u64) as usize
    }
    /// One of n, the later ones more often.
    fn near(&mut self, n: usize) -> usize {
        if self.r.below(2) == 0 {
            self.below(n)
        } else {
            let k = 1 + self.below(n.min(8));
            n - k
        }
    }
    fn bit(&mut self) -> usize {
        let n = self.v.bits.len();
        if n == 0 {
            self.push(Op::BitIn);
            return 0;
        }
        self.near(n)
    }
    fn plain(&mut self) -> usize {
        let n = self.plain.len();
        if n == 0 {
            self.push(Op::BitIn);
            return *self.plain.last().unwrap();
        }
        let k = self.near(n);
        self.plain[k]
    }
    fn word(&mut self) -> usize {
        let n = self.v.words.len();
        if n == 0 {
            self.push(Op::WordIn);
            return 0;
        }
        self.near(n)
    }
    fn num(&mut self) -> usize {
        let n = self.v.nums.len();
        if n == 0 {
            self.push(Op::NumIn);
            return 0;
        }
        self.near(n)
    }
    fn last_bit(&self) -> usize {
        self.v.bits.len() - 1
    }

    pub fn bit_op(&mut self) {
        match self.r.below(17) {
            0 | 1 => self.push(Op::BitIn),
            2 => {
                let b = self.r.below(2) == 1;
                self.push(Op::BitConst(b))
            }
            3 | 4 => {
                let i = self.bit();
                self.push(Op::Not(i))
            }
            5 | 6 => {
                let (i, j) = (self.bit(), self.bit());
                self.push(Op::And(i, j))
            }
            7 | 8 => {
                let (i, j) = (self.bit(), self.bit());
                self.push(Op::Xor(i, j))
            }
            9 | 10 => {
                let (i, j, k) = (self.bit(), self.bit(), self.bit());
                self.push(Op::Ch(i, j, k))
            }
            11 | 12 => {
                let (i, j, k) = (self.bit(), self.bit(), self.bit());
                self.push(Op::Maj(i, j, k))
            }
            13 => {
                let i = self.plain();
                self.push(Op::BitCond(i))
            }
            14 | 15 => {
                let (i, j, k) = (self.plain(), self.plain(), self.r.below(4) as u8);
                self.push(Op::Raw(k, i, j))
            }
            _ => self.eq_bit(),
        }
    }
    fn eq_bit(&mut self) {
        let i = self.bit();
        let j = match self.r.below(8) {
            0 if self.strays > 0 => self.bit(),
            1 if self.strays > 0 => {
                let b = !self.v.bits[i];
                self.push(Op::BitConst(b));
                self.last_bit()
            }
            2 | 3 => {
                let b = self.v.bits[i];
                self.push(Op::BitConst(b));
                self.last_bit()
            }
            4 => {
                // the same bit seen through two negations of a copy
                self.push(Op::BitTied(i));
                let k = self.last_bit();
                self.push(Op::Not(k));
                self.push(Op::Not(i));
                let (a, b) = (self.last_bit(), self.last_bit() - 1);
                self.push(Op::EqBit(a, b));
                return;
            }
            _ => {
                self.push(Op::BitTied(i));
                self.last_bit()
            }
        };
        if self.r.below(2) == 0 {
            self.push(Op::EqBit(i, j))
        } else {
            self.push(Op::EqBit(j, i))
        }
    }
    pub fn word_simple(&mut self) {
        match self.r.below(12) {
            0 => self.push(Op::WordIn),
            1 => {
                let c = match self.r.below(4) {
                    0 => 0,
                    1 => u32::MAX,
                    _ => self.r.next() as u32,
                };
                self.push(Op::WordConst(c))
            }
            2 => {
                let be = self.r.below(2) == 0;
                if self.v.bits.is_empty() {
                    self.push(Op::BitIn);
                }
                let n = self.v.bits.len();
                let ix = match self.r.below(3) {
                    0 if n >= 32 => {
                        let at = self.below(n - 31);
                        (at..at + 32).collect()
                    }
                    _ => (0..32).map(|_| self.below(n)).collect(),
                };
                self.push(Op::WordOf(be, ix))
            }
            3 => {
                let (be, i) = (self.r.below(2) == 0, self.word());
                self.push(Op::WordBits(be, i))
            }
            4 => {
                let (i, n) = (self.word(), self.below(33));
                self.push(Op::Rotr(i, n))
            }
            5 => {
                let (i, n) = (self.word(), self.below(32));
                self.push(Op::Shr(i, n))
            }
            6 | 7 => {
                let (i, j) = (self.word(), self.word());
                self.push(Op::WXor(i, j))
            }
            8 | 9 => {
                let (i, j, k) = (self.word(), self.word(), self.word());
                self.push(Op::WCh(i, j, k))
            }
            10 => {
                let (i, j, k) = (self.word(), self.word(), self.word());
                self.push(Op::WMaj(i, j, k))
            }
            _ => self.bit_op(),
        }
    }
    pub fn multieq(&mut self, adds: bool) {
        self.open();
        let n = 1 + self.below(9);
        for _ in 0..n {
            match self.r.below(6) {
                0 | 1 | 2 if adds => {
                    let k = 2 + if self.r.below(3) == 0 { self.below(9) } else { self.below(4) };
                    let ops: Vec<usize> = (0..k).map(|_| self.word()).collect();
                    self.push(Op::Add(ops))
                }
                3 | 4 => {
                    let most = (F::CAPACITY as usize - 1).min(if self.r.below(6) == 0 { 300 } else { 40 });
                    let k = if self.r.below(5) == 0 { most } else { 1 + self.below(most) };
                    let a: Vec<usize> = (0..k).map(|_| self.bit()).collect();
                    let mut b = vec![];
                    for i in &a {
                        match self.r.below(4) {
                            0 => {
                                let c = self.v.bits[*i];
                                self.push(Op::BitConst(c))
                            }
                            _ => self.push(Op::BitTied(*i)),
                        }
                        b.push(self.last_bit());
                    }
                    if self.strays > 0 && self.r.below(4) == 0 {
                        // one wrong bit
                        let j = self.below(k);
                        let c = !self.v.bits[a[j]];
                        self.push(Op::BitConst(c));
                        b[j] = self.last_bit();
                    }
                    let flip = self.r.below(2) == 0;
                    self.push(if flip { Op::EqBits(a, b) } else { Op::EqBits(b, a) })
                }
                _ if adds => self.word_simple(),
                _ => self.bit_op(),
            }
        }
        self.close();
    }
    pub fn num_op(&mut self) {
        match self.r.below(17) {
            0 | 1 => self.push(Op::NumIn),
            2 => {
                let i = self.num();
                self.push(Op::NumTied(i))
            }
            3 | 4 => {
                let (i, j) = (self.num(), self.num());
                self.push(Op::Mul(i, j))
            }
            5 => {
                let i = self.num();
                self.push(Op::Square(i))
            }
            6 => {
                let i = self.num();
                self.push(Op::Inputize(i))
            }
            7 | 8 => {
                let (i, j, b) = (self.num(), self.num(), self.bit());
                self.push(Op::CondRev(i, j, b))
            }
            9 => {
                let i = self.num();
                if self.strays > 0 || !bool::from(self.v.nums[i].is_zero()) {
                    self.push(Op::NonZero(i))
                }
            }
            10 | 11 => {
                let i = self.num();
                self.push(Op::Strict(i))
            }
            12 => {
                let i = self.num();
                self.push(Op::Loose(i))
            }
            13 => {
                let i = self.num();
                self.push(Op::LcOf(i))
            }
            14 => self.push(Op::LcZero),
            _ => {
                if self.v.lcs.is_empty() {
                    self.push(Op::LcZero);
                }
                let n = self.v.lcs.len();
                let (i, b) = (self.near(n), self.bit());
                let c = fe::<F>(&mut self.r);
                self.push(Op::LcAdd(i, b, c))
            }
        }
    }
    fn table(&mut self, n: usize) -> Vec<(F, F)> {
        let same = self.r.below(4) == 0;
        let t: Vec<(F, F)> = (0..n).map(|_| (fe::<F>(&mut self.r), fe::<F>(&mut self.r))).collect();
        if same {
            let k = self.below(n);
            (0..n).map(|i| if self.r.below(2) == 0 { t[k] } else { t[i] }).collect()
        } else {
            t
        }
    }
    pub fn lookup_op(&mut self) {
        match self.r.below(8) {
            0 | 1 => {
                let b = [self.bit(), self.bit(), self.bit()];
                let t = self.table(8);
                self.push(Op::Lookup(b, t))
            }
            2 | 3 => {
                let b = [self.bit(), self.bit(), self.bit()];
                let t = self.table(4);
                self.push(Op::LookupNeg(b, t))
            }
            4 => {
                let cap = F::CAPACITY as usize;
                let n = match self.r.below(9) {
                    0 => 0,
                    1 => cap,
                    2 => cap + 1,
                    3 => cap.max(2) - 1,
                    4 => 2 * cap,
                    5 => 2 * cap + 1,
                    6 => 1,
                    _ => self.below(3 * cap + 2),
                };
                if n > 0 {
                    self.bit();
                }
                let have = self.v.bits.len();
                let fresh = self.r.below(2) == 0;
                let mut ix = vec![];
                for _ in 0..n {
                    if fresh && self.r.below(2) == 0 {
                        self.push(Op::BitIn);
                        ix.push(self.last_bit());
                    } else {
                        ix.push(self.below(have));
                    }
                }
                self.push(Op::Pack(ix))
            }
            _ => self.bit_op(),
        }
    }
    /// n bits: variables, negations, constants and repetitions in some mix.
    fn message(&mut self, n: usize) -> Vec<usize> {
        let mix = self.r.below(14);
        let run = 1 + self.below(64);
        let mut ix = vec![];
        let mut k = 0;
        for i in 0..n {
            if i % run == 0 {
                k = self.r.below(6);
            }
            let kind = match mix {
                0..=2 => 0,
                3 => 5,
                4..=8 => k,
                _ => self.r.below(6),
            };
            match kind {
                0 | 1 | 2 => {
                    self.push(Op::BitIn);
                }
                3 if self.v.bits.len() > 0 => {
                    let i = self.bit();
                    self.push(Op::Not(i));
                }
                4 if self.v.bits.len() > 0 => {
                    let b = self.bit();
                    ix.push(b);
                    continue;
                }
                _ => {
                    let b = self.r.below(2) == 1;
                    self.push(Op::BitConst(b));
                }
            }
            ix.push(self.last_bit());
        }
        ix
    }
    pub fn sha(&mut self, bytes: usize) {
        let m = self.message(bytes * 8);
        self.push(Op::Sha(m))
    }
    pub fn sha_block(&mut self) {
        let m = self.message(512);
        self.push(Op::ShaBlock(m))
    }
    pub fn blake(&mut self, bytes: usize) {
        let m = self.message(bytes * 8);
        let p: Vec<u8> = (0..8).map(|_| self.r.next() as u8).collect();
        let p = match self.r.below(4) {
            0 => vec![0; 8],
            _ => p,
        };
        self.push(Op::Blake(m, p))
    }
}

// ---------------------------------------------------------------------- checks

/// Synthesizes with a witness and compares with the model.
fn honest<F: PrimeFieldBits>(prog: &Prog<F>, vals: &Vals<F>) -> Option<(Rec<F>, Pools<F>)> {
    phase("synthesize");
    let mut rec = Rec::<F>::new(Mode::Witness);
    let mut pools = Pools::default();
    let q = pools.exec(&mut rec, prog, Some(vals));
    if !rec.ns.is_empty() {
        fail("namespace-left-open", format!("{} namespaces were not left", rec.ns.len()));
    }
    match (&q, &vals.err) {
        (Ok(()), None) => {}
        (Err(SynthesisError::DivisionByZero), Some((at, _))) if *at == pools.at => {
            count("oracle:error");
            return None;
        }
        (Err(SynthesisError::Unsatisfiable), _) if vals.unsat.is_some() => {
            count("oracle:error");
            return None;
        }
        (Ok(()), Some(_)) => fail("zero-accepted", "asserting a zero to be non-zero succeeded"),
        (Err(e), _) => fail("honest-synthesis-failed", format!("operation {} ({}) reported {}", pools.at, kind(&prog.ops[pools.at]), err_name(e))),
    }
    if let Some(u) = &vals.unsat {
        if rec.is_ok() {
            fail("false-statement-satisfied", u);
        }
        count("oracle:refused");
        return Some((rec, pools));
    }
    if let Some(c) = rec.violated() {
        fail("honest-witness-rejected", format!("constraint {} of {} does not hold", c, rec.cons.len()));
    }
    count("oracle:satisfied");
    match pools.read(&rec) {
        Err(e) => fail("wrong-output", e),
        Ok(have) => {
            if let Err(e) = differs(&have, vals) {
                fail("wrong-output", e)
            }
        }
    }
    if let Err(e) = pools.claims(vals) {
        fail("wrong-value", e);
    }
    count("oracle:outputs");
    Some((rec, pools))
}

fn judge<F: PrimeFieldBits>(prog: &Prog<F>, pools: &Pools<F>, rec: &mut Rec<F>, a: (Vec<F>, Vec<F>)) -> Result<(), String> {
    let keep = (std::mem::replace(&mut rec.inputs, a.0), std::mem::replace(&mut rec.aux, a.1));
    if !rec.is_ok() {
        simrt::run::harness("the byzantine prover presented an assignment that violates a constraint");
    }
    let r = pools.read(rec).and_then(|have| {
        let want = prog.model(&mut Src::Given(&have));
        if let Some(u) = want.unsat {
            return Err(u);
        }
        differs(&have, &want)
    });
    rec.inputs = keep.0;
    rec.aux = keep.1;
    r
}

/// Lets a byzantine prover look for a satisfying assignment that is wrong.
fn byzantine<F: PrimeFieldBits>(prog: &Prog<F>, vals: &Vals<F>, rec: &mut Rec<F>, pools: &Pools<F>, r: &mut Rng, attacks: usize) {
    phase("byzantine prover");
    if rec.cons.is_empty() {
        return;
    }
    let seed = r.next();
    let mut b = Byz::new(rec, Rng::new(seed));
    let big = rec.cons.len() > 3000;
    let _ = b.propagate();
    let base = b.mark();
    let free: Vec<usize> = pools.free.iter().map(|i| b.index(*i)).collect();
    let is_free = {
        let mut v = vec![false; b.nvar];
        v[0] = true;
        for i in &free {
            v[*i] = true;
        }
        v
    };
    // variables behind bits and numbers the program can see
    let mut seen: Vec<(usize, bool)> = vec![];
    for x in pools.bits.iter().cloned().chain(pools.words.iter().flat_map(|x| x.clone().into_bits())) {
        use bellman::gadgets::boolean::Boolean;
        if let Boolean::Is(a) | Boolean::Not(a) = x {
            seen.push((b.index(a.get_variable().get_unchecked()), true));
        }
    }
    for n in &pools.nums {
        seen.push((b.index(n.get_variable().get_unchecked()), false));
    }
    let h = b.honest.clone();
    if vals.unsat.is_none() {
        let found = b.loose(40);
        count("fault:byzantine-single");
        for (x, v) in found {
            let mut a = (rec.inputs.clone(), rec.aux.clone());
            if x < b.n_in {
                a.0[x] = v;
            } else {
                a.1[x - b.n_in] = v;
            }
            count("probe:byzantine-solution");
            if let Err(e) = judge(prog, pools, rec, a) {
                fail("byzantine-accepted", format!("single deviation: {}", e));
            }
        }
    }
    for k in 0..attacks {
        let kind = if k == 0 { 0 } else { r.below(6) };
        let mut preset: Vec<(usize, F)> = vec![];
        let other = |x: usize, r: &mut Rng| {
            if h[x] == F::ONE || bool::from(h[x].is_zero()) {
                F::ONE - h[x]
            } else {
                h[x] + fe::<F>(r) + F::ONE
            }
        };
        let name = match kind {
            0 | 1 => {
                for x in &free {
                    preset.push((*x, h[*x]));
                }
                "fault:byzantine-hints"
            }
            2 => {
                let n = b.order.len();
                if n < 2 {
                    continue;
                }
                let at = 1 + r.below(n as u64 - 1) as usize;
                for i in 1..at {
                    let x = b.order[i];
                    preset.push((x, h[x]));
                }
                let x = b.order[at];
                preset.push((x, other(x, r)));
                "fault:byzantine-from-step"
            }
            3 | 5 if !seen.is_empty() => {
                for x in &free {
                    preset.push((*x, h[*x]));
                }
                let mut x = seen[r.below(seen.len() as u64) as usize].0;
                for _ in 0..4 {
                    if is_free[x] {
                        x = seen[r.below(seen.len() as u64) as usize].0;
                    }
                }
                if is_free[x] {
                    preset.retain(|p| p.0 != x);
                }
                preset.push((x, other(x, r)));
                "fault:byzantine-output"
            }
            4 => {
                let bits: Vec<usize> = seen.iter().filter(|s| s.1).map(|s| s.0).collect();
                if bits.is_empty() {
                    continue;
                }
                let x = bits[r.below(bits.len() as u64) as usize];
                let v = match r.below(4) {
                    0 => F::ONE + F::ONE,
                    1 => -F::ONE,
                    2 => F::TWO_INV,
                    _ => full::<F>(r),
                };
                if r.below(2) == 0 {
                    for y in &free {
                        if *y != x {
                            preset.push((*y, h[*y]));
                        }
                    }
                }
                preset.push((x, v));
                "fault:byzantine-non-boolean"
            }
            _ => {
                if b.n_in < 2 {
                    continue;
                }
                for x in 1..b.n_in {
                    preset.push((x, h[x]));
                }
                if !free.is_empty() {
                    let x = free[r.below(free.len() as u64) as usize];
                    preset.push((x, other(x, r)));
                }
                "fault:byzantine-same-inputs"
            }
        };
        count(name);
        for _try in 0..3 {
            b.undo(base);
            b.choices = 0;
            b.work = 0;
            b.work_limit = if big { 3_000_000 } else { 100_000 };
            let ok = preset.iter().all(|(x, v)| b.assign(*x, *v).is_ok());
            if !ok {
                break;
            }
            if b.search(if big { 3 } else { 24 }) {
                count("probe:byzantine-solution");
                if b.choices == 0 {
                    count("probe:byzantine-no-freedom");
                }
                let a = b.result();
                if let Err(e) = judge(prog, pools, rec, a) {
                    fail("byzantine-accepted", format!("{}: {}", &name[6..], e));
                }
            }
            else {
                if b.work > b.work_limit {
                    count("probe:byzantine-gave-up");
                }
                if std::env::var("DST_BYZ").is_ok() {
                    b.undo(base);
                    b.work = 0;
                    for (x, v) in &preset { b.assign(*x, *v).ok(); }
                    let q = b.propagate().is_ok();
                    simrt::note(&format!("{} {} stuck: ok={} unknown={} of {} choices={} work={} cons={} hon={}", k, name, q, b.unknown(), b.nvar, b.choices, b.work, rec.cons.len(), b.val.iter().zip(&h).all(|(a, b)| a.is_none() || a.unwrap() == *b)));
                }
            }
            if b.choices == 0 {
                break;
            }
        }
        count("oracle:byzantine");
    }
}

/// Missing witnesses: none at all, or one assignment dropped.
fn missing<F: PrimeFieldBits>(prog: &Prog<F>, vals: &Vals<F>, (asked, inputs): (usize, usize), r: &mut Rng) {
    phase("missing witness");
    if asked == 0 {
        return;
    }
    let mut rec = Rec::<F>::new(Mode::Witness);
    let mut pools = Pools::default();
    let drop = r.below(3) > 0;
    let q = if drop {
        count("fault:assignment-dropped");
        let k = r.below(asked as u64) as usize;
        rec.drop_assignment = Some(k);
        pools.exec(&mut rec, prog, Some(vals))
    } else {
        count("fault:no-witness");
        pools.exec(&mut rec, prog, None)
    };
    match q {
        Err(SynthesisError::AssignmentMissing) => count("oracle:missing"),
        // Nothing of this circuit depends on the witness.
        Ok(()) if !drop && inputs == 0 => {}
        Err(e) => fail("wrong-error", format!("a missing assignment was reported as {}", err_name(&e))),
        Ok(()) => fail("fault-swallowed", "synthesis succeeded although an assignment was missing"),
    }
    if !rec.ns.is_empty() {
        fail("namespace-left-open", format!("{} namespaces were not left after a missing assignment", rec.ns.len()));
    }
}

fn shape<F: PrimeFieldBits>(prog: &Prog<F>, rec: &Rec<F>, r: &mut Rng) {
    phase("shape");
    let mut s = Rec::<F>::new(Mode::Shape);
    let q = Pools::default().exec(&mut s, prog, None);
    if let Err(e) = q {
        fail("setup-failed", format!("synthesis without a witness reported {} but works with one", err_name(&e)));
    }
    if let Err(e) = rec.same_shape(&s) {
        fail("shape-differs", format!("without a witness: {}", e));
    }
    if !s.ns.is_empty() || s.pops != rec.pops {
        fail("namespaces-differ", format!("{} namespaces were left with a witness, {} without", rec.pops, s.pops));
    }
    // A setup that does have values but never asks for them.
    count("oracle:shape");
    for k in 0..2 {
        let v2 = if k == 0 { prog.model(&mut Src::Rng(r)) } else { prog.model(&mut Src::Edge(r.below(2) == 0)) };
        let mut o = Rec::<F>::new(Mode::Witness);
        let mut pools = Pools::default();
        let q = pools.exec(&mut o, prog, Some(&v2));
        match q {
            Ok(()) => {
                if let Err(e) = rec.same_shape(&o) {
                    fail("shape-differs", format!("for another witness: {}", e));
                }
                count("oracle:shape");
                if v2.unsat.is_none() && v2.err.is_none() {
                    if let Some(c) = o.violated() {
                        fail("honest-witness-rejected", format!("constraint {} does not hold for another witness", c));
                    }
                }
            }
            Err(SynthesisError::DivisionByZero) if v2.err.is_some() => {}
            Err(e) => fail("shape-differs", format!("another witness makes synthesis report {}", err_name(&e))),
        }
    }
}

/// The same program in the testing constraint system.
fn tested<F: PrimeFieldBits>(prog: &Prog<F>, vals: &Vals<F>, rec: &Rec<F>) {
    phase("testing constraint system");
    let mut t = bellman::gadgets::test::TestConstraintSystem::<F>::new();
    if let Err(e) = Pools::default().exec(&mut t, prog, Some(vals)) {
        fail("tested-differently", format!("the testing constraint system made synthesis report {}", err_name(&e)));
    }
    if t.num_constraints() != rec.cons.len() || t.num_inputs() != rec.inputs.len() {
        fail(
            "tested-differently",
            format!("{} constraints and {} inputs in testing, {} and {} elsewhere", t.num_constraints(), t.num_inputs(), rec.cons.len(), rec.inputs.len()),
        );
    }
    if t.is_satisfied() != rec.is_ok() {
        fail("tested-differently", format!("satisfied in testing: {}, elsewhere: {}", t.is_satisfied(), rec.is_ok()));
    }
    if !t.verify(&rec.inputs[1..]) {
        fail("tested-differently", "other public inputs in testing");
    }
    count("oracle:tested");
}

fn run<F: PrimeFieldBits>(g: Gen<F>, attacks: usize) {
    let Gen { p: prog, v: vals, mut r, .. } = g;
    set_sample(&prog.describe());
    simrt::region::mix_state(prog.fingerprint());
    let big = prog.ops.iter().any(|o| matches!(o, Op::Sha(_) | Op::ShaBlock(_) | Op::Blake(..)));
    if let Some((mut rec, pools)) = honest(&prog, &vals) {
        byzantine(&prog, &vals, &mut rec, &pools, &mut r, attacks);
        if vals.unsat.is_none() {
            for _ in 0..if big { 1 } else { 3 } {
                missing(&prog, &vals, (rec.asked, pools.free.len()), &mut r);
            }
        }
    }
}

/// Runs a generic body over a drawn field.
macro_rules! field {
    ($sel:expr, [$($i:pat => $t:ty),*], $f:ident) => {
        match $sel { $($i => $f::<$t>()),* }
    };
}

fn bits_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    if w(8) == 7 {
        match g.r.below(3) {
            0 => g.push(Op::U64In),
            1 => g.push(Op::FieldIn(true)),
            _ => g.push(Op::FieldIn(false)),
        }
    }
    let n = 3 + w(60);
    for _ in 0..n {
        g.bit_op();
    }
    run(g, 6);
}
pub fn c19() {
    field!(w(12), [0..=4 => Fr, 5 => Z3, 6 => Z5, 7 => Z13, 8 => Z257, 9 => Z67, 10 => crate::smallfield::Fr, _ => Z97], bits_prog)
}

fn words_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    let n = 2 + w(12);
    for _ in 0..n {
        match g.r.below(3) {
            0 => g.multieq(true),
            _ => g.word_simple(),
        }
    }
    if !g.v.words.is_empty() && g.r.below(3) > 0 {
        // what the words carry shows in a sum
        let ops: Vec<usize> = (0..2 + g.below(3)).map(|_| g.word()).collect();
        g.open();
        g.push(Op::Add(ops));
        g.close();
        let i = g.v.words.len() - 1;
        g.push(Op::WordBits(true, i));
    }
    run(g, 6);
}
pub fn c20() {
    field!(w(12), [0..=6 => Fr, 7 => Z65, 8 => Z67, 9 => Z71, 10 => Z90, _ => Z97], words_prog)
}

fn nums_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    let n = 2 + w(14);
    for _ in 0..n {
        match g.r.below(6) {
            0 => g.bit_op(),
            _ => g.num_op(),
        }
    }
    run(g, 6);
}
pub fn c21() {
    field!(w(20), [0..=5 => Fr, 6 => Z3, 7 => Z5, 8 => Z7, 9 => Z13, 10 => Z17, 11 => Z31, 12 => Z113, 13 => Z127, 14 => Z251, 15 => Z257, 16 => Z65521, 17 => Z71, 18 => Z90, _ => Z97], nums_prog)
}

fn lookup_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    let n = 2 + w(16);
    for _ in 0..n {
        g.lookup_op();
    }
    packing::<F>(&mut g.r);
    run(g, 6);
}
/// The verifier's side of packing.
fn packing<F: PrimeFieldBits>(r: &mut Rng) {
    use bellman::gadgets::multipack::*;
    phase("packing");
    let n = match r.below(6) {
        0 => 0,
        1 => F::CAPACITY as usize / 8 + 1,
        _ => r.below(80) as usize,
    };
    let bytes: Vec<u8> = (0..n).map(|_| if r.below(4) == 0 { 0xff } else { r.next() as u8 }).collect();
    let (be, le) = (bytes_to_bits(&bytes), bytes_to_bits_le(&bytes));
    if be.len() != 8 * n || le.len() != 8 * n {
        fail("wrong-output", "bytes were turned into a wrong number of bits");
    }
    for i in 0..8 * n {
        let (b, k) = (bytes[i / 8], i % 8);
        if be[i] != (b >> (7 - k) & 1 == 1) || le[i] != (b >> k & 1 == 1) {
            fail("wrong-output", format!("bit {} of the bytes is wrong", i));
        }
    }
    let cut = r.below(8 * n as u64 + 1) as usize;
    let got = compute_multipacking::<F>(&le[..cut]);
    let want: Vec<F> = le[..cut].chunks(F::NUM_BITS as usize - 1).map(|c| pack::<F>(c)).collect();
    if got != want {
        fail("wrong-output", format!("packing {} bits gives {} elements that differ from the expected {}", cut, got.len(), want.len()));
    }
    count("oracle:packing");
}
pub fn c22() {
    field!(w(14), [0..=5 => Fr, 6 => Z3, 7 => Z7, 8 => Z13, 9 => Z31, 10 => Z257, 11 => Z65521, 12 => Z90, _ => Z97], lookup_prog)
}

fn length(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 55,
        2 => 56,
        3 => 63,
        4 => 64,
        5 => 65,
        6 => 119 + r.below(10) as usize,
        7 => r.below(200) as usize,
        _ => r.below(64) as usize,
    }
}

/// Constant messages of any length cost no constraints: the digest alone is checked.
fn constants<F: PrimeFieldBits>(r: &mut Rng, sha: bool) {
    for k in 0..3 {
        let n = match r.below(36) {
            0..=8 => 48 + r.below(20),
            9..=17 => 112 + r.below(20),
            // Where counters of 8, 16 (bits or bytes) or 32 bits, or 1024 bits in units of blocks, would wrap
            18 => 1000 + r.below(200),
            19 => 8150 + r.below(100),
            20 if k == 0 => 65_500 + r.below(200),
            _ => r.below(400),
        };
        let mut g = Gen::<F>::new(Rng::new(r.next()));
        let mut ix = vec![];
        for _ in 0..n * 8 {
            let b = g.r.below(2) == 1;
            g.push(Op::BitConst(b));
            ix.push(g.last_bit());
        }
        if sha {
            g.push(Op::Sha(ix));
        } else {
            let p: Vec<u8> = (0..8).map(|_| g.r.next() as u8).collect();
            g.push(Op::Blake(ix, p));
        }
        let Gen { p, v, .. } = g;
        honest(&p, &v);
    }
}

fn sha_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    g.strays = 0;
    if g.r.below(5) == 0 {
        g.sha_block();
    } else {
        let n = length(&mut g.r);
        g.sha(n);
        if n < 20 && g.r.below(4) == 0 {
            // the digest hashed again
            let at = g.v.bits.len() - 256;
            g.push(Op::Sha((at..at + 256).collect()));
        }
    }
    constants::<F>(&mut g.r, true);
    let k = 2 + w(3) as usize;
    run(g, k);
}
pub fn c23() {
    field!(w(10), [0..=6 => Fr, 7 => Z65, 8 => Z71, _ => Z97], sha_prog)
}
fn blake_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    g.strays = 0;
    let n = length(&mut g.r);
    g.blake(n);
    constants::<F>(&mut g.r, false);
    let k = 2 + w(3) as usize;
    run(g, k);
}
pub fn c24() {
    field!(w(10), [0..=6 => Fr, 7 => Z67, 8 => Z90, _ => Z97], blake_prog)
}

// ------------------------------------------------------------------------- C18

pub fn mixed<F: PrimeFieldBits>(g: &mut Gen<F>, n: u64, hashes: bool) {
    let words = F::NUM_BITS >= 64;
    for _ in 0..n {
        match g.r.below(12) {
            0..=3 => g.bit_op(),
            4 | 5 if words => g.word_simple(),
            6 if words => g.multieq(true),
            7 | 8 => g.num_op(),
            9 | 10 => g.lookup_op(),
            _ => match g.r.below(6) {
                0 => g.push(Op::U64In),
                1 => g.push(Op::FieldIn(true)),
                2 => g.push(Op::FieldIn(false)),
                _ => g.bit_op(),
            },
        }
    }
    if hashes {
        let n = length(&mut g.r);
        match g.r.below(3) {
            0 => g.sha(n),
            1 => g.blake(n),
            _ => g.sha_block(),
        }
    }
}

fn shape_prog<F: PrimeFieldBits>() {
    let mut g = Gen::<F>::new(rng());
    g.strays = 0;
    let hashes = F::NUM_BITS >= 64 && w(10) == 9;
    let n = 2 + w(30);
    mixed(&mut g, n, hashes);
    let Gen { p: prog, v: vals, mut r, .. } = g;
    set_sample(&prog.describe());
    simrt::region::mix_state(prog.fingerprint());
    if let Some((rec, pools)) = honest(&prog, &vals) {
        shape(&prog, &rec, &mut r);
        tested(&prog, &vals, &rec);
        missing(&prog, &vals, (rec.asked, pools.free.len()), &mut r);
    }
}

/// Setup without a witness, then proofs for several witnesses, in the pool.
fn real_prog() {
    pool(4);
    let mut g = Gen::<Fr>::new(rng());
    g.strays = 0;
    let n = 2 + w(14);
    let hashes = w(40) == 39;
    mixed(&mut g, n, hashes);
    let Gen { p: prog, v: vals, mut r, .. } = g;
    set_sample(&prog.describe());
    simrt::region::mix_state(prog.fingerprint());
    let (rec, pools) = match honest(&prog, &vals) {
        Some(x) => x,
        None => return,
    };
    let prog = Arc::new(prog);
    let t = Toxic::random(&mut r);
    phase("generate");
    let got = groth16::generate_parameters::<Sim, _>(GCkt { prog: prog.clone(), vals: None }, P(t.g1), P(t.g2), t.alpha, t.beta, t.gamma, t.delta, t.tau);
    let q = simrt::quiet(|| qap(&rec.cons, rec.inputs.len(), rec.aux.len(), t.tau));
    let want = simrt::quiet(|| crs(&q, &t));
    let params = match (got, want) {
        (Ok(p), Ok(m)) => {
            if let Some(d) = diff_params(&p, &m) {
                fail("setup-differs-from-proving", format!("parameters generated without a witness: {}", d));
            }
            count("oracle:setup");
            p
        }
        (Err(e), Err(m)) => {
            if !m.contains(&err_name(&e).as_str()) {
                fail("wrong-error", format!("generation reported {} instead of {:?}", err_name(&e), m));
            }
            count("oracle:setup-refused");
            return;
        }
        (Ok(_), Err(m)) => fail("setup-differs-from-proving", format!("parameters that had to be refused: {:?}", m)),
        (Err(e), Ok(_)) => fail("setup-differs-from-proving", format!("generation without a witness reported {}", err_name(&e))),
    };
    let pvk = groth16::prepare_verifying_key(&params.vk);
    for k in 0..1 + w(2) {
        let v = if k == 0 { vals.clone() } else { prog.model(&mut Src::Rng(&mut r)) };
        if v.err.is_some() || v.unsat.is_some() {
            continue;
        }
        phase("prove");
        let v = Arc::new(v);
        let (a, b) = (full::<Fr>(&mut r), full::<Fr>(&mut r));
        match groth16::create_proof::<Sim, _, _>(GCkt { prog: prog.clone(), vals: Some(v.clone()) }, &params, a, b) {
            Err(e) => fail("proving-failed", format!("a proof for the circuit of the setup was refused: {}", err_name(&e))),
            Ok(p) => {
                if groth16::verify_proof(&pvk, &p, &v.public).is_err() {
                    fail("honest-proof-rejected", "a proof with parameters generated without a witness does not verify");
                }
                count("oracle:proof");
            }
        }
        if prog.ops.len() > 0 && w(3) == 0 {
            // no witness at proving time
            count("fault:no-witness");
            match groth16::create_proof::<Sim, _, _>(GCkt { prog: prog.clone(), vals: None }, &params, a, b) {
                Err(SynthesisError::AssignmentMissing) => {}
                Ok(_) if pools.free.is_empty() => {}
                Ok(_) => fail("fault-swallowed", "a proof was created without a witness"),
                Err(e) => fail("wrong-error", format!("proving without a witness reported {}", err_name(&e))),
            }
        }
    }
}

pub fn c18() {
    match w(8) {
        0..=2 => shape_prog::<Fr>(),
        3 => shape_prog::<Z97>(),
        4 => shape_prog::<Z13>(),
        5 => shape_prog::<Z257>(),
        _ => real_prog(),
    }
}

/// Gadgets and missing assignments (part of C11).
pub fn c11_gadgets() {
    let mut g = Gen::<Fr>::new(rng());
    g.strays = 0;
    let n = 2 + w(20);
    let hashes = w(20) == 19;
    mixed(&mut g, n, hashes);
    let Gen { p: prog, v: vals, mut r, .. } = g;
    set_sample(&prog.describe());
    simrt::region::mix_state(prog.fingerprint());
    if let Some((rec, pools)) = honest(&prog, &vals) {
        for _ in 0..4 {
            missing(&prog, &vals, (rec.asked, pools.free.len()), &mut r);
        }
        honest(&prog, &vals);
        count("oracle:recovered");
    }
}
