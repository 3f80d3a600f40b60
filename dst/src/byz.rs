//! A byzantine prover: it knows the whole constraint system and looks for an
//! assignment that satisfies it without following the program.  It propagates
//! forced values (solving single unknowns, enumerating small domains, decoding
//! packed bits, also with multiples of the modulus added), and where nothing is
//! forced it chooses, preferring to deviate from the honest values.
use crate::r1cs::{net, Rec};
use bellman::Index;
use ff::PrimeField;
use simrt::rng::Rng;
use std::collections::{BTreeSet, HashMap};

/// Signed 640-bit integer, two's complement.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Big([u64; 10]);
impl Big {
    const ZERO: Big = Big([0; 10]);
    fn from_bytes(b: &[u8]) -> Big {
        let mut r = Big::ZERO;
        for (i, x) in b.iter().enumerate() {
            r.0[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        r
    }
    fn pow2(k: usize) -> Big {
        let mut r = Big::ZERO;
        r.0[k / 64] |= 1 << (k % 64);
        r
    }
    fn add(self, o: Big) -> Big {
        let mut r = Big::ZERO;
        let mut c = 0u128;
        for i in 0..10 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r.0[i] = c as u64;
            c >>= 64;
        }
        r
    }
    fn neg(self) -> Big {
        let mut r = self;
        for x in r.0.iter_mut() {
            *x = !*x;
        }
        let mut one = Big::ZERO;
        one.0[0] = 1;
        r.add(one)
    }
    fn is_neg(&self) -> bool {
        self.0[9] >> 63 == 1
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 10]
    }
    fn lt(&self, o: &Big) -> bool {
        self.add(o.neg()).is_neg()
    }
    fn bit(&self, k: usize) -> bool {
        self.0[k / 64] >> (k % 64) & 1 == 1
    }
    /// Number of trailing zero bits (640 for zero).
    fn tz(&self) -> usize {
        for (i, x) in self.0.iter().enumerate() {
            if *x != 0 {
                return i * 64 + x.trailing_zeros() as usize;
            }
        }
        640
    }
}

struct Con<F> {
    lc: [Vec<(usize, F)>; 3],
    vars: Vec<usize>,
}

enum Undo<F> {
    Val(usize),
    Dom(usize, Option<[F; 2]>),
    Mul(usize),
}

/// A contradiction.
pub struct Never;

pub struct Byz<F: PrimeField> {
    cons: Vec<Con<F>>,
    pub n_in: usize,
    pub nvar: usize,
    occ: Vec<Vec<u32>>,
    unk: Vec<u32>,
    pub val: Vec<Option<F>>,
    dom: Vec<Option<[F; 2]>>,
    trail: Vec<Undo<F>>,
    small: Vec<u32>,
    in_small: Vec<bool>,
    big: BTreeSet<u32>,
    /// Multiple of the modulus chosen for a decoded constraint.
    mult: HashMap<usize, i64>,
    pows: HashMap<Vec<u8>, (bool, usize)>,
    p: Big,
    half: Big,
    pub order: Vec<usize>,
    pub honest: Vec<F>,
    rng: Rng,
    pub choices: usize,
    pub work: usize,
    pub work_limit: usize,
}

const SMALL: u32 = 4;

impl<F: PrimeField> Byz<F> {
    pub fn new(rec: &Rec<F>, rng: Rng) -> Self {
        let n_in = rec.inputs.len();
        let nvar = n_in + rec.aux.len();
        let ix = |aux: bool, i: usize| if aux { n_in + i } else { i };
        let mut occ = vec![vec![]; nvar];
        let mut cons: Vec<Con<F>> = vec![];
        for (ci, c) in rec.cons.iter().enumerate() {
            let f = |l| net::<F>(l).into_iter().map(|((a, i), v)| (ix(a, i), v)).collect::<Vec<_>>();
            let lc = [f(&c[0]), f(&c[1]), f(&c[2])];
            let mut vars: Vec<usize> = lc.iter().flatten().map(|x| x.0).collect();
            vars.sort();
            vars.dedup();
            for v in &vars {
                occ[*v].push(ci as u32);
            }
            cons.push(Con { lc, vars });
        }
        let mut pows = HashMap::new();
        let mut x = F::ONE;
        for k in 0..(F::NUM_BITS as usize + 250) {
            pows.entry(x.to_repr().as_ref().to_vec()).or_insert((false, k));
            pows.entry((-x).to_repr().as_ref().to_vec()).or_insert((true, k));
            x = x.double();
        }
        let m1 = Big::from_bytes((-F::ONE).to_repr().as_ref());
        let p = m1.add(Big::pow2(0));
        let mut half = Big::ZERO;
        for i in 0..10 {
            half.0[i] = m1.0[i] >> 1 | if i < 9 { m1.0[i + 1] << 63 } else { 0 };
        }
        // Allocation order of the variables.
        let mut order = vec![0];
        let (mut i, mut a) = (1, 0);
        for t in &rec.trace {
            match t {
                Some(true) => {
                    order.push(i);
                    i += 1;
                }
                Some(false) => {
                    order.push(n_in + a);
                    a += 1;
                }
                None => {}
            }
        }
        let mut honest = rec.inputs.clone();
        honest.extend(&rec.aux);
        let n = cons.len();
        let mut b = Byz {
            unk: cons.iter().map(|c| c.vars.len() as u32).collect(),
            cons,
            n_in,
            nvar,
            occ,
            val: vec![None; nvar],
            dom: vec![None; nvar],
            trail: vec![],
            small: vec![],
            in_small: vec![false; n],
            big: BTreeSet::new(),
            mult: HashMap::new(),
            pows,
            p,
            half,
            order,
            honest,
            rng,
            choices: 0,
            work: 0,
            work_limit: usize::MAX,
        };
        for c in 0..n {
            b.wake(c as u32);
        }
        b.set(0, F::ONE);
        b
    }

    pub fn index(&self, i: Index) -> usize {
        match i {
            Index::Input(i) => i,
            Index::Aux(i) => self.n_in + i,
        }
    }

    fn wake(&mut self, c: u32) {
        let n = self.unk[c as usize];
        if n <= SMALL {
            if !self.in_small[c as usize] {
                self.in_small[c as usize] = true;
                self.small.push(c);
            }
        } else {
            self.big.insert(c);
        }
    }

    fn set(&mut self, x: usize, v: F) {
        self.val[x] = Some(v);
        self.trail.push(Undo::Val(x));
        let o = std::mem::take(&mut self.occ[x]);
        for c in &o {
            self.unk[*c as usize] -= 1;
            self.wake(*c);
        }
        self.occ[x] = o;
    }

    /// Gives a variable a value.
    pub fn assign(&mut self, x: usize, v: F) -> Result<(), Never> {
        match self.val[x] {
            Some(w) if w == v => return Ok(()),
            Some(_) => return Err(Never),
            None => {}
        }
        if let Some(d) = self.dom[x] {
            if !d.contains(&v) {
                return Err(Never);
            }
        }
        self.set(x, v);
        Ok(())
    }

    fn restrict(&mut self, x: usize, d: [F; 2]) -> Result<(), Never> {
        let d = match self.dom[x] {
            Some(o) => {
                let keep: Vec<F> = d.iter().filter(|v| o.contains(v)).cloned().collect();
                match keep.len() {
                    0 => return Err(Never),
                    1 => return self.assign(x, keep[0]),
                    _ => return Ok(()),
                }
            }
            None => d,
        };
        self.trail.push(Undo::Dom(x, self.dom[x]));
        self.dom[x] = Some(d);
        let o = std::mem::take(&mut self.occ[x]);
        for c in &o {
            self.wake(*c);
        }
        self.occ[x] = o;
        Ok(())
    }

    pub fn mark(&self) -> usize {
        self.trail.len()
    }
    pub fn undo(&mut self, to: usize) {
        while self.trail.len() > to {
            match self.trail.pop().unwrap() {
                Undo::Val(x) => {
                    self.val[x] = None;
                    for c in &self.occ[x] {
                        self.unk[*c as usize] += 1;
                    }
                }
                Undo::Dom(x, d) => self.dom[x] = d,
                Undo::Mul(c) => {
                    self.mult.remove(&c);
                }
            }
        }
        for c in self.small.drain(..) {
            self.in_small[c as usize] = false;
        }
        self.big.clear();
    }

    pub fn propagate(&mut self) -> Result<(), Never> {
        loop {
            if self.work > self.work_limit {
                return Err(Never);
            }
            if let Some(c) = self.small.pop() {
                self.in_small[c as usize] = false;
                self.work += 1;
                self.tiny(c as usize)?;
            } else if let Some(c) = self.big.iter().next().cloned() {
                self.big.remove(&c);
                if self.unk[c as usize] > SMALL {
                    self.work += self.cons[c as usize].vars.len() / 8 + 1;
                    self.packed(c as usize)?;
                }
            } else {
                return Ok(());
            }
        }
    }

    /// q2 x^2 + q1 x + q0 = 0; None = every x.
    fn roots(&self, q2: F, q1: F, q0: F) -> Option<Vec<F>> {
        let z = |x: &F| bool::from(x.is_zero());
        if z(&q2) {
            if z(&q1) {
                return if z(&q0) { None } else { Some(vec![]) };
            }
            let r = if q1 == F::ONE {
                -q0
            } else if q1 == -F::ONE {
                q0
            } else {
                -q0 * q1.invert().unwrap()
            };
            return Some(vec![r]);
        }
        let i2 = q2.invert().unwrap();
        if z(&q0) {
            let r = -q1 * i2;
            return Some(if z(&r) { vec![F::ZERO] } else { vec![F::ZERO, r] });
        }
        let disc = q1.square() - (q2 * q0).double().double();
        let h = F::TWO_INV * i2;
        if z(&disc) {
            return Some(vec![-q1 * h]);
        }
        // Euler's criterion first: not every field here can take the root of a non-square.
        let mut e = [0u64; 4];
        e.copy_from_slice(&self.half.0[..4]);
        if disc.pow_vartime(e) != F::ONE {
            return Some(vec![]);
        }
        let s = disc.sqrt().unwrap();
        Some(vec![(s - q1) * h, (-s - q1) * h])
    }

    /// At most four unknowns: enumerate those with a domain.
    fn tiny(&mut self, ci: usize) -> Result<(), Never> {
        let mut u: Vec<usize> = vec![];
        for v in &self.cons[ci].vars {
            if self.val[*v].is_none() {
                u.push(*v);
            }
        }
        let free: Vec<usize> = (0..u.len()).filter(|i| self.dom[u[*i]].is_none()).collect();
        if free.len() > 1 {
            return Ok(());
        }
        // constant part and coefficients
        let mut k = [F::ZERO; 3];
        let mut co = [[F::ZERO; 4]; 3];
        for j in 0..3 {
            for (v, c) in &self.cons[ci].lc[j] {
                match self.val[*v] {
                    Some(x) => {
                        if x == F::ONE {
                            k[j] += c;
                        } else if !bool::from(x.is_zero()) {
                            k[j] += x * c;
                        }
                    }
                    None => co[j][u.iter().position(|x| x == v).unwrap()] = *c,
                }
            }
        }
        if u.is_empty() {
            return if k[0] * k[1] == k[2] { Ok(()) } else { Err(Never) };
        }
        let with: Vec<usize> = (0..u.len()).filter(|i| self.dom[u[*i]].is_some()).collect();
        let x = free.first().cloned();
        let mut seen = [[false; 2]; 4];
        let mut any = false;
        let mut every = false;
        let mut set: Vec<F> = vec![];
        for m in 0..1usize << with.len() {
            let mut t = k;
            for (b, i) in with.iter().enumerate() {
                let v = self.dom[u[*i]].unwrap()[m >> b & 1];
                for j in 0..3 {
                    t[j] += v * co[j][*i];
                }
            }
            let ok = match x {
                None => t[0] * t[1] == t[2],
                Some(x) => {
                    let (a1, b1, c1) = (co[0][x], co[1][x], co[2][x]);
                    match self.roots(a1 * b1, t[0] * b1 + t[1] * a1 - c1, t[0] * t[1] - t[2]) {
                        None => {
                            every = true;
                            true
                        }
                        Some(r) => {
                            for v in &r {
                                if !set.contains(v) {
                                    set.push(*v);
                                }
                            }
                            !r.is_empty()
                        }
                    }
                }
            };
            if ok {
                any = true;
                for (b, i) in with.iter().enumerate() {
                    seen[*i][m >> b & 1] = true;
                }
            }
        }
        if !any {
            return Err(Never);
        }
        for i in with {
            let d = self.dom[u[i]].unwrap();
            match seen[i] {
                [true, false] => self.assign(u[i], d[0])?,
                [false, true] => self.assign(u[i], d[1])?,
                _ => {}
            }
        }
        if let (Some(x), false) = (x, every) {
            match set.len() {
                1 => self.assign(u[x], set[0])?,
                2 => self.restrict(u[x], [set[0], set[1]])?,
                _ => {}
            }
        }
        Ok(())
    }

    fn signed(&self, v: &F) -> Big {
        let b = Big::from_bytes(v.to_repr().as_ref());
        if self.half.lt(&b) {
            b.add(self.p.neg())
        } else {
            b
        }
    }
    fn lift(&self, c: &F) -> Big {
        match self.pows.get(c.to_repr().as_ref()) {
            Some((false, k)) => Big::pow2(*k),
            Some((true, k)) => Big::pow2(*k).neg(),
            None => self.signed(c),
        }
    }

    /// A linear equation over unknown bits: decode it over the integers.
    fn packed(&mut self, ci: usize) -> Result<(), Never> {
        let bits = [F::ZERO, F::ONE];
        let c = &self.cons[ci];
        let known = |l: &Vec<(usize, F)>| l.iter().all(|(v, _)| self.val[*v].is_some());
        let sum = |l: &Vec<(usize, F)>| l.iter().fold(F::ZERO, |a, (v, c)| a + self.val[*v].unwrap() * c);
        // factor * other - c = 0
        let (f, other) = if known(&c.lc[0]) {
            (sum(&c.lc[0]), 1)
        } else if known(&c.lc[1]) {
            (sum(&c.lc[1]), 0)
        } else {
            return Ok(());
        };
        let mut t: HashMap<usize, F> = HashMap::new();
        if !bool::from(f.is_zero()) {
            for (v, c) in &c.lc[other] {
                *t.entry(*v).or_insert(F::ZERO) += f * c;
            }
        }
        for (v, c) in &c.lc[2] {
            *t.entry(*v).or_insert(F::ZERO) -= c;
        }
        let mut k = Big::ZERO;
        let mut unk: Vec<(usize, Big)> = vec![];
        let mut terms: Vec<(usize, F)> = t.into_iter().filter(|x| !bool::from(x.1.is_zero())).collect();
        terms.sort_by_key(|x| x.0);
        for (v, c) in &terms {
            match self.val[*v] {
                Some(x) if bool::from(x.is_zero()) => {}
                Some(x) if x == F::ONE => k = k.add(self.lift(c)),
                Some(x) => k = k.add(self.signed(&(x * c))),
                None => {
                    let ok = match self.dom[*v] {
                        Some(d) => bits.iter().all(|b| d.contains(b)),
                        // Probably a bit that is not constrained on its own; what
                        // is decoded below it is only a guess if it is not.
                        None => F::NUM_BITS > 64 && (self.honest[*v] == F::ONE || bool::from(self.honest[*v].is_zero())),
                    };
                    if !ok {
                        return Ok(());
                    }
                    unk.push((*v, self.lift(c)));
                }
            }
        }
        let m = match self.mult.get(&ci) {
            Some(m) => *m,
            None => {
                // total = k + sum of chosen coefficients must be a multiple of p: which are possible?
                let (mut lo, mut hi) = (k, k);
                for (_, c) in &unk {
                    if c.is_neg() {
                        lo = lo.add(*c);
                    } else {
                        hi = hi.add(*c);
                    }
                }
                let mut poss: Vec<i64> = vec![];
                let mut mp = Big::ZERO;
                for m in 0..64 {
                    if !mp.lt(&lo) && !hi.lt(&mp) {
                        poss.push(-m);
                    }
                    mp = mp.add(self.p);
                }
                let mut mp = self.p.neg();
                for m in 1..64 {
                    if !mp.lt(&lo) && !hi.lt(&mp) {
                        poss.push(m);
                    }
                    mp = mp.add(self.p.neg());
                }
                if poss.is_empty() {
                    return Err(Never);
                }
                let m = poss[self.rng.below(poss.len() as u64) as usize];
                if poss.len() > 1 {
                    self.choices += 1;
                }
                self.mult.insert(ci, m);
                self.trail.push(Undo::Mul(ci));
                m
            }
        };
        let mut t = k;
        for _ in 0..m.abs() {
            t = t.add(if m < 0 { self.p.neg() } else { self.p });
        }
        unk.sort_by_key(|(v, c)| (c.tz(), *v));
        let mut i = 0;
        while i < unk.len() {
            let v = unk[i].1.tz();
            if t.tz() < v {
                return Err(Never);
            }
            if i + 1 < unk.len() && (unk[i + 1].1.tz() == v || self.dom[unk[i].0].is_none()) {
                return Ok(());
            }
            if t.bit(v) {
                t = t.add(unk[i].1);
                self.assign(unk[i].0, F::ONE)?;
            } else {
                self.assign(unk[i].0, F::ZERO)?;
            }
            i += 1;
        }
        if t.is_zero() {
            Ok(())
        } else {
            Err(Never)
        }
    }

    fn pick(&mut self) -> Option<usize> {
        let n = self.order.len();
        let at = if self.rng.below(2) == 0 { 0 } else { self.rng.below(n as u64) as usize };
        let mut fallback = None;
        for i in 0..n {
            let x = self.order[(at + i) % n];
            if self.val[x].is_none() {
                if self.dom[x].is_some() {
                    return Some(x);
                }
                fallback = fallback.or(Some(x));
            }
        }
        fallback
    }

    /// Completes the current assignment; true if every constraint holds.
    pub fn search(&mut self, budget: usize) -> bool {
        let mut stack: Vec<(usize, usize, Vec<F>)> = vec![];
        let mut left = budget;
        let mut ok = self.propagate().is_ok();
        loop {
            if ok {
                let x = match self.pick() {
                    None => return self.holds(),
                    Some(x) => x,
                };
                self.choices += 1;
                let h = self.honest[x];
                let mut alt = match self.dom[x] {
                    Some(d) => d.to_vec(),
                    None => vec![h, crate::util::fe::<F>(&mut self.rng)],
                };
                // The last one is tried first: usually not the honest one.
                if alt[1] == h && (stack.is_empty() || self.rng.below(3) > 0) {
                    alt.swap(0, 1);
                } else if self.rng.below(4) == 0 {
                    alt.swap(0, 1);
                }
                stack.push((self.mark(), x, alt));
            } else {
                if left == 0 {
                    return false;
                }
                left -= 1;
            }
            // try the next alternative of the innermost choice
            loop {
                match stack.last_mut() {
                    None => return false,
                    Some((mark, x, alt)) => {
                        let (mark, x) = (*mark, *x);
                        match alt.pop() {
                            None => {
                                stack.pop();
                            }
                            Some(v) => {
                                self.undo(mark);
                                ok = self.assign(x, v).is_ok() && self.propagate().is_ok();
                                break;
                            }
                        }
                    }
                }
            }
        }
    }

    fn holds(&self) -> bool {
        let ev = |l: &Vec<(usize, F)>| l.iter().fold(F::ZERO, |a, (v, c)| a + self.val[*v].unwrap() * c);
        self.cons.iter().all(|c| ev(&c.lc[0]) * ev(&c.lc[1]) == ev(&c.lc[2]))
    }

    /// (inputs with one, aux) of the current full assignment.
    pub fn result(&self) -> (Vec<F>, Vec<F>) {
        let v: Vec<F> = self.val.iter().map(|x| x.unwrap()).collect();
        (v[..self.n_in].to_vec(), v[self.n_in..].to_vec())
    }
    pub fn unknown(&self) -> usize {
        self.val.iter().filter(|v| v.is_none()).count()
    }

    /// Other values single variables can take while all others stay honest.
    pub fn loose(&self, limit: usize) -> Vec<(usize, F)> {
        let mut out = vec![];
        let ev = |l: &Vec<(usize, F)>| l.iter().fold(F::ZERO, |a, (v, c)| a + self.honest[*v] * c);
        let tot: Vec<[F; 3]> = self.cons.iter().map(|c| [ev(&c.lc[0]), ev(&c.lc[1]), ev(&c.lc[2])]).collect();
        let coeff = |l: &Vec<(usize, F)>, x: usize| l.binary_search_by_key(&x, |t| t.0).map(|i| l[i].1).unwrap_or(F::ZERO);
        'vars: for x in 1..self.nvar {
            let h = self.honest[x];
            let mut cand: Option<Vec<F>> = None;
            for ci in &self.occ[x] {
                let c = &self.cons[*ci as usize];
                let t = tot[*ci as usize];
                let (a1, b1, c1) = (coeff(&c.lc[0], x), coeff(&c.lc[1], x), coeff(&c.lc[2], x));
                let (a0, b0, c0) = (t[0] - a1 * h, t[1] - b1 * h, t[2] - c1 * h);
                if let Some(r) = self.roots(a1 * b1, a0 * b1 + b0 * a1 - c1, a0 * b0 - c0) {
                    cand = Some(match cand {
                        None => r,
                        Some(o) => o.into_iter().filter(|v| r.contains(v)).collect(),
                    });
                    let c = cand.as_ref().unwrap();
                    if c.iter().all(|v| *v == h) {
                        continue 'vars;
                    }
                }
            }
            match cand {
                None => out.push((x, h + F::ONE)),
                Some(c) => {
                    for v in c {
                        if v != h {
                            out.push((x, v));
                        }
                    }
                }
            }
            if out.len() >= limit {
                break;
            }
        }
        out
    }
}
