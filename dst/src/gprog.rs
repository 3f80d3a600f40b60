//! Random programs of gadgets: what they do to a constraint system (real code)
//! and what they must compute (reference model).
use crate::r1cs::Rec;
use crate::util::*;
use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::{field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit, Boolean};
use bellman::gadgets::lookup::{lookup3_xy, lookup3_xy_with_conditional_negation};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack::pack_into_inputs;
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::gadgets::uint32::UInt32;
use bellman::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError};
use ff::{PrimeField, PrimeFieldBits};
use simrt::rng::Rng;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Op<F> {
    // bits
    BitIn,
    /// A new bit with the value another one has in the model.
    BitTied(usize),
    BitConst(bool),
    /// Allocated, and false if the given one is true.
    BitCond(usize),
    Not(usize),
    And(usize, usize),
    Xor(usize, usize),
    /// Gates of `AllocatedBit`: 0 and, 1 xor, 2 and-not, 3 nor.
    Raw(u8, usize, usize),
    Ch(usize, usize, usize),
    Maj(usize, usize, usize),
    EqBit(usize, usize),
    U64In,
    /// Bits of an element of this or another field.
    FieldIn(bool),
    // words
    WordIn,
    WordConst(u32),
    WordOf(bool, Vec<usize>),
    WordBits(bool, usize),
    Rotr(usize, usize),
    Shr(usize, usize),
    WXor(usize, usize),
    WCh(usize, usize, usize),
    WMaj(usize, usize, usize),
    /// Operations on one `MultiEq`.
    Group(Vec<Op<F>>),
    /// Only in groups.
    Add(Vec<usize>),
    EqBits(Vec<usize>, Vec<usize>),
    // numbers
    NumIn,
    NumTied(usize),
    Mul(usize, usize),
    Square(usize),
    Inputize(usize),
    CondRev(usize, usize, usize),
    NonZero(usize),
    Strict(usize),
    Loose(usize),
    LcOf(usize),
    LcZero,
    LcAdd(usize, usize, F),
    Lookup([usize; 3], Vec<(F, F)>),
    LookupNeg([usize; 3], Vec<(F, F)>),
    Pack(Vec<usize>),
    // hashes
    Sha(Vec<usize>),
    ShaBlock(Vec<usize>),
    Blake(Vec<usize>, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Prog<F> {
    pub ops: Vec<Op<F>>,
}

/// What the program computes for given inputs.
#[derive(Clone, Debug)]
pub struct Vals<F> {
    pub bits: Vec<bool>,
    pub words: Vec<u32>,
    pub nums: Vec<F>,
    pub lcs: Vec<F>,
    pub public: Vec<F>,
    /// First operation that must report an error.
    pub err: Option<(usize, SynthErr)>,
    /// Some enforced statement is false.
    pub unsat: Option<String>,
    pub at: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SynthErr {
    DivisionByZero,
}

impl<F> Default for Vals<F> {
    fn default() -> Self {
        Vals { bits: vec![], words: vec![], nums: vec![], lcs: vec![], public: vec![], err: None, unsat: None, at: 0 }
    }
}

/// Where free values come from.
pub enum Src<'a, F> {
    Rng(&'a mut Rng),
    /// Values a (byzantine) prover assigned.
    Given(&'a Vals<F>),
    /// Always the smallest (0) or largest (1) values.
    Edge(bool),
}

fn bits_of<F: PrimeField>(v: &F, n: usize) -> Vec<bool> {
    let r = v.to_repr();
    let b = r.as_ref();
    (0..n).map(|i| b.get(i / 8).map(|x| x >> (i % 8) & 1 == 1).unwrap_or(false)).collect()
}
pub fn pack<F: PrimeField>(b: &[bool]) -> F {
    b.iter().rev().fold(F::ZERO, |a, x| a + a + if *x { F::ONE } else { F::ZERO })
}
fn bytes_be(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().fold(0u8, |a, x| a << 1 | *x as u8)).collect()
}
fn bytes_le(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().rev().fold(0u8, |a, x| a << 1 | *x as u8)).collect()
}
fn unbits_be(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect()
}
fn unbits_le(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1)).collect()
}

impl<'a, F: PrimeFieldBits> Src<'a, F> {
    fn bit(&mut self, at: usize, tied: Option<bool>) -> bool {
        match self {
            Src::Given(v) => v.bits[at],
            Src::Rng(r) => tied.unwrap_or_else(|| r.below(2) == 1),
            Src::Edge(b) => tied.unwrap_or(*b),
        }
    }
    fn word(&mut self, at: usize) -> u32 {
        match self {
            Src::Given(v) => v.words[at],
            Src::Rng(r) => match r.below(6) {
                0 => 0,
                1 => u32::MAX,
                2 => 1 << r.below(32),
                _ => r.next() as u32,
            },
            Src::Edge(b) => {
                if *b {
                    u32::MAX
                } else {
                    0
                }
            }
        }
    }
    fn num(&mut self, at: usize, tied: Option<F>) -> F {
        match self {
            Src::Given(v) => v.nums[at],
            Src::Rng(r) => tied.unwrap_or_else(|| fe::<F>(r)),
            Src::Edge(b) => tied.unwrap_or(if *b { -F::ONE } else { F::ZERO }),
        }
    }
}

impl<F: PrimeFieldBits> Vals<F> {
    fn push_bits(&mut self, n: usize, s: &mut Src<F>, tied: Option<&[bool]>) {
        for i in 0..n {
            let b = s.bit(self.bits.len(), tied.map(|t| t[i]));
            self.bits.push(b);
        }
    }
    fn sel(&self, ix: &[usize]) -> Vec<bool> {
        ix.iter().map(|i| self.bits[*i]).collect()
    }
    fn broken(&mut self, s: String) {
        if self.unsat.is_none() && self.err.is_none() {
            self.unsat = Some(s);
        }
    }
    pub fn step(&mut self, op: &Op<F>, s: &mut Src<F>) {
        match op {
            Op::BitIn => self.push_bits(1, s, None),
            Op::BitTied(i) => {
                let b = self.bits[*i];
                self.push_bits(1, s, Some(&[b]))
            }
            Op::BitConst(b) => self.bits.push(*b),
            Op::BitCond(c) => {
                let c = self.bits[*c];
                if c {
                    self.push_bits(1, s, Some(&[false]))
                } else {
                    self.push_bits(1, s, None)
                }
                if c && *self.bits.last().unwrap() {
                    self.broken("a bit that had to be false is true".into());
                }
            }
            Op::Not(i) => self.bits.push(!self.bits[*i]),
            Op::And(i, j) => self.bits.push(self.bits[*i] & self.bits[*j]),
            Op::Xor(i, j) => self.bits.push(self.bits[*i] ^ self.bits[*j]),
            Op::Raw(k, i, j) => {
                let (a, b) = (self.bits[*i], self.bits[*j]);
                self.bits.push(match k {
                    0 => a & b,
                    1 => a ^ b,
                    2 => a & !b,
                    _ => !a & !b,
                })
            }
            Op::Ch(a, b, c) => self.bits.push(if self.bits[*a] { self.bits[*b] } else { self.bits[*c] }),
            Op::Maj(a, b, c) => {
                let n = [a, b, c].iter().filter(|i| self.bits[***i]).count();
                self.bits.push(n >= 2)
            }
            Op::EqBit(a, b) => {
                if self.bits[*a] != self.bits[*b] {
                    self.broken(format!("bits {} and {} differ but are enforced to be equal", a, b));
                }
            }
            Op::U64In => self.push_bits(64, s, None),
            Op::FieldIn(own) => {
                // Any bits are possible: nothing ties them to a field element.
                let n = if *own { F::NUM_BITS } else { bls12_381::Scalar::NUM_BITS } as usize;
                match s {
                    Src::Given(_) => self.push_bits(n, s, None),
                    Src::Rng(r) => {
                        let b = if *own { bits_of(&fe::<F>(r), n) } else { bits_of(&fe::<bls12_381::Scalar>(r), n) };
                        self.bits.extend(b);
                    }
                    Src::Edge(e) => {
                        let b = if *own {
                            bits_of(&if *e { -F::ONE } else { F::ZERO }, n)
                        } else {
                            bits_of(&if *e { -bls12_381::Scalar::one() } else { bls12_381::Scalar::zero() }, n)
                        };
                        self.bits.extend(b);
                    }
                }
            }
            Op::WordIn => {
                let v = s.word(self.words.len());
                self.words.push(v);
            }
            Op::WordConst(c) => self.words.push(*c),
            Op::WordOf(be, ix) => {
                let mut b = self.sel(ix);
                if *be {
                    b.reverse();
                }
                self.words.push(b.iter().rev().fold(0, |a, x| a << 1 | *x as u32));
            }
            Op::WordBits(be, i) => {
                let v = self.words[*i];
                for k in 0..32 {
                    let k = if *be { 31 - k } else { k };
                    self.bits.push(v >> k & 1 == 1);
                }
            }
            Op::Rotr(i, n) => self.words.push(self.words[*i].rotate_right((*n % 32) as u32)),
            Op::Shr(i, n) => self.words.push(self.words[*i] >> (*n % 32) as u32),
            Op::WXor(i, j) => self.words.push(self.words[*i] ^ self.words[*j]),
            Op::WCh(a, b, c) => {
                let (a, b, c) = (self.words[*a], self.words[*b], self.words[*c]);
                self.words.push((a & b) | (!a & c))
            }
            Op::WMaj(a, b, c) => {
                let (a, b, c) = (self.words[*a], self.words[*b], self.words[*c]);
                self.words.push((a & b) | (a & c) | (b & c))
            }
            Op::Group(v) => {
                for o in v {
                    self.step(o, s);
                    self.at -= 1;
                }
            }
            Op::Add(v) => {
                let t = v.iter().fold(0u32, |a, i| a.wrapping_add(self.words[*i]));
                self.words.push(t)
            }
            Op::EqBits(a, b) => {
                if self.sel(a) != self.sel(b) {
                    self.broken("two bit strings differ but are enforced to be equal".into());
                }
            }
            Op::NumIn => {
                let v = s.num(self.nums.len(), None);
                self.nums.push(v);
            }
            Op::NumTied(i) => {
                let v = self.nums[*i];
                let v = s.num(self.nums.len(), Some(v));
                self.nums.push(v);
            }
            Op::Mul(i, j) => self.nums.push(self.nums[*i] * self.nums[*j]),
            Op::Square(i) => self.nums.push(self.nums[*i] * self.nums[*i]),
            Op::Inputize(i) => self.public.push(self.nums[*i]),
            Op::CondRev(i, j, b) => {
                let (x, y) = (self.nums[*i], self.nums[*j]);
                if self.bits[*b] {
                    self.nums.extend([y, x]);
                } else {
                    self.nums.extend([x, y]);
                }
            }
            Op::NonZero(i) => {
                if bool::from(self.nums[*i].is_zero()) {
                    if matches!(s, Src::Given(_)) {
                        self.broken(format!("number {} is zero but was asserted not to be", i));
                    } else if self.err.is_none() {
                        self.err = Some((self.at, SynthErr::DivisionByZero));
                    }
                }
            }
            Op::Strict(i) => {
                let b = bits_of(&self.nums[*i], F::NUM_BITS as usize);
                self.bits.extend(b);
            }
            Op::Loose(i) => {
                let b = bits_of(&self.nums[*i], F::NUM_BITS as usize);
                let at = self.bits.len();
                if let Src::Given(v) = s {
                    // The bits are the prover's choice, but must add up.
                    let g = v.bits[at..at + b.len()].to_vec();
                    if pack::<F>(&g) != self.nums[*i] {
                        self.broken(format!("the bits of number {} do not add up to it", i));
                    }
                    self.bits.extend(g);
                } else {
                    self.bits.extend(b);
                }
            }
            Op::LcOf(i) => self.lcs.push(self.nums[*i]),
            Op::LcZero => self.lcs.push(F::ZERO),
            Op::LcAdd(i, b, c) => {
                // changes the expression in place
                if self.bits[*b] {
                    self.lcs[*i] += *c;
                }
            }
            Op::Lookup(b, t) => {
                let i = b.iter().rev().fold(0, |a, x| a << 1 | self.bits[*x] as usize);
                self.nums.extend([t[i].0, t[i].1]);
            }
            Op::LookupNeg(b, t) => {
                let i = (self.bits[b[1]] as usize) << 1 | self.bits[b[0]] as usize;
                self.lcs.push(t[i].0);
                self.lcs.push(if self.bits[b[2]] { -t[i].1 } else { t[i].1 });
            }
            Op::Pack(ix) => {
                for c in self.sel(ix).chunks(F::NUM_BITS as usize - 1) {
                    self.public.push(pack::<F>(c));
                }
            }
            Op::Sha(ix) => {
                use sha2::{Digest, Sha256};
                let d = Sha256::digest(&bytes_be(&self.sel(ix)));
                self.bits.extend(unbits_be(&d));
            }
            Op::ShaBlock(ix) => {
                let m = bytes_be(&self.sel(ix));
                let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
                let mut blk = [0u8; 64];
                blk.copy_from_slice(&m);
                sha2::compress256(&mut h, &[blk.into()]);
                for x in h {
                    self.bits.extend(unbits_be(&x.to_be_bytes()));
                }
            }
            Op::Blake(ix, p) => {
                let m = bytes_le(&self.sel(ix));
                let h = blake2s_simd::Params::new().hash_length(32).personal(p).to_state().update(&m).finalize();
                self.bits.extend(unbits_le(h.as_bytes()));
            }
        }
        self.at += 1;
    }
}

impl<F: PrimeFieldBits> Prog<F> {
    pub fn model(&self, s: &mut Src<F>) -> Vals<F> {
        let mut v = Vals::default();
        for o in &self.ops {
            v.step(o, s);
        }
        v
    }
    pub fn describe(&self) -> String {
        let mut m = std::collections::BTreeMap::new();
        fn add<F>(o: &Op<F>, m: &mut std::collections::BTreeMap<&'static str, usize>) {
            *m.entry(kind(o)).or_insert(0) += 1;
            if let Op::Group(v) = o {
                for x in v {
                    add(x, m);
                }
            }
        }
        for o in &self.ops {
            add(o, &mut m);
        }
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}x{}", n, k)).collect();
        format!("{}-bit field: {}", F::NUM_BITS, v.join(" "))
    }
    pub fn fingerprint(&self) -> u64 {
        simrt::rng::hash_str(&format!("{:?}", self.ops))
    }
}

pub fn kind<F>(o: &Op<F>) -> &'static str {
    match o {
        Op::BitIn | Op::BitTied(_) => "bit",
        Op::BitConst(_) => "const-bit",
        Op::BitCond(_) => "conditional-bit",
        Op::Not(_) => "not",
        Op::And(..) => "and",
        Op::Xor(..) => "xor",
        Op::Raw(..) => "raw-gate",
        Op::Ch(..) => "ch",
        Op::Maj(..) => "maj",
        Op::EqBit(..) => "equal",
        Op::U64In => "u64-bits",
        Op::FieldIn(_) => "field-bits",
        Op::WordIn => "word",
        Op::WordConst(_) => "const-word",
        Op::WordOf(..) => "from-bits",
        Op::WordBits(..) => "to-bits",
        Op::Rotr(..) => "rotr",
        Op::Shr(..) => "shr",
        Op::WXor(..) => "word-xor",
        Op::WCh(..) => "word-ch",
        Op::WMaj(..) => "word-maj",
        Op::Group(_) => "multieq",
        Op::Add(_) => "addmany",
        Op::EqBits(..) => "batched-equal",
        Op::NumIn | Op::NumTied(_) => "num",
        Op::Mul(..) => "mul",
        Op::Square(_) => "square",
        Op::Inputize(_) => "inputize",
        Op::CondRev(..) => "reverse",
        Op::NonZero(_) => "nonzero",
        Op::Strict(_) => "strict-bits",
        Op::Loose(_) => "loose-bits",
        Op::LcOf(_) | Op::LcZero | Op::LcAdd(..) => "linear",
        Op::Lookup(..) => "lookup",
        Op::LookupNeg(..) => "lookup-negate",
        Op::Pack(_) => "pack",
        Op::Sha(_) => "sha256",
        Op::ShaBlock(_) => "sha256-block",
        Op::Blake(..) => "blake2s",
    }
}

// ----------------------------------------------------------------- real gadgets

pub struct Pools<F: PrimeField> {
    pub bits: Vec<Boolean>,
    pub words: Vec<UInt32>,
    pub nums: Vec<AllocatedNum<F>>,
    pub lcs: Vec<Num<F>>,
    /// Variables that hold the program's inputs.
    pub free: Vec<Index>,
    pub at: usize,
}
impl<F: PrimeField> Default for Pools<F> {
    fn default() -> Self {
        Pools { bits: vec![], words: vec![], nums: vec![], lcs: vec![], free: vec![], at: 0 }
    }
}

fn raw(b: &Boolean) -> Option<&AllocatedBit> {
    match b {
        Boolean::Is(a) | Boolean::Not(a) => Some(a),
        _ => None,
    }
}

impl<F: PrimeFieldBits> Pools<F> {
    fn free_bit(&mut self, b: Boolean) {
        if let Some(a) = raw(&b) {
            self.free.push(a.get_variable().get_unchecked());
        }
        self.bits.push(b);
    }
    fn sel(&self, ix: &[usize]) -> Vec<Boolean> {
        ix.iter().map(|i| self.bits[*i].clone()).collect()
    }

    fn simple<CS: ConstraintSystem<F>>(&mut self, cs: &mut CS, op: &Op<F>, v: Option<&Vals<F>>) -> Result<(), SynthesisError> {
        let nb = self.bits.len();
        let bit = |k: usize| v.map(|v| v.bits[nb + k]);
        match op {
            Op::BitIn | Op::BitTied(_) => {
                let b = AllocatedBit::alloc(cs, bit(0))?;
                self.free_bit(b.into());
            }
            Op::BitConst(b) => self.bits.push(Boolean::constant(*b)),
            Op::BitCond(i) => {
                let b = match &self.bits[*i] {
                    Boolean::Is(a) => AllocatedBit::alloc_conditionally(cs, bit(0), a)?,
                    _ => simrt::run::harness("conditional allocation on something not allocated"),
                };
                self.free_bit(b.into());
            }
            Op::Not(i) => {
                let b = self.bits[*i].not();
                self.bits.push(b)
            }
            Op::And(i, j) => {
                let b = Boolean::and(cs, &self.bits[*i], &self.bits[*j])?;
                self.bits.push(b)
            }
            Op::Xor(i, j) => {
                let b = Boolean::xor(cs, &self.bits[*i], &self.bits[*j])?;
                self.bits.push(b)
            }
            Op::Raw(k, i, j) => {
                let b = match (&self.bits[*i], &self.bits[*j]) {
                    (Boolean::Is(a), Boolean::Is(b)) => match k {
                        0 => AllocatedBit::and(cs, a, b)?,
                        1 => AllocatedBit::xor(cs, a, b)?,
                        2 => AllocatedBit::and_not(cs, a, b)?,
                        _ => AllocatedBit::nor(cs, a, b)?,
                    },
                    _ => simrt::run::harness("gate on something not allocated"),
                };
                self.bits.push(b.into())
            }
            Op::Ch(a, b, c) => {
                let b = Boolean::sha256_ch(cs, &self.bits[*a], &self.bits[*b], &self.bits[*c])?;
                self.bits.push(b)
            }
            Op::Maj(a, b, c) => {
                let b = Boolean::sha256_maj(cs, &self.bits[*a], &self.bits[*b], &self.bits[*c])?;
                self.bits.push(b)
            }
            Op::EqBit(a, b) => Boolean::enforce_equal(cs, &self.bits[*a], &self.bits[*b])?,
            Op::U64In => {
                let n = v.map(|_| (0..64).fold(0u64, |a, k| a | (bit(k).unwrap() as u64) << k));
                for b in u64_into_boolean_vec_le(cs, n)? {
                    self.free_bit(b);
                }
            }
            Op::FieldIn(true) => {
                let n = v.map(|_| pack::<F>(&(0..F::NUM_BITS as usize).map(|k| bit(k).unwrap()).collect::<Vec<_>>()));
                for b in field_into_boolean_vec_le::<F, _, F>(cs, n)? {
                    self.free_bit(b);
                }
            }
            Op::FieldIn(false) => {
                type S = bls12_381::Scalar;
                let n = v.map(|_| pack::<S>(&(0..S::NUM_BITS as usize).map(|k| bit(k).unwrap()).collect::<Vec<_>>()));
                for b in field_into_boolean_vec_le::<F, _, S>(cs, n)? {
                    self.free_bit(b);
                }
            }
            Op::WordIn => {
                let x = UInt32::alloc(cs, v.map(|v| v.words[self.words.len()]))?;
                for b in x.clone().into_bits() {
                    if let Some(a) = raw(&b) {
                        self.free.push(a.get_variable().get_unchecked());
                    }
                }
                self.words.push(x);
            }
            Op::WordConst(c) => self.words.push(UInt32::constant(*c)),
            Op::WordOf(be, ix) => {
                let b = self.sel(ix);
                self.words.push(if *be { UInt32::from_bits_be(&b) } else { UInt32::from_bits(&b) });
            }
            Op::WordBits(be, i) => {
                let x = self.words[*i].clone();
                self.bits.extend(if *be { x.into_bits_be() } else { x.into_bits() });
            }
            Op::Rotr(i, n) => {
                let x = self.words[*i].rotr(*n);
                self.words.push(x)
            }
            Op::Shr(i, n) => {
                let x = self.words[*i].shr(*n);
                self.words.push(x)
            }
            Op::WXor(i, j) => {
                let x = self.words[*i].xor(cs, &self.words[*j])?;
                self.words.push(x)
            }
            Op::WCh(a, b, c) => {
                let x = UInt32::sha256_ch(cs, &self.words[*a], &self.words[*b], &self.words[*c])?;
                self.words.push(x)
            }
            Op::WMaj(a, b, c) => {
                let x = UInt32::sha256_maj(cs, &self.words[*a], &self.words[*b], &self.words[*c])?;
                self.words.push(x)
            }
            Op::NumIn | Op::NumTied(_) => {
                let k = self.nums.len();
                let x = AllocatedNum::alloc(cs, || v.map(|v| v.nums[k]).ok_or(SynthesisError::AssignmentMissing))?;
                self.free.push(x.get_variable().get_unchecked());
                self.nums.push(x)
            }
            Op::Mul(i, j) => {
                let x = self.nums[*i].mul(cs, &self.nums[*j])?;
                self.nums.push(x)
            }
            Op::Square(i) => {
                let x = self.nums[*i].square(cs)?;
                self.nums.push(x)
            }
            Op::Inputize(i) => self.nums[*i].inputize(cs)?,
            Op::CondRev(i, j, b) => {
                let (x, y) = AllocatedNum::conditionally_reverse(cs, &self.nums[*i], &self.nums[*j], &self.bits[*b])?;
                self.nums.extend([x, y])
            }
            Op::NonZero(i) => self.nums[*i].assert_nonzero(cs)?,
            Op::Strict(i) => {
                let b = self.nums[*i].to_bits_le_strict(cs)?;
                self.check_len(b.len(), F::NUM_BITS as usize, "strict decomposition");
                self.bits.extend(b)
            }
            Op::Loose(i) => {
                let b = self.nums[*i].to_bits_le(cs)?;
                self.check_len(b.len(), F::NUM_BITS as usize, "decomposition");
                self.bits.extend(b)
            }
            Op::LcOf(i) => self.lcs.push(Num::from(self.nums[*i].clone())),
            Op::LcZero => self.lcs.push(Num::zero()),
            Op::LcAdd(i, b, c) => {
                let old = std::mem::replace(&mut self.lcs[*i], Num::zero());
                self.lcs[*i] = old.add_bool_with_coeff(CS::one(), &self.bits[*b], *c);
            }
            Op::Lookup(b, t) => {
                let (x, y) = lookup3_xy(cs, &self.sel(b), t)?;
                self.nums.extend([x, y])
            }
            Op::LookupNeg(b, t) => {
                let (x, y) = lookup3_xy_with_conditional_negation(cs, &self.sel(b), t)?;
                self.lcs.extend([x, y])
            }
            Op::Pack(ix) => pack_into_inputs(cs, &self.sel(ix))?,
            Op::Sha(ix) => {
                let b = sha256(cs, &self.sel(ix))?;
                self.check_len(b.len(), 256, "digest");
                self.bits.extend(b)
            }
            Op::ShaBlock(ix) => {
                let b = sha256_block_no_padding(cs, &self.sel(ix))?;
                self.check_len(b.len(), 256, "digest");
                self.bits.extend(b)
            }
            Op::Blake(ix, p) => {
                let b = blake2s(cs, &self.sel(ix), p)?;
                self.check_len(b.len(), 256, "digest");
                self.bits.extend(b)
            }
            Op::Group(_) | Op::Add(_) | Op::EqBits(..) => simrt::run::harness("group operation outside a group"),
        }
        Ok(())
    }

    fn check_len(&self, have: usize, want: usize, what: &str) {
        if have != want {
            simrt::fail("wrong-length", format!("{} of {} bits instead of {}", what, have, want));
        }
    }

    pub fn exec<CS: ConstraintSystem<F>>(&mut self, cs: &mut CS, prog: &Prog<F>, v: Option<&Vals<F>>) -> Result<(), SynthesisError> {
        for (i, op) in prog.ops.iter().enumerate() {
            self.at = i;
            match op {
                Op::Group(g) => {
                    let mut m = MultiEq::new(cs.namespace(|| format!("op {}", i)));
                    for (j, o) in g.iter().enumerate() {
                        match o {
                            Op::Add(l) => {
                                let x: Vec<UInt32> = l.iter().map(|k| self.words[*k].clone()).collect();
                                let s = UInt32::addmany(m.namespace(|| format!("add {}", j)), &x)?;
                                self.words.push(s);
                            }
                            Op::EqBits(a, b) => {
                                let l = |ix: &[usize]| {
                                    let mut c = F::ONE;
                                    let mut l = LinearCombination::zero();
                                    for k in ix {
                                        l = l + &self.bits[*k].lc(CS::one(), c);
                                        c = c.double();
                                    }
                                    l
                                };
                                m.get_root().enforce_equal(a.len(), &l(a), &l(b));
                            }
                            o => self.simple(&mut m.namespace(|| format!("in {}", j)), o, v)?,
                        }
                    }
                }
                _ => self.simple(&mut cs.namespace(|| format!("op {}", i)), op, v)?,
            }
        }
        self.at = prog.ops.len();
        Ok(())
    }

    /// What the variables say, or a bit that is neither 0 nor 1.
    pub fn read(&self, rec: &Rec<F>) -> Result<Vals<F>, String> {
        let mut o = Vals::default();
        let one = <Rec<F> as ConstraintSystem<F>>::one();
        let ev = |l: &LinearCombination<F>| l.as_ref().iter().fold(F::ZERO, |a, (x, c)| a + rec.val(x.get_unchecked()) * c);
        let bit = |b: &Boolean, what: &dyn Fn() -> String| {
            let x = ev(&b.lc(one, F::ONE));
            if x == F::ONE {
                Ok(true)
            } else if bool::from(x.is_zero()) {
                Ok(false)
            } else {
                Err(format!("{} has the value {:?}, neither 0 nor 1", what(), x))
            }
        };
        for (i, b) in self.bits.iter().enumerate() {
            o.bits.push(bit(b, &|| format!("bit {}", i))?);
        }
        for (i, x) in self.words.iter().enumerate() {
            let bits = x.clone().into_bits();
            if bits.len() != 32 {
                return Err(format!("word {} has {} bits", i, bits.len()));
            }
            let mut v = 0u32;
            for (k, b) in bits.iter().enumerate() {
                v |= (bit(b, &|| format!("bit {} of word {}", k, i))? as u32) << k;
            }
            o.words.push(v);
        }
        o.nums = self.nums.iter().map(|n| rec.val(n.get_variable().get_unchecked())).collect();
        o.lcs = self.lcs.iter().map(|n| ev(&n.lc(F::ONE))).collect();
        o.public = rec.inputs[1..].to_vec();
        Ok(o)
    }

    /// Do the claimed values (where present) agree with `m`?
    pub fn claims(&self, m: &Vals<F>) -> Result<(), String> {
        for (i, b) in self.bits.iter().enumerate() {
            match b.get_value() {
                Some(x) if x == m.bits[i] => {}
                x => return Err(format!("bit {} carries the value {:?} instead of {}", i, x, m.bits[i])),
            }
        }
        for (i, x) in self.words.iter().enumerate() {
            // The value of a word shows in what is computed from it; its bits carry theirs.
            for (k, b) in x.clone().into_bits().iter().enumerate() {
                if b.get_value() != Some(m.words[i] >> k & 1 == 1) {
                    return Err(format!("bit {} of word {} carries the value {:?}, the word should be {:#x}", k, i, b.get_value(), m.words[i]));
                }
            }
        }
        for (i, n) in self.nums.iter().enumerate() {
            if n.get_value() != Some(m.nums[i]) {
                return Err(format!("number {} carries the value {:?} instead of {:?}", i, n.get_value(), m.nums[i]));
            }
        }
        for (i, n) in self.lcs.iter().enumerate() {
            if n.get_value() != Some(m.lcs[i]) {
                return Err(format!("expression {} carries the value {:?} instead of {:?}", i, n.get_value(), m.lcs[i]));
            }
        }
        Ok(())
    }
}

/// First difference between what variables say and what the model says.
pub fn differs<F: PrimeField>(have: &Vals<F>, want: &Vals<F>) -> Result<(), String> {
    macro_rules! cmp {
        ($f:ident, $w:expr) => {
            for (i, (a, b)) in have.$f.iter().zip(&want.$f).enumerate() {
                if a != b {
                    return Err(format!("{} {} is {:?} instead of {:?}", $w, i, a, b));
                }
            }
        };
    }
    cmp!(bits, "bit");
    cmp!(words, "word");
    cmp!(nums, "number");
    cmp!(lcs, "expression");
    cmp!(public, "public input");
    if have.public.len() != want.public.len() {
        return Err(format!("{} public inputs instead of {}", have.public.len(), want.public.len()));
    }
    Ok(())
}

/// The program as a circuit.
#[derive(Clone)]
pub struct GCkt<F> {
    pub prog: Arc<Prog<F>>,
    pub vals: Option<Arc<Vals<F>>>,
}
impl<F: PrimeFieldBits> Circuit<F> for GCkt<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        Pools::default().exec(cs, &self.prog, self.vals.as_deref())
    }
}
