//! Fault-injecting stand-ins for the environment: streams, base sources,
//! parameter sources and random generators.
use crate::engine::{Sim, A};
use bellman::multiexp::{Source, SourceBuilder};
use bellman::SynthesisError;
use groth16::{ParameterSource, Parameters, VerifyingKey};
use group::prime::PrimeCurveAffine;
use simrt::count;
use simrt::rng::Rng;
use simrt::w;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidData,
];

/// How a stream behaves.
#[derive(Clone, Debug, Default)]
pub struct StreamPlan {
    /// 0 = whole buffers; otherwise at most this many bytes per call (random).
    pub piece: u64,
    /// 1-in-n calls are interrupted (0 = never).
    pub eintr: u64,
    /// Fail for good once this many bytes went through.
    pub fail_at: Option<(usize, ErrorKind)>,
    /// Writers only: accept nothing (disk full) once this many bytes went through.
    pub zero_at: Option<usize>,
    /// Seed of the per-call choices.
    pub seed: u64,
}

impl StreamPlan {
    /// A benign plan: short transfers and interruptions only.
    pub fn benign() -> StreamPlan {
        let piece = [0, 1, 3, 7, 64, 200][w(6) as usize];
        let eintr = [0, 0, 8, 3, 2][w(5) as usize];
        StreamPlan { piece, eintr, fail_at: None, zero_at: None, seed: w(0) }
    }
    /// The same from a generator of the caller's own.
    pub fn drawn(r: &mut Rng) -> StreamPlan {
        let piece = [0, 1, 3, 7, 64, 200][r.below(6) as usize];
        let eintr = [0, 0, 8, 3, 2][r.below(5) as usize];
        StreamPlan { piece, eintr, fail_at: None, zero_at: None, seed: r.next() }
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed)
    }
}

pub struct SimRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: StreamPlan,
    rng: Rng,
    streak: u32,
    pub calls: u64,
    pub past_end: u64,
}
impl<'a> SimRead<'a> {
    pub fn new(data: &'a [u8], plan: StreamPlan) -> Self {
        let rng = plan.rng();
        SimRead { data, pos: 0, plan, rng, streak: 0, calls: 0, past_end: 0 }
    }
}
impl<'a> Read for SimRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.plan.eintr > 0 && self.streak < 5 && self.rng.below(self.plan.eintr) == 0 {
            self.streak += 1;
            count("fault:read-interrupted");
            return Err(ErrorKind::Interrupted.into());
        }
        self.streak = 0;
        let mut end = self.data.len();
        if let Some((at, kind)) = self.plan.fail_at {
            if self.pos >= at && !buf.is_empty() {
                count("fault:read-error");
                return Err(io::Error::new(kind, "injected read failure"));
            }
            end = end.min(at);
        }
        let mut n = buf.len().min(end.saturating_sub(self.pos));
        if self.plan.piece > 0 && n > 1 {
            let m = 1 + self.rng.below(self.plan.piece) as usize;
            if m < n {
                n = m;
                count("fault:short-read");
            }
        }
        if n == 0 && !buf.is_empty() {
            self.past_end += 1;
            count("fault:read-eof");
            if self.past_end > 10_000 {
                simrt::fail("no-progress", "the reader was polled ten thousand times after its end");
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct SimWrite {
    pub out: Vec<u8>,
    pub plan: StreamPlan,
    rng: Rng,
    streak: u32,
    pub flushes: u64,
    pub failed: bool,
    zeros: u64,
}
impl SimWrite {
    pub fn new(plan: StreamPlan) -> Self {
        let rng = plan.rng();
        SimWrite { out: vec![], plan, rng, streak: 0, flushes: 0, failed: false, zeros: 0 }
    }
}
impl Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.plan.eintr > 0 && self.streak < 5 && self.rng.below(self.plan.eintr) == 0 {
            self.streak += 1;
            count("fault:write-interrupted");
            return Err(ErrorKind::Interrupted.into());
        }
        self.streak = 0;
        let mut room = usize::MAX;
        if let Some((at, kind)) = self.plan.fail_at {
            if self.out.len() >= at && !buf.is_empty() {
                count("fault:write-error");
                self.failed = true;
                return Err(io::Error::new(kind, "injected write failure"));
            }
            room = room.min(at.saturating_sub(self.out.len()));
        }
        if let Some(at) = self.plan.zero_at {
            if self.out.len() >= at && !buf.is_empty() {
                count("fault:disk-full");
                self.failed = true;
                self.zeros += 1;
                if self.zeros > 10_000 {
                    simrt::fail("no-progress", "the writer was called ten thousand times after it stopped accepting data");
                }
                return Ok(0);
            }
            room = room.min(at.saturating_sub(self.out.len()));
        }
        let mut n = buf.len().min(room);
        if self.plan.piece > 0 && n > 1 {
            let m = 1 + self.rng.below(self.plan.piece) as usize;
            if m < n {
                n = m;
                count("fault:short-write");
            }
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}

// ------------------------------------------------------------- base sources

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BaseFault {
    Io(ErrorKind),
    Eof,
    Identity,
    /// The source panics. Not drawn by `draw`.
    Panic,
}
impl BaseFault {
    pub fn draw() -> BaseFault {
        match w(6) {
            0 => BaseFault::Io(ErrorKind::Other),
            1 => BaseFault::Eof,
            2 => BaseFault::Identity,
            3 => BaseFault::Io(ErrorKind::TimedOut),
            4 => BaseFault::Io(ErrorKind::BrokenPipe),
            _ => BaseFault::Io(ErrorKind::ConnectionReset),
        }
    }
    pub fn err(self) -> SynthesisError {
        match self {
            BaseFault::Io(k) => io::Error::new(k, "injected source failure").into(),
            BaseFault::Eof => io::Error::new(ErrorKind::UnexpectedEof, "injected end of source").into(),
            BaseFault::Identity => SynthesisError::UnexpectedIdentity,
            BaseFault::Panic => panic!("injected panic in a source"),
        }
    }
    pub fn matches(self, e: &SynthesisError) -> bool {
        match (self, e) {
            (BaseFault::Io(k), SynthesisError::IoError(e)) => e.kind() == k,
            (BaseFault::Eof, SynthesisError::IoError(e)) => e.kind() == ErrorKind::UnexpectedEof,
            (BaseFault::Identity, SynthesisError::UnexpectedIdentity) => true,
            _ => false,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            BaseFault::Io(_) => "fault:source-io-error",
            BaseFault::Eof => "fault:source-eof",
            BaseFault::Identity => "fault:source-identity",
            BaseFault::Panic => "fault:source-panic",
        }
    }
}

/// What happened to one source over all its passes.
#[derive(Default)]
pub struct SourceLog {
    pub hits: AtomicUsize,
    pub consumed_max: AtomicUsize,
}

/// A streaming source of bases.
#[derive(Clone)]
pub struct SimSource<G> {
    pub bases: Arc<Vec<G>>,
    pub at: usize,
    /// Fault when the base with this absolute index is touched on a pass that
    /// is selected by `pass` (None = every pass).
    pub fault: Option<(usize, BaseFault, Option<usize>)>,
    pub log: Arc<SourceLog>,
    pub passes: Arc<AtomicUsize>,
    pub my_pass: usize,
    /// Slow down before each element, to spread the schedule.
    pub slow: u64,
    pub cur: Option<G>,
    /// Only `next` fails, skipping goes through.
    pub next_only: bool,
}
impl<G: PrimeCurveAffine> SimSource<G> {
    pub fn new(bases: Arc<Vec<G>>, at: usize) -> Self {
        SimSource { bases, at, fault: None, log: Default::default(), passes: Default::default(), my_pass: 0, slow: 0, cur: None, next_only: false }
    }
    fn armed(&self) -> Option<(usize, BaseFault)> {
        match self.fault {
            Some((at, f, None)) => Some((at, f)),
            Some((at, f, Some(p))) if p == self.my_pass => Some((at, f)),
            _ => None,
        }
    }
    fn hit(&self, f: BaseFault) -> SynthesisError {
        self.log.hits.fetch_add(1, Ordering::SeqCst);
        count(f.name());
        f.err()
    }
}
impl<G: PrimeCurveAffine> SourceBuilder<G> for SimSource<G> {
    type Source = SimSource<G>;
    fn build(mut self) -> Self {
        self.my_pass = self.passes.fetch_add(1, Ordering::SeqCst);
        self
    }
}
impl<G: PrimeCurveAffine> Source<G> for SimSource<G> {
    fn next(&mut self) -> Result<&G, SynthesisError> {
        crate::util::work(self.slow);
        if let Some((at, f)) = self.armed() {
            if self.at >= at {
                return Err(self.hit(f));
            }
        }
        if self.at >= self.bases.len() {
            return Err(self.hit(BaseFault::Eof));
        }
        let b = self.bases[self.at];
        if bool::from(b.is_identity()) {
            return Err(self.hit(BaseFault::Identity));
        }
        self.at += 1;
        self.log.consumed_max.fetch_max(self.at, Ordering::SeqCst);
        self.cur = Some(b);
        Ok(self.cur.as_ref().unwrap())
    }
    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {
        if let Some((at, f)) = self.armed() {
            if !self.next_only && self.at + amt > at {
                return Err(self.hit(f));
            }
        }
        if amt > 0 && self.at >= self.bases.len() {
            return Err(self.hit(BaseFault::Eof));
        }
        self.at += amt;
        self.log.consumed_max.fetch_max(self.at, Ordering::SeqCst);
        Ok(())
    }
}

// ---------------------------------------------------------- parameter source

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    Vk,
    H,
    L,
    A,
    B1,
    B2,
}
pub const REQS: [Req; 6] = [Req::Vk, Req::H, Req::L, Req::A, Req::B1, Req::B2];

#[derive(Clone, Debug)]
pub enum ParamFault {
    /// The request itself fails.
    Request(Req, BaseFault),
    /// The n-th stream (0 h, 1 l, 2 a_in, 3 a_aux, 4..5 b1, 6..7 b2) breaks at
    /// this element on the given pass (None = every pass).
    Stream(usize, usize, BaseFault, Option<usize>),
}

pub struct SimParams {
    pub p: Arc<Parameters<Sim>>,
    /// 0: two views of one vector, 1: separate exact-length vectors.
    pub style: u64,
    pub slow: u64,
    pub faults: Vec<ParamFault>,
    pub log: Arc<Mutex<Vec<(Req, usize, usize)>>>,
    pub hits: Arc<SourceLog>,
    pub requests_failed: Arc<Mutex<Vec<BaseFault>>>,
    pub next_only: bool,
}
impl SimParams {
    pub fn new(p: &Arc<Parameters<Sim>>) -> SimParams {
        SimParams {
            p: p.clone(),
            style: 0,
            slow: 0,
            faults: vec![],
            log: Default::default(),
            hits: Default::default(),
            requests_failed: Default::default(),
            next_only: false,
        }
    }
    fn req(&self, r: Req, a: usize, b: usize) -> Result<(), SynthesisError> {
        self.log.lock().unwrap().push((r, a, b));
        for f in &self.faults {
            if let ParamFault::Request(q, f) = f {
                if *q == r {
                    count("fault:parameter-request-error");
                    self.requests_failed.lock().unwrap().push(*f);
                    return Err(f.err());
                }
            }
        }
        Ok(())
    }
    fn one<G: PrimeCurveAffine>(&self, id: usize, v: &Arc<Vec<G>>, at: usize) -> SimSource<G> {
        let mut s = SimSource::new(v.clone(), at);
        s.slow = self.slow;
        s.next_only = self.next_only;
        for f in &self.faults {
            if let ParamFault::Stream(i, k, f, p) = f {
                if *i == id {
                    s.fault = Some((at + *k, *f, *p));
                }
            }
        }
        s.log = self.hits.clone();
        s
    }
    fn two<G: PrimeCurveAffine>(&self, id: usize, v: &Arc<Vec<G>>, n: usize) -> (SimSource<G>, SimSource<G>) {
        if self.style == 0 || n > v.len() {
            (self.one(id, v, 0), self.one(id + 1, v, n))
        } else {
            let a = Arc::new(v[..n].to_vec());
            let b = Arc::new(v[n..].to_vec());
            (self.one(id, &a, 0), self.one(id + 1, &b, 0))
        }
    }
}
impl ParameterSource<Sim> for SimParams {
    type G1Builder = SimSource<A<crate::engine::Fr, 1>>;
    type G2Builder = SimSource<A<crate::engine::Fr, 2>>;
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<Sim>, SynthesisError> {
        self.req(Req::Vk, n, 0)?;
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.req(Req::H, n, 0)?;
        Ok(self.one(0, &self.p.h, 0))
    }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.req(Req::L, n, 0)?;
        Ok(self.one(1, &self.p.l, 0))
    }
    fn get_a(&mut self, i: usize, n: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.req(Req::A, i, n)?;
        Ok(self.two(2, &self.p.a, i))
    }
    fn get_b_g1(&mut self, i: usize, n: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.req(Req::B1, i, n)?;
        Ok(self.two(4, &self.p.b_g1, i))
    }
    fn get_b_g2(&mut self, i: usize, n: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
        self.req(Req::B2, i, n)?;
        Ok(self.two(6, &self.p.b_g2, i))
    }
}

// -------------------------------------------------------- random generators

/// A generator that repeats or returns zeros for a while, then recovers.
pub struct FaultyRng {
    r: Rng,
    mode: u64,
    left: u64,
    pub bytes: Vec<u8>,
    pub record: bool,
}
impl FaultyRng {
    pub fn new(seed: u64, mode: u64, left: u64) -> Self {
        FaultyRng { r: Rng::new(seed), mode, left, bytes: vec![], record: false }
    }
}
impl rand_core::RngCore for FaultyRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let n = c.len();
            let v = if self.left > 0 && self.mode > 0 {
                self.left -= 1;
                match self.mode {
                    1 => {
                        count("fault:rng-zeros");
                        0
                    }
                    _ => {
                        count("fault:rng-repeats");
                        0x0123456789abcdef
                    }
                }
            } else {
                self.r.next()
            };
            c.copy_from_slice(&v.to_le_bytes()[..n]);
        }
        if self.record {
            self.bytes.extend_from_slice(d);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for FaultyRng {}
