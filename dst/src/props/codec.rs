//! C12-C14: proofs, verifying keys and parameters over unreliable streams.
use crate::engine::{Fr, Sim};
use crate::faults::*;
use crate::props::groth::{blind, setup};
use crate::r1cs::*;
use crate::util::*;
use bls12_381::Bls12;
use ff::Field;
use groth16::{create_proof, prepare_verifying_key, verify_proof, Parameters, Proof, VerifyingKey};
use group::{prime::PrimeCurveAffine, Curve, GroupEncoding, UncompressedEncoding};
use pairing::Engine;
use simrt::rng::Rng;
use simrt::{alloc::measure, count, fail, phase, quiet, set_sample, w};
use std::io::{self, ErrorKind};
use std::sync::Arc;

// ------------------------------------------------------------ reference codec

/// How a sequence of elements is laid out.
#[derive(Clone, Copy, PartialEq, Debug)]
enum El {
    G1c,
    G2c,
    /// uncompressed; the flag tells whether the identity is refused
    G1(bool, Chk),
    G2(bool, Chk),
    /// number of elements of the following kind
    Vec1(bool, Chk),
    Vec2(bool, Chk),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Chk {
    Yes,
    No,
}

#[derive(Clone)]
enum Val<E: Engine> {
    G1(E::G1Affine),
    G2(E::G2Affine),
    V1(Vec<E::G1Affine>),
    V2(Vec<E::G2Affine>),
}

impl<E: Engine> PartialEq for Val<E> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Val::G1(a), Val::G1(b)) => a == b,
            (Val::G2(a), Val::G2(b)) => a == b,
            (Val::V1(a), Val::V1(b)) => a == b,
            (Val::V2(a), Val::V2(b)) => a == b,
            _ => false,
        }
    }
}

fn layout_proof() -> Vec<El> {
    vec![El::G1c, El::G2c, El::G1c]
}
fn layout_vk() -> Vec<El> {
    use Chk::Yes;
    vec![
        El::G1(false, Yes),
        El::G1(false, Yes),
        El::G2(false, Yes),
        El::G2(false, Yes),
        El::G1(false, Yes),
        El::G2(false, Yes),
        El::Vec1(true, Yes),
    ]
}
fn layout_params(checked: bool) -> Vec<El> {
    let c = if checked { Chk::Yes } else { Chk::No };
    let mut v = layout_vk();
    v.extend([El::Vec1(true, c), El::Vec1(true, c), El::Vec1(true, c), El::Vec1(true, c), El::Vec2(true, c)]);
    v
}

fn sizes<E: Engine>() -> [usize; 4] {
    let a = <E::G1Affine as GroupEncoding>::Repr::default().as_ref().len();
    let b = <E::G2Affine as GroupEncoding>::Repr::default().as_ref().len();
    let c = <E::G1Affine as UncompressedEncoding>::Uncompressed::default().as_ref().len();
    let d = <E::G2Affine as UncompressedEncoding>::Uncompressed::default().as_ref().len();
    [a, b, c, d]
}

fn dec_c<G: GroupEncoding>(b: &[u8]) -> Option<G> {
    let mut r = G::Repr::default();
    r.as_mut().copy_from_slice(b);
    Option::from(G::from_bytes(&r))
}
fn dec_u<G: UncompressedEncoding>(b: &[u8], c: Chk) -> Option<G> {
    let mut r = G::Uncompressed::default();
    r.as_mut().copy_from_slice(b);
    Option::from(if c == Chk::Yes { G::from_uncompressed(&r) } else { G::from_uncompressed_unchecked(&r) })
}

struct Expect<E: Engine> {
    /// Values and bytes consumed.
    ok: Option<(Vec<Val<E>>, usize)>,
    /// Acceptable kinds of error (empty if none is).
    kinds: Vec<ErrorKind>,
    /// An element that should never be the identity is, but no reader has to
    /// refuse it.
    odd: bool,
    detail: String,
}

/// What reading these bytes must lead to.
fn expect<E: Engine>(lay: &[El], b: &[u8], fail_at: Option<(usize, ErrorKind)>, truncated: bool) -> Expect<E> {
    let sz = sizes::<E>();
    let limit = fail_at.map(|f| f.0.min(b.len())).unwrap_or(b.len());
    let stream_kind = match fail_at {
        Some((at, k)) if at <= b.len() => k,
        _ => ErrorKind::UnexpectedEof,
    };
    let mut pos = 0;
    let mut out: Vec<Val<E>> = vec![];
    let mut odd = false;
    macro_rules! take {
        ($n:expr) => {{
            if pos + $n > limit {
                return Expect { ok: None, kinds: vec![stream_kind], odd, detail: format!("stream ends within element {}", out.len()) };
            }
            let s = &b[pos..pos + $n];
            pos += $n;
            s
        }};
    }
    macro_rules! bad {
        ($d:expr) => {{
            let mut kinds = vec![ErrorKind::InvalidData];
            if fail_at.is_some() || truncated {
                kinds.push(stream_kind);
            }
            return Expect { ok: None, kinds, odd, detail: format!("{} in element {}", $d, out.len()) };
        }};
    }
    macro_rules! point {
        ($dec:expr, $no_id:expr) => {{
            match $dec {
                None => bad!("undecodable point"),
                Some(p) => {
                    if bool::from(p.is_identity()) {
                        if $no_id {
                            bad!("identity");
                        }
                        odd = true;
                    }
                    p
                }
            }
        }};
    }
    for e in lay {
        match *e {
            El::G1c => {
                let s = take!(sz[0]);
                let p = point!(dec_c::<E::G1Affine>(s), true);
                out.push(Val::G1(p));
            }
            El::G2c => {
                let s = take!(sz[1]);
                let p = point!(dec_c::<E::G2Affine>(s), true);
                out.push(Val::G2(p));
            }
            El::G1(no, c) => {
                let s = take!(sz[2]);
                let p = point!(dec_u::<E::G1Affine>(s, c), no);
                out.push(Val::G1(p));
            }
            El::G2(no, c) => {
                let s = take!(sz[3]);
                let p = point!(dec_u::<E::G2Affine>(s, c), no);
                out.push(Val::G2(p));
            }
            El::Vec1(no, c) => {
                let s = take!(4);
                let n = u32::from_be_bytes([s[0], s[1], s[2], s[3]]);
                let mut v = vec![];
                for _ in 0..n {
                    let s = take!(sz[2]);
                    v.push(point!(dec_u::<E::G1Affine>(s, c), no));
                }
                out.push(Val::V1(v));
            }
            El::Vec2(no, c) => {
                let s = take!(4);
                let n = u32::from_be_bytes([s[0], s[1], s[2], s[3]]);
                let mut v = vec![];
                for _ in 0..n {
                    let s = take!(sz[3]);
                    v.push(point!(dec_u::<E::G2Affine>(s, c), no));
                }
                out.push(Val::V2(v));
            }
        }
    }
    Expect { ok: Some((out, pos)), kinds: vec![], odd, detail: String::new() }
}

/// The encoding of these values and where each element starts.
fn encode<E: Engine>(lay: &[El], vals: &[Val<E>]) -> (Vec<u8>, Vec<(usize, usize, El)>, Vec<usize>) {
    let mut o: Vec<u8> = vec![];
    let mut at = vec![];
    let mut counts = vec![];
    for (e, v) in lay.iter().zip(vals) {
        match (e, v) {
            (El::G1c, Val::G1(p)) => {
                at.push((o.len(), p.to_bytes().as_ref().len(), *e));
                o.extend_from_slice(p.to_bytes().as_ref());
            }
            (El::G2c, Val::G2(p)) => {
                at.push((o.len(), p.to_bytes().as_ref().len(), *e));
                o.extend_from_slice(p.to_bytes().as_ref());
            }
            (El::G1(..), Val::G1(p)) => {
                at.push((o.len(), p.to_uncompressed().as_ref().len(), *e));
                o.extend_from_slice(p.to_uncompressed().as_ref());
            }
            (El::G2(..), Val::G2(p)) => {
                at.push((o.len(), p.to_uncompressed().as_ref().len(), *e));
                o.extend_from_slice(p.to_uncompressed().as_ref());
            }
            (El::Vec1(a, b), Val::V1(ps)) => {
                counts.push(o.len());
                o.extend_from_slice(&(ps.len() as u32).to_be_bytes());
                for p in ps {
                    at.push((o.len(), p.to_uncompressed().as_ref().len(), El::G1(*a, *b)));
                    o.extend_from_slice(p.to_uncompressed().as_ref());
                }
            }
            (El::Vec2(a, b), Val::V2(ps)) => {
                counts.push(o.len());
                o.extend_from_slice(&(ps.len() as u32).to_be_bytes());
                for p in ps {
                    at.push((o.len(), p.to_uncompressed().as_ref().len(), El::G2(*a, *b)));
                    o.extend_from_slice(p.to_uncompressed().as_ref());
                }
            }
            _ => simrt::run::harness("layout does not match values"),
        }
    }
    (o, at, counts)
}

// ----------------------------------------------------------------- the codecs

trait Codec<E: Engine>: Clone + PartialEq + Sized {
    const NAME: &'static str;
    fn layout(checked: bool) -> Vec<El>;
    fn rd<R: io::Read>(r: R, checked: bool) -> io::Result<Self>;
    fn wr<W: io::Write>(&self, w: W) -> io::Result<()>;
    fn vals(&self) -> Vec<Val<E>>;
}
impl<E: Engine> Codec<E> for Proof<E> {
    const NAME: &'static str = "proof";
    fn layout(_: bool) -> Vec<El> {
        layout_proof()
    }
    fn rd<R: io::Read>(r: R, _: bool) -> io::Result<Self> {
        Proof::read(r)
    }
    fn wr<W: io::Write>(&self, w: W) -> io::Result<()> {
        self.write(w)
    }
    fn vals(&self) -> Vec<Val<E>> {
        vec![Val::G1(self.a), Val::G2(self.b), Val::G1(self.c)]
    }
}
impl<E: Engine> Codec<E> for VerifyingKey<E> {
    const NAME: &'static str = "verifying key";
    fn layout(_: bool) -> Vec<El> {
        layout_vk()
    }
    fn rd<R: io::Read>(r: R, _: bool) -> io::Result<Self> {
        VerifyingKey::read(r)
    }
    fn wr<W: io::Write>(&self, w: W) -> io::Result<()> {
        self.write(w)
    }
    fn vals(&self) -> Vec<Val<E>> {
        vec![
            Val::G1(self.alpha_g1),
            Val::G1(self.beta_g1),
            Val::G2(self.beta_g2),
            Val::G2(self.gamma_g2),
            Val::G1(self.delta_g1),
            Val::G2(self.delta_g2),
            Val::V1(self.ic.clone()),
        ]
    }
}
impl<E: Engine> Codec<E> for Parameters<E> {
    const NAME: &'static str = "parameters";
    fn layout(checked: bool) -> Vec<El> {
        layout_params(checked)
    }
    fn rd<R: io::Read>(r: R, checked: bool) -> io::Result<Self> {
        Parameters::read(r, checked)
    }
    fn wr<W: io::Write>(&self, w: W) -> io::Result<()> {
        self.write(w)
    }
    fn vals(&self) -> Vec<Val<E>> {
        let mut v = self.vk.vals();
        v.extend([
            Val::V1(self.h.to_vec()),
            Val::V1(self.l.to_vec()),
            Val::V1(self.a.to_vec()),
            Val::V1(self.b_g1.to_vec()),
            Val::V2(self.b_g2.to_vec()),
        ]);
        v
    }
}

const SLACK: u64 = 256 * 1024;

/// Reads `data` and compares with what must happen.
fn read_check<E: Engine, T: Codec<E>>(data: &[u8], plan: StreamPlan, checked: bool, truncated: bool, what: &str) -> Option<T> {
    let lay = T::layout(checked);
    let ex = quiet(|| expect::<E>(&lay, data, plan.fail_at, truncated));
    let mut s = SimRead::new(data, plan.clone());
    let limit = 16 * data.len() as u64 + SLACK;
    phase("read");
    let (got, peak) = measure(limit, || {
        if plan.seed % 2 == 0 {
            T::rd(&mut s, checked)
        } else {
            // through a trait object, as a generic file handle would be
            let d: &mut dyn io::Read = &mut s;
            T::rd(d, checked)
        }
    });
    let consumed = s.pos as u64;
    if peak > 16 * consumed + SLACK {
        fail("memory", format!("reading a {} used {} bytes after {} bytes of input ({})", T::NAME, peak, consumed, what));
    }
    let calls = s.calls;
    if calls > 40 * (data.len() as u64 + 10_000) {
        fail("work", format!("reading a {} of {} bytes took {} read calls", T::NAME, data.len(), calls));
    }
    phase("");
    quiet(|| match (got, &ex.ok) {
        (Ok(v), Some((vals, n))) => {
            if v.vals() != *vals {
                fail("wrong-value", format!("a {} reads back differently ({})", T::NAME, what));
            }
            if s.pos != *n {
                fail("over-read", format!("reading a {} consumed {} bytes, its encoding has {} ({})", T::NAME, s.pos, n, what));
            }
            count("oracle:read-value");
            Some(v)
        }
        (Ok(_), None) => fail("accepted-damage", format!("a {} was read from a damaged stream: {}, {}", T::NAME, what, ex.detail)),
        (Err(e), Some(_)) => {
            if ex.odd && e.kind() == ErrorKind::InvalidData {
                count("probe:odd-identity-refused");
                return None;
            }
            fail("refused", format!("reading a {} failed with {:?} ({}) although the stream is fine: {}", T::NAME, e.kind(), e, what))
        }
        (Err(e), None) => {
            if !ex.kinds.contains(&e.kind()) && !(ex.odd && e.kind() == ErrorKind::InvalidData) {
                fail("wrong-error", format!("reading a {} failed with {:?} instead of {:?}: {}, {}", T::NAME, e.kind(), ex.kinds, what, ex.detail));
            }
            count("oracle:read-error");
            None
        }
    })
}

fn write_check<E: Engine, T: Codec<E>>(v: &T, bytes: &[u8], r: &mut Rng) {
    let mut plan = StreamPlan { piece: [0, 1, 5, 33, 100][r.below(5) as usize], eintr: [0, 0, 3, 6][r.below(4) as usize], fail_at: None, zero_at: None, seed: r.next() };
    let kind = KINDS[r.below(8) as usize];
    let at = r.below(bytes.len() as u64) as usize;
    match r.below(5) {
        0 => plan.fail_at = Some((at, kind)),
        1 => plan.zero_at = Some(at),
        2 => plan.fail_at = Some((bytes.len(), kind)),
        _ => {}
    }
    let (fail_at, zero_at) = (plan.fail_at, plan.zero_at);
    let mut s = SimWrite::new(plan);
    phase("write");
    let res = if r.below(2) == 0 {
        v.wr(&mut s)
    } else {
        let d: &mut dyn io::Write = &mut s;
        v.wr(d)
    };
    phase("");
    if s.out.len() > bytes.len() || s.out[..] != bytes[..s.out.len()] {
        fail("wrong-bytes", format!("the bytes written for a {} are not its encoding", T::NAME));
    }
    let fails = fail_at.map(|f| f.0 < bytes.len()).unwrap_or(false) || zero_at.is_some();
    match res {
        Ok(()) => {
            if s.failed && s.out.len() < bytes.len() {
                fail("write-error-lost", format!("writing a {} reported success although the writer failed after {} of {} bytes", T::NAME, s.out.len(), bytes.len()));
            }
            if s.out.len() != bytes.len() {
                fail("short-encoding", format!("writing a {} reported success after {} of {} bytes", T::NAME, s.out.len(), bytes.len()));
            }
            count("oracle:written");
        }
        Err(e) => {
            if !fails {
                fail("spurious-error", format!("writing a {} failed with {:?}", T::NAME, e.kind()));
            }
            let want = if zero_at.is_some() { ErrorKind::WriteZero } else { fail_at.unwrap().1 };
            if e.kind() != want {
                fail("wrong-error", format!("writing a {} failed with {:?} instead of {:?}", T::NAME, e.kind(), want));
            }
            count("oracle:write-error");
        }
    }
}

/// Damages an encoding; returns what was done and whether it lost its tail.
fn mutate<E: Engine>(b: &mut Vec<u8>, at: &[(usize, usize, El)], counts: &[usize], r: &mut Rng) -> (String, bool) {
    let pick = |r: &mut Rng| at[r.below(at.len() as u64) as usize];
    if b.is_empty() {
        return ("nothing".into(), false);
    }
    match r.below(12) {
        0 => {
            let n = r.below(b.len() as u64) as usize;
            count("fault:truncated-stream");
            b.truncate(n);
            (format!("truncated to {} bytes", n), true)
        }
        1 => {
            let (p, n, _) = pick(r);
            let k = if r.below(2) == 0 { p } else { p + n - 1 };
            count("fault:truncated-stream");
            b.truncate(k);
            (format!("truncated at an element, {} bytes", k), true)
        }
        2 | 3 => {
            let k = r.below(b.len() as u64) as usize;
            b[k] ^= 1 << r.below(8);
            count("fault:bit-flip");
            (format!("bit flipped in byte {}", k), false)
        }
        4 => {
            // the identity, properly encoded
            let (p, n, e) = pick(r);
            let id: Vec<u8> = match e {
                El::G1c => E::G1Affine::identity().to_bytes().as_ref().to_vec(),
                El::G2c => E::G2Affine::identity().to_bytes().as_ref().to_vec(),
                El::G1(..) => E::G1Affine::identity().to_uncompressed().as_ref().to_vec(),
                _ => E::G2Affine::identity().to_uncompressed().as_ref().to_vec(),
            };
            b[p..p + n].copy_from_slice(&id);
            count("fault:identity-element");
            (format!("identity at byte {}", p), false)
        }
        5 => {
            // coordinates out of range
            let (p, n, _) = pick(r);
            let (x, y) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
            for k in x.min(y)..=x.max(y) {
                b[p + k] = 0xff;
            }
            count("fault:out-of-range-coordinate");
            (format!("bytes {}..={} set", p + x.min(y), p + x.max(y)), false)
        }
        6 => {
            // another element's bytes
            let (p, n, _) = pick(r);
            let (q, m, _) = pick(r);
            let n = n.min(m);
            let v = b[q..q + n].to_vec();
            b[p..p + n].copy_from_slice(&v);
            count("fault:misplaced-element");
            (format!("element at {} replaced by the one at {}", p, q), false)
        }
        7 => {
            let (p, n, _) = pick(r);
            for k in 0..n {
                b[p + k] = r.next() as u8;
            }
            count("fault:garbage-element");
            (format!("garbage in the element at {}", p), false)
        }
        8 | 9 if !counts.is_empty() => {
            let p = counts[r.below(counts.len() as u64) as usize];
            let n = u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
            let v = match r.below(8) {
                0 => 0,
                1 => n.wrapping_sub(1),
                2 => n.wrapping_add(1),
                3 => u32::MAX,
                4 => 0x8000_0000,
                5 => 0x0100_0000,
                6 => n << 8,
                _ => r.next() as u32,
            };
            b[p..p + 4].copy_from_slice(&v.to_be_bytes());
            count("fault:hostile-count");
            (format!("count at {} changed from {} to {}", p, n, v), false)
        }
        10 => {
            // a block lost or duplicated
            let k = r.below(b.len() as u64) as usize;
            let m = (1 + r.below(100) as usize).min(b.len() - k);
            if r.below(2) == 0 {
                b.drain(k..k + m);
                count("fault:lost-bytes");
                (format!("{} bytes lost at {}", m, k), true)
            } else {
                let v = b[k..k + m].to_vec();
                for (i, x) in v.into_iter().enumerate() {
                    b.insert(k + i, x);
                }
                count("fault:repeated-bytes");
                (format!("{} bytes repeated at {}", m, k), true)
            }
        }
        _ => {
            let (p, n, _) = pick(r);
            for x in b[p + n / 2..p + n].iter_mut() {
                *x = 0;
            }
            count("fault:torn-element");
            (format!("second half of the element at {} zeroed", p), false)
        }
    }
}

fn codec_run<E: Engine, T: Codec<E>>(v: &T, r: &mut Rng) {
    let lay = T::layout(true);
    let vals = v.vals();
    let (bytes, at, counts) = quiet(|| encode::<E>(&lay, &vals));
    write_check::<E, T>(v, &bytes, r);
    for _ in 0..1 + r.below(4) {
        let checked = r.below(2) == 0;
        let mut b = bytes.clone();
        let mut what = "intact".to_string();
        let mut truncated = false;
        let dmg = r.below(4);
        if dmg > 0 {
            for _ in 0..1 + r.below(2) {
                if at.iter().any(|(p, n, _)| p + n > b.len()) || counts.iter().any(|p| p + 4 > b.len()) || b.len() != bytes.len() {
                    break;
                }
                let (d, t) = quiet(|| mutate::<E>(&mut b, &at, &counts, r));
                truncated |= t;
                what = if what == "intact" { d } else { format!("{}; {}", what, d) };
            }
        }
        // hostile counts make everything after them garbage
        truncated |= counts.iter().any(|p| b.get(*p..*p + 4) != bytes.get(*p..*p + 4));
        // something else follows on the stream
        let trailing = r.below(3);
        for _ in 0..[0, 1, 300][trailing as usize] {
            b.push(r.next() as u8);
        }
        let mut plan = StreamPlan { piece: [0, 1, 2, 7, 50, 200][r.below(6) as usize], eintr: [0, 0, 4, 2][r.below(4) as usize], fail_at: None, zero_at: None, seed: r.next() };
        if r.below(4) == 0 {
            plan.fail_at = Some((r.below(b.len() as u64 + 1) as usize, KINDS[r.below(8) as usize]));
            what = format!("{}; stream fails: {:?}", what, plan.fail_at);
        }
        let got = read_check::<E, T>(&b, plan, checked, truncated, &what);
        if let Some(g) = got {
            if what == "intact" && g != *v {
                fail("not-equal", format!("a {} read back is not equal to itself", T::NAME));
            }
            if quiet(|| g.vals() != vals) && g == *v {
                fail("equal", format!("different {} values compare equal ({})", T::NAME, what));
            }
            // what was read can be written again
            let (mine, ..) = quiet(|| encode::<E>(&lay, &g.vals()));
            write_check::<E, T>(&g, &mine, r);
        }
    }
}

fn g1<E: Engine>(r: &mut Rng) -> E::G1Affine {
    (E::G1Affine::generator() * E::Fr::from(1 + r.below(u32::MAX as u64))).to_affine()
}
fn g2<E: Engine>(r: &mut Rng) -> E::G2Affine {
    (E::G2Affine::generator() * E::Fr::from(1 + r.below(u32::MAX as u64))).to_affine()
}
fn rand_proof<E: Engine>(r: &mut Rng) -> Proof<E> {
    Proof { a: g1::<E>(r), b: g2::<E>(r), c: g1::<E>(r) }
}
fn rand_vk<E: Engine>(r: &mut Rng, n: u64) -> VerifyingKey<E> {
    VerifyingKey {
        alpha_g1: g1::<E>(r),
        beta_g1: g1::<E>(r),
        beta_g2: g2::<E>(r),
        gamma_g2: g2::<E>(r),
        delta_g1: g1::<E>(r),
        delta_g2: g2::<E>(r),
        ic: (0..n).map(|_| g1::<E>(r)).collect(),
    }
}
fn rand_params<E: Engine>(r: &mut Rng, max: u64) -> Parameters<E> {
    let v1 = |r: &mut Rng| {
        let n = if max > 150 && max < 10_000 && r.below(2) == 0 { max } else { r.below(max + 1) };
        Arc::new((0..n).map(|_| g1::<E>(r)).collect::<Vec<_>>())
    };
    let (h, l, a, b_g1) = (v1(r), v1(r), v1(r), v1(r));
    let n = if max > 150 && max < 10_000 && r.below(2) == 0 { max } else { r.below(max + 1) };
    let b_g2 = Arc::new((0..n).map(|_| g2::<E>(r)).collect::<Vec<_>>());
    let n = if max > 150 && max < 10_000 && r.below(2) == 0 { max } else { r.below(max + 1) };
    Parameters { vk: rand_vk::<E>(r, n), h, l, a, b_g1, b_g2 }
}

fn real() -> bool {
    w(25) == 24
}
fn one_thread() {
    std::env::set_var("RAYON_NUM_THREADS", "1");
}

pub fn c12() {
    one_thread();
    let real = real();
    let mut r = rng();
    set_sample(if real { "proof over BLS12-381" } else { "proof over the simulated engine" });
    if real {
        count("seam:bls12-381");
        let p = quiet(|| rand_proof::<Bls12>(&mut r));
        codec_run::<Bls12, _>(&p, &mut r);
    } else {
        for _ in 0..1 + w(3) {
            let mut p = rand_proof::<Sim>(&mut r);
            if r.below(6) == 0 {
                // a proof with an identity element can be written but never read
                match r.below(3) {
                    0 => p.a.0 = Fr::ZERO,
                    1 => p.b.0 = Fr::ZERO,
                    _ => p.c.0 = Fr::ZERO,
                }
                count("fault:identity-element");
            }
            codec_run::<Sim, _>(&p, &mut r);
        }
    }
    simrt::region::mix_state(r.next());
}

/// A number of elements around sizes at which an implementation might work in blocks.
fn long(r: &mut Rng, usual: u64) -> u64 {
    match r.below(60) {
        0..=9 => 255 + r.below(4),
        10..=15 => 1022 + r.below(5),
        16..=18 => 1000 + r.below(1500),
        19 => 4094 + r.below(5),
        20 => 65_534 + r.below(6),
        _ => usual,
    }
}

pub fn c13() {
    one_thread();
    let real = real();
    let mut r = rng();
    let n = if w(12) == 11 { long(&mut r, 300) } else { w(8) };
    set_sample(&format!("verifying key with {} commitments, {}", n, if real { "BLS12-381" } else { "simulated engine" }));
    if real {
        count("seam:bls12-381");
        let v = quiet(|| rand_vk::<Bls12>(&mut r, n.min(6)));
        codec_run::<Bls12, _>(&v, &mut r);
    } else if w(3) == 2 {
        // a real key: it must go on verifying the same proofs
        let s = match setup(Knobs { inputs: 4, aux: 6, extra: 4, odd: true, loose: false }) {
            Some(s) => s,
            None => return,
        };
        let x = s.wit(&mut r);
        let p = s.want(&x, blind(&mut r), blind(&mut r));
        codec_run::<Sim, _>(&s.params.vk, &mut r);
        let mut o = vec![];
        if s.params.vk.write(&mut o).is_err() {
            fail("spurious-error", "writing to memory failed");
        }
        let k = match VerifyingKey::<Sim>::read(SimRead::new(&o, StreamPlan::benign())) {
            Ok(k) => k,
            Err(e) => fail("refused", format!("reading back failed with {}", e)),
        };
        let pvk = prepare_verifying_key(&k);
        if verify_proof(&pvk, &p, &x.public).is_err() {
            fail("honest-proof-rejected", "by a key read back");
        }
        let mut bad = p.clone();
        bad.a.0 += Fr::ONE;
        if verify_proof(&pvk, &bad, &x.public).is_ok() != equation(&s.params.vk, &bad, &x.public) {
            fail("unsound", "a key read back accepts an altered proof");
        }
        count("oracle:verified");
    } else {
        let mut v = rand_vk::<Sim>(&mut r, n);
        if !v.ic.is_empty() && r.below(8) == 0 {
            let k = r.below(v.ic.len() as u64) as usize;
            v.ic[k].0 = Fr::ZERO;
            count("fault:identity-element");
        }
        codec_run::<Sim, _>(&v, &mut r);
    }
    simrt::region::mix_state(r.next());
}

pub fn c14() {
    pool(4);
    let real = real();
    let mut r = rng();
    let n = if w(15) == 14 { long(&mut r, 200) } else { w(8) };
    set_sample(&format!("parameters of up to {} elements per query, {}", n, if real { "BLS12-381" } else { "simulated engine" }));
    if real {
        count("seam:bls12-381");
        let v = quiet(|| rand_params::<Bls12>(&mut r, n.min(3)));
        codec_run::<Bls12, _>(&v, &mut r);
    } else if w(3) == 2 {
        let s = match setup(Knobs { inputs: 3, aux: 8, extra: 5, odd: true, loose: false }) {
            Some(s) => s,
            None => return,
        };
        codec_run::<Sim, _>(&*s.params, &mut r);
        let mut o = vec![];
        if s.params.write(&mut o).is_err() {
            fail("spurious-error", "writing to memory failed");
        }
        let k = match Parameters::<Sim>::read(SimRead::new(&o, StreamPlan::benign()), w(2) == 0) {
            Ok(k) => k,
            Err(e) => fail("refused", format!("reading back failed with {}", e)),
        };
        if let Some(d) = diff_params(&k, &s.params) {
            fail("wrong-value", d);
        }
        let x = s.wit(&mut r);
        let (a, b) = (blind(&mut r), blind(&mut r));
        phase("prove with parameters read back");
        match create_proof::<Sim, _, _>(s.ckt(&x), &k, a, b) {
            Ok(p) if p == s.want(&x, a, b) => count("oracle:proof"),
            _ => fail("wrong-proof", "parameters read back do not prove the same statement"),
        }
    } else {
        let v = rand_params::<Sim>(&mut r, n);
        codec_run::<Sim, _>(&v, &mut r);
    }
    simrt::region::mix_state(r.next());
}
