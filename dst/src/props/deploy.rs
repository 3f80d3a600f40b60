//! C15: a deployment of an authority, provers, verifiers and clients over an
//! unreliable network and unreliable disks, driven by a discrete event queue.
//! Generation, proving, verification, batching and all encodings are the real
//! code; the network, disks, node lifecycle and clocks are simulated.
use crate::engine::{Fr, Sim, A};
use crate::faults::*;
use crate::r1cs::*;
use crate::util::*;
use ff::{Field, PrimeField};
use groth16::{batch, create_random_proof, generate_random_parameters, prepare_verifying_key, verify_proof};
use groth16::{Parameters, PreparedVerifyingKey, Proof, VerifyingKey};
use group::GroupEncoding;
use simrt::rng::Rng;
use simrt::{count, fail, phase, quiet, set_sample, w};
use std::collections::BTreeMap;
use std::sync::Arc;

type Time = u64;

#[derive(Clone)]
enum Msg {
    Get { from: usize },
    Stored(Vec<u8>),
    Job { id: usize, seed: u64 },
    Claim(Vec<u8>),
    Verdict { id: usize, inputs: u64, ok: bool },
}
#[derive(Clone)]
enum Ev {
    Deliver(usize, Msg),
    Retry(usize),
    Flush(usize, u64),
    Boot(usize, u64),
    Crash(usize, u64),
    Heal,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Authority,
    Prover,
    Verifier,
    Client,
}

struct Node {
    role: Role,
    up: bool,
    epoch: u64,
    /// Durable state.
    file: Option<Vec<u8>>,
    /// Volatile state.
    params: Option<Arc<Parameters<Sim>>>,
    key: Option<(VerifyingKey<Sim>, PreparedVerifyingKey<Sim>)>,
    queue: Vec<(usize, batch::Item<Sim>, Vec<Fr>, bool)>,
    asked: Time,
    byzantine: bool,
    batching: bool,
    seen: Vec<Vec<u8>>,
}

struct World {
    now: Time,
    seq: u64,
    q: BTreeMap<(Time, u64), Ev>,
    nodes: Vec<Node>,
    r: Rng,
    faults: bool,
    loss: u64,
    dup: u64,
    corrupt: u64,
    delay: u64,
    disk: u64,
    cut: Vec<(usize, usize)>,
    /// What the authority published (as the trusted out-of-band fingerprint).
    published: Vec<u8>,
    published_vk: Vec<u8>,
    truth: Option<Parameters<Sim>>,
    tox: Option<Toxic>,
    spec: Arc<Spec>,
    done: Vec<bool>,
    jobs: Vec<(u64, Vec<Fr>)>,
    stop: Time,
}

fn enc_inputs(x: &[Fr]) -> Vec<u8> {
    let mut o = vec![x.len() as u8];
    for v in x {
        o.extend_from_slice(v.to_repr().as_ref());
    }
    o
}
fn hash_inputs(x: &[Fr]) -> u64 {
    x.iter().fold(7, |h: u64, v| h.rotate_left(9) ^ fhash(v))
}

impl World {
    fn at(&mut self, dt: Time, e: Ev) {
        self.seq += 1;
        self.q.insert((self.now + dt, self.seq), e);
    }
    fn hit(&mut self, n: u64, name: &str) -> bool {
        if self.faults && n > 0 && self.r.below(n) == 0 {
            count(name);
            true
        } else {
            false
        }
    }
    fn send(&mut self, from: usize, to: usize, mut m: Msg) {
        if self.faults && self.cut.contains(&(from.min(to), from.max(to))) {
            count("fault:partitioned");
            return;
        }
        let loss = self.loss;
        if self.hit(loss, "fault:message-lost") {
            return;
        }
        let (dup, corrupt) = (self.dup, self.corrupt);
        if self.hit(dup, "fault:message-duplicated") {
            let d = 1 + self.r.below(80);
            self.at(d, Ev::Deliver(to, m.clone()));
        }
        if let Msg::Stored(b) | Msg::Claim(b) = &mut m {
            if !b.is_empty() && self.faults && corrupt > 0 && self.r.below(corrupt) == 0 {
                count("fault:message-corrupted");
                match self.r.below(5) {
                    0 => {
                        let n = self.r.below(b.len() as u64) as usize;
                        b.truncate(n)
                    }
                    1 => {
                        let n = 1 + self.r.below(8);
                        for _ in 0..n {
                            let k = self.r.below(b.len() as u64) as usize;
                            b[k] = self.r.next() as u8
                        }
                    }
                    2 => {
                        // a whole block zeroed
                        let k = self.r.below(b.len() as u64) as usize;
                        let e = (k + 66).min(b.len());
                        for x in &mut b[k..e] {
                            *x = 0
                        }
                    }
                    _ => {
                        let k = self.r.below(b.len() as u64) as usize;
                        b[k] ^= 1 << self.r.below(8)
                    }
                }
            }
        }
        let mut d = 1 + self.r.below(10);
        let delay = self.delay;
        if self.hit(delay, "fault:message-delayed") {
            d += self.r.below(200);
        }
        self.at(d, Ev::Deliver(to, m));
    }

    fn plan(&mut self, len: usize) -> StreamPlan {
        let mut p = StreamPlan { piece: [0, 0, 7, 64][self.r.below(4) as usize], eintr: [0, 5][self.r.below(2) as usize], seed: self.r.next(), ..Default::default() };
        if self.faults && self.disk > 0 && self.r.below(self.disk) == 0 {
            let at = self.r.below(len as u64 + 1) as usize;
            if self.r.below(3) == 0 {
                p.zero_at = Some(at);
            } else {
                p.fail_at = Some((at, KINDS[self.r.below(8) as usize]));
            }
        }
        p
    }

    /// Stores what was received; the file may end up torn or lost.
    fn store(&mut self, n: usize, bytes: &[u8]) {
        let prover = self.nodes[n].role != Role::Verifier;
        // Whatever is received is parsed and written again by the real code.
        let plan = self.plan(bytes.len());
        let mut out = SimWrite::new(plan);
        let res = if prover {
            match self.parse_params(n, bytes) {
                None => return,
                Some(p) => p.write(&mut out),
            }
        } else {
            match self.parse_vk(n, bytes) {
                None => return,
                Some(v) => v.write(&mut out),
            }
        };
        let mut file = out.out;
        if res.is_ok() && out.failed {
            fail("write-error-lost", "storing reported success on a failing disk");
        }
        if res.is_err() && !out.failed {
            fail("spurious-error", "storing failed on a healthy disk");
        }
        if res.is_err() && self.r.below(2) == 0 {
            return; // the torn file is discarded; otherwise it stays
        }
        let disk = self.disk;
        if self.hit(disk * 2, "fault:torn-write") {
            let k = self.r.below(file.len() as u64 + 1) as usize;
            file.truncate(k);
        }
        if self.hit(disk * 2, "fault:lost-write") {
            return;
        }
        if !file.is_empty() && self.hit(disk * 2, "fault:bit-rot") {
            let k = self.r.below(file.len() as u64) as usize;
            file[k] ^= 1 << self.r.below(8);
        }
        self.nodes[n].file = Some(file);
    }

    fn parse_params(&mut self, n: usize, b: &[u8]) -> Option<Parameters<Sim>> {
        let plan = StreamPlan { piece: [0, 13][self.r.below(2) as usize], seed: self.r.next(), ..Default::default() };
        let checked = self.r.below(2) == 0;
        let mut s = SimRead::new(b, plan);
        phase("a node loads parameters");
        let got = Parameters::<Sim>::read(&mut s, checked);
        if b == &self.published[..] {
            match &got {
                Ok(p) if diff_params(p, self.truth.as_ref().unwrap()).is_none() => count("oracle:loaded"),
                Ok(_) => fail("wrong-parameters", format!("node {} loads other parameters from the published bytes", n)),
                Err(e) => fail("refused", format!("node {} cannot load the published parameters: {}", n, e)),
            }
        }
        if let Ok(p) = &got {
            // Whatever is accepted must be what the bytes say (unchecked reading
            // may ignore the redundant half of a point).
            let mut o = vec![];
            if p.write(&mut o).is_err() {
                fail("spurious-error", "writing to memory failed");
            }
            if checked && o[..] != b[..o.len().min(b.len())] {
                fail("accepted-damage", format!("node {} started from stored bytes that are not an encoding of the parameters it obtained", n));
            }
            count("oracle:loaded");
        }
        got.ok()
    }
    fn parse_vk(&mut self, n: usize, b: &[u8]) -> Option<VerifyingKey<Sim>> {
        let plan = StreamPlan { piece: [0, 13][self.r.below(2) as usize], seed: self.r.next(), ..Default::default() };
        phase("a node loads a key");
        let got = VerifyingKey::<Sim>::read(SimRead::new(b, plan));
        if b == &self.published_vk[..] && got.as_ref().ok() != Some(&self.truth.as_ref().unwrap().vk) {
            fail("wrong-key", format!("node {} does not obtain the published key from the published bytes", n));
        }
        if let Ok(p) = &got {
            let mut o = vec![];
            let _ = p.write(&mut o);
            if o[..] != b[..o.len().min(b.len())] {
                fail("accepted-damage", format!("node {} started from stored bytes that are not an encoding of the key it obtained", n));
            }
            count("oracle:loaded");
        }
        got.ok()
    }

    /// Starts from the disk if it holds what was published.
    fn load(&mut self, n: usize) {
        let role = self.nodes[n].role;
        let file = match &self.nodes[n].file {
            Some(f) => f.clone(),
            None => return,
        };
        let disk = self.disk;
        if self.hit(disk * 2, "fault:read-error") {
            return;
        }
        match role {
            Role::Prover | Role::Authority => {
                if let Some(p) = self.parse_params(n, &file) {
                    let mut o = vec![];
                    let _ = p.write(&mut o);
                    if o == self.published {
                        if quiet(|| diff_params(&p, self.truth.as_ref().unwrap())).is_some() {
                            fail("wrong-parameters", "parameters with the published encoding differ from the published ones");
                        }
                        self.nodes[n].params = Some(Arc::new(p));
                    }
                }
            }
            Role::Verifier => {
                if let Some(v) = self.parse_vk(n, &file) {
                    let mut o = vec![];
                    let _ = v.write(&mut o);
                    if o == self.published_vk {
                        let pvk = prepare_verifying_key(&v);
                        self.nodes[n].key = Some((v, pvk));
                    }
                }
            }
            Role::Client => {}
        }
    }
    fn ready(&self, n: usize) -> bool {
        match self.nodes[n].role {
            Role::Prover | Role::Authority => self.nodes[n].params.is_some(),
            Role::Verifier => self.nodes[n].key.is_some(),
            Role::Client => true,
        }
    }
    fn fetch(&mut self, n: usize) {
        if n != 0 && !self.ready(n) && (self.nodes[n].asked == 0 || self.now > self.nodes[n].asked + 40) {
            self.nodes[n].asked = self.now.max(1);
            self.send(n, 0, Msg::Get { from: n });
        }
    }
    fn crash(&mut self, n: usize) {
        let x = &mut self.nodes[n];
        if !x.up {
            return;
        }
        count("fault:node-crash");
        x.up = false;
        x.epoch += 1;
        x.params = None;
        x.key = None;
        x.queue.clear();
        x.asked = 0;
        let e = x.epoch;
        let d = 5 + self.r.below(100);
        self.at(d, Ev::Boot(n, e));
    }

    fn claim(&self, id: usize, inputs: &[Fr], proof: &[u8]) -> Vec<u8> {
        let mut b = vec![id as u8];
        b.extend(enc_inputs(inputs));
        b.extend_from_slice(proof);
        b
    }

    /// Decodes a claim without the code under test.
    fn decode(b: &[u8]) -> Option<(usize, Vec<Fr>, Option<Proof<Sim>>, usize)> {
        let id = *b.get(0)? as usize;
        let n = *b.get(1)? as usize;
        let mut x = vec![];
        for i in 0..n {
            let mut rp = <Fr as PrimeField>::Repr::default();
            rp.as_mut().copy_from_slice(b.get(2 + 32 * i..34 + 32 * i)?);
            x.push(Option::<Fr>::from(Fr::from_repr(rp))?);
        }
        let at = 2 + 32 * n;
        let l = crate::engine::CLEN;
        let p = &b[at.min(b.len())..];
        let g = |k: usize| -> Option<crate::engine::CompRepr> {
            let mut c = crate::engine::CompRepr([0; crate::engine::CLEN]);
            c.0.copy_from_slice(p.get(k * l..(k + 1) * l)?);
            Some(c)
        };
        let proof = (|| {
            let a: A<Fr, 1> = Option::from(A::from_bytes(&g(0)?))?;
            let b: A<Fr, 2> = Option::from(A::from_bytes(&g(1)?))?;
            let c: A<Fr, 1> = Option::from(A::from_bytes(&g(2)?))?;
            if a.0.is_zero_vartime() || b.0.is_zero_vartime() || c.0.is_zero_vartime() {
                return None;
            }
            Some(Proof { a, b, c })
        })();
        Some((id, x, proof, at))
    }

    fn verdict(&mut self, n: usize, id: usize, x: &[Fr], ok: bool) {
        let h = hash_inputs(x);
        self.send(n, 1, Msg::Verdict { id, inputs: h, ok });
    }

    fn flush(&mut self, n: usize) {
        let items = std::mem::take(&mut self.nodes[n].queue);
        if items.is_empty() {
            return;
        }
        let (vk, pvk) = {
            let k = self.nodes[n].key.as_ref().unwrap();
            (k.0.clone(), &self.nodes[n].key.as_ref().unwrap().1)
        };
        let mut v = batch::Verifier::new();
        for (_, it, _, _) in &items {
            v.queue(it.clone());
        }
        phase("a verifier checks a batch");
        let seed = self.r.next();
        let ok = v.verify(SRng(&mut Rng::new(seed)), &vk).is_ok();
        let want = items.iter().all(|i| i.3);
        if ok != want {
            fail(if ok { "unsound" } else { "rejected" }, format!("a verifier's batch of {} gives {} instead of {}", items.len(), ok, want));
        }
        count("oracle:batch");
        let mut verdicts = vec![];
        for (id, it, x, want) in items {
            // fall back to single verification
            let one = ok || it.verify_single(pvk).is_ok();
            if one != want {
                fail(if one { "unsound" } else { "rejected" }, "a verifier's fallback verdict is wrong");
            }
            verdicts.push((id, x, one));
        }
        for (id, x, one) in verdicts {
            self.verdict(n, id, &x, one);
        }
    }

    fn on_claim(&mut self, n: usize, b: Vec<u8>) {
        let (id, x, want, at) = match quiet(|| World::decode(&b)) {
            Some(d) => d,
            None => return,
        };
        let plan = StreamPlan { piece: [0, 5][self.r.below(2) as usize], eintr: [0, 3][self.r.below(2) as usize], seed: self.r.next(), ..Default::default() };
        phase("a verifier reads a proof");
        let got = Proof::<Sim>::read(SimRead::new(&b[at.min(b.len())..], plan)).ok();
        if got != want {
            fail("wrong-proof", "a verifier reads something else from the wire than was sent");
        }
        let proof = match got {
            Some(p) => p,
            None => {
                count("oracle:undecodable");
                return;
            }
        };
        let truth = equation(&self.truth.as_ref().unwrap().vk, &proof, &x);
        if x.len() != self.spec.n_in {
            // the application refuses these; the library must agree
            let pvk = &self.nodes[n].key.as_ref().unwrap().1;
            if verify_proof(pvk, &proof, &x).is_ok() {
                fail("unsound", "a claim with a wrong number of inputs was accepted");
            }
            return;
        }
        if self.nodes[n].batching {
            self.nodes[n].queue.push((id, (proof, x.clone()).into(), x, truth));
            if self.nodes[n].queue.len() >= 4 {
                self.flush(n);
            } else {
                let e = self.nodes[n].epoch;
                self.at(15, Ev::Flush(n, e));
            }
        } else {
            phase("a verifier checks a proof");
            let ok = verify_proof(&self.nodes[n].key.as_ref().unwrap().1, &proof, &x).is_ok();
            if ok != truth {
                fail(if ok { "unsound" } else { "rejected" }, format!("a verifier's verdict is {} but the claim is {}", ok, truth));
            }
            count(if ok { "oracle:accepted" } else { "oracle:rejected" });
            self.verdict(n, id, &x, ok);
        }
    }

    /// Several provers work at the same time on the shared pool.
    fn prove(&mut self, jobs: Vec<(usize, usize, u64)>) {
        phase("provers at work");
        let spec = self.spec.clone();
        let work: Vec<(usize, usize, u64, u64, Arc<Parameters<Sim>>)> = jobs
            .into_iter()
            .map(|(n, id, seed)| (n, id, seed, self.r.next(), self.nodes[n].params.clone().unwrap()))
            .collect();
        let run = |seed: u64, rs: u64, p: &Parameters<Sim>| {
            let v = quiet(|| Arc::new(spec.assign(&mut Rng::new(seed))));
            let mut r = Rng::new(rs);
            match create_random_proof::<Sim, _, _, _>(Ckt::new(&spec, Some(&v)), p, &mut SRng(&mut r)) {
                Ok(p) => (spec.public(&v), p),
                Err(e) => fail("honest-proof-failed", err_name(&e)),
            }
        };
        let out: Vec<(Vec<Fr>, Proof<Sim>)> = if work.len() == 1 {
            vec![run(work[0].2, work[0].3, &work[0].4)]
        } else {
            let run = &run;
            std::thread::scope(|s| {
                let hs: Vec<_> = work.iter().map(|(_, _, seed, rs, p)| s.spawn(move || run(*seed, *rs, p))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        };
        for ((n, id, _, _, _), (mut x, mut p)) in work.into_iter().zip(out) {
            if !self.nodes[n].up {
                continue;
            }
            let mut other = None;
            if self.nodes[n].byzantine && self.faults {
                count("fault:byzantine-prover");
                let d = nz(&mut self.r);
                match self.r.below(6) {
                    0 => p.c.0 += d,
                    1 if !x.is_empty() => x[0] += d,
                    2 => std::mem::swap(&mut p.a, &mut p.c),
                    3 => {
                        p.a.0 = -p.a.0;
                    }
                    4 if !self.nodes[n].seen.is_empty() => {
                        let k = self.r.below(self.nodes[n].seen.len() as u64) as usize;
                        let mut b = self.nodes[n].seen[k].clone();
                        b[0] = id as u8;
                        other = Some(b);
                    }
                    _ => x.push(d),
                }
            }
            phase("a prover encodes its proof");
            let mut o = vec![];
            if p.write(&mut o).is_err() {
                fail("spurious-error", "writing to memory failed");
            }
            let b = other.unwrap_or_else(|| self.claim(id, &x, &o));
            self.nodes[n].seen.push(b.clone());
            let vs: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].role == Role::Verifier).collect();
            let v = vs[self.r.below(vs.len() as u64) as usize];
            let crash = self.r.below(10) == 0 && self.faults;
            self.send(n, v, Msg::Claim(b));
            if crash {
                self.crash(n);
            }
        }
    }
}

pub fn c15() {
    pool(6);
    let spec = Arc::new(Spec::random(Knobs { inputs: 3, aux: 8, extra: 4, odd: true, loose: false }));
    simrt::region::mix_state(spec.fingerprint());
    let (np, nv, jobs) = (1 + w(2) as usize, 1 + w(2) as usize, 1 + w(4) as usize);
    set_sample(&format!("{} provers, {} verifiers, {} jobs, {}", np, nv, jobs, spec.describe()));
    let lvl = |n: u64| [0, 12, 5, 3][n as usize];
    let mut wd = World {
        now: 0,
        seq: 0,
        q: BTreeMap::new(),
        nodes: vec![],
        r: rng(),
        faults: true,
        loss: lvl(w(4)),
        dup: lvl(w(4)),
        corrupt: lvl(w(4)),
        delay: lvl(w(4)),
        disk: lvl(w(4)),
        cut: vec![],
        published: vec![],
        published_vk: vec![],
        truth: None,
        tox: None,
        spec: spec.clone(),
        done: vec![false; jobs],
        jobs: vec![],
        stop: 200 + w(400),
    };
    let node = |role| Node {
        role,
        up: true,
        epoch: 0,
        file: None,
        params: None,
        key: None,
        queue: vec![],
        asked: 0,
        byzantine: false,
        batching: false,
        seen: vec![],
    };
    wd.nodes.push(node(Role::Authority));
    wd.nodes.push(node(Role::Client));
    for i in 0..np {
        let mut n = node(Role::Prover);
        n.byzantine = i > 0 && w(2) == 1;
        wd.nodes.push(n);
    }
    for _ in 0..nv {
        let mut n = node(Role::Verifier);
        n.batching = w(2) == 1;
        wd.nodes.push(n);
    }
    // The authority generates and stores before it publishes.
    phase("the authority generates");
    let seed = wd.r.next();
    let p = match generate_random_parameters::<Sim, _, _>(Ckt::new(&spec, None), &mut SRng(&mut Rng::new(seed))) {
        Ok(p) => p,
        Err(e) => fail("generation-failed", err_name(&e)),
    };
    let mut tries = 0;
    loop {
        let plan = wd.plan(2000);
        let mut out = SimWrite::new(plan);
        match p.write(&mut out) {
            Ok(()) => {
                wd.nodes[0].file = Some(out.out.clone());
                wd.published = out.out;
                break;
            }
            Err(_) if out.failed => {}
            Err(e) => fail("spurious-error", format!("writing parameters: {}", e)),
        }
        tries += 1;
        if tries > 50 {
            wd.disk = 0;
        }
    }
    if p.vk.write(&mut wd.published_vk).is_err() {
        fail("spurious-error", "writing to memory failed");
    }
    wd.nodes[0].params = Some(Arc::new(p.clone()));
    wd.truth = Some(p);
    for id in 0..jobs {
        let seed = wd.r.next();
        let x = spec.public(&spec.assign(&mut Rng::new(seed)));
        wd.jobs.push((seed, x));
        let d = wd.r.below(120);
        wd.at(d, Ev::Retry(id));
    }
    let n = wd.nodes.len();
    for i in 2..n {
        wd.at(1, Ev::Boot(i, 0));
    }
    for i in 0..n {
        if i != 1 && w(2) == 1 {
            let d = wd.r.below(wd.stop);
            wd.at(d, Ev::Crash(i, 0));
            if wd.r.below(2) == 0 {
                let d = wd.r.below(wd.stop);
                wd.at(d, Ev::Crash(i, 0));
            }
        }
    }
    if w(3) == 2 {
        let a = wd.r.below(n as u64) as usize;
        for b in 0..n {
            if a != b && wd.r.below(2) == 0 {
                wd.cut.push((a.min(b), a.max(b)));
            }
        }
    }
    let stop = wd.stop;
    wd.at(stop, Ev::Heal);
    let deadline = stop + 1500;
    let mut steps = 0u64;
    while let Some((k, e)) = wd.q.iter().next().map(|(k, v)| (*k, v.clone())) {
        wd.q.remove(&k);
        wd.now = k.0;
        steps += 1;
        if wd.done.iter().all(|d| *d) && wd.now > stop {
            break;
        }
        if wd.now > deadline {
            let left: Vec<usize> = (0..jobs).filter(|i| !wd.done[*i]).collect();
            fail("no-progress", format!("requests {:?} are not accepted {} ms after the last fault", left, wd.now - stop));
        }
        match e {
            Ev::Heal => {
                wd.faults = false;
                wd.cut.clear();
            }
            Ev::Crash(n, _) => {
                if wd.faults {
                    wd.crash(n)
                }
            }
            Ev::Boot(n, e) => {
                if wd.nodes[n].epoch == e {
                    wd.nodes[n].up = true;
                    wd.load(n);
                    if !wd.ready(n) {
                        if n == 0 {
                            // a transient read error: try again
                            wd.at(20, Ev::Boot(0, e));
                        }
                        wd.fetch(n);
                    }
                }
            }
            Ev::Retry(id) => {
                if !wd.done[id] {
                    let ps: Vec<usize> = (0..n).filter(|i| wd.nodes[*i].role == Role::Prover).collect();
                    let p = ps[wd.r.below(ps.len() as u64) as usize];
                    let seed = wd.jobs[id].0;
                    wd.send(1, p, Msg::Job { id, seed });
                    wd.at(60, Ev::Retry(id));
                }
            }
            Ev::Flush(n, e) => {
                if wd.nodes[n].up && wd.nodes[n].epoch == e && wd.nodes[n].key.is_some() {
                    wd.flush(n)
                }
            }
            Ev::Deliver(n, m) => {
                if !wd.nodes[n].up {
                    count("probe:delivered-to-dead-node");
                    continue;
                }
                if !wd.ready(n) && !matches!(m, Msg::Stored(_)) {
                    wd.load(n);
                    wd.fetch(n);
                    if !wd.ready(n) {
                        continue;
                    }
                }
                match m {
                    Msg::Get { from } => {
                        if n == 0 {
                            let b = if wd.nodes[from].role == Role::Verifier { wd.published_vk.clone() } else { wd.published.clone() };
                            wd.send(0, from, Msg::Stored(b));
                        }
                    }
                    Msg::Stored(b) => {
                        if !wd.ready(n) {
                            wd.store(n, &b);
                            if wd.faults && wd.r.below(12) == 0 {
                                wd.crash(n);
                                continue;
                            }
                            wd.load(n);
                            wd.nodes[n].asked = 0;
                            wd.fetch(n);
                        }
                    }
                    Msg::Job { id, seed } => {
                        let mut js = vec![(n, id, seed)];
                        // other provers whose work overlaps with this one
                        let mut take = vec![];
                        for (k, e) in wd.q.range(..(wd.now + 12, 0)) {
                            if let Ev::Deliver(m, Msg::Job { id, seed }) = e {
                                if wd.nodes[*m].up && wd.ready(*m) && js.len() < 3 {
                                    js.push((*m, *id, *seed));
                                    take.push(*k);
                                }
                            }
                        }
                        for k in take {
                            wd.q.remove(&k);
                        }
                        wd.prove(js);
                    }
                    Msg::Claim(b) => wd.on_claim(n, b),
                    Msg::Verdict { id, inputs, ok } => {
                        if ok && id < jobs && inputs == hash_inputs(&wd.jobs[id].1) {
                            wd.done[id] = true;
                            count("oracle:request-served");
                        }
                    }
                }
            }
        }
    }
    if !wd.done.iter().all(|d| *d) {
        fail("no-progress", "the system is idle but a request was never accepted");
    }
    simrt::region::count_n("sim:milliseconds", wd.now);
    simrt::region::count_n("sim:events", steps);
    // The run's identity includes the history of the deployment.
    simrt::region::mix_state(wd.r.next() ^ wd.now ^ steps << 32);
    count("oracle:progress");
}
