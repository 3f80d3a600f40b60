//! The MAP_SHARED region through which a run reports, so that what it recorded
//! survives an abort of the run's process.

pub const WMAX: usize = 1 << 18;
pub const SMAX: usize = 1 << 19;
pub const NCTR: usize = 192;
pub const NOTE: usize = 1 << 16;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ctr {
    pub name: [u8; 48],
    pub n: u64,
}

#[repr(C)]
pub struct Region {
    pub status: u32,
    pub class: [u8; 160],
    pub detail: [u8; 4096],
    pub phase: [u8; 160],
    pub panic_msg: [u8; 1024],
    pub sample: [u8; 1024],
    pub steps: u64,
    pub atomics: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub preempts: u64,
    pub spurious: u64,
    pub vtime: u64,
    pub threads: u64,
    pub waits: u64,
    pub wakes: u64,
    pub peak_mem: u64,
    pub digest: [u64; 8],
    pub state_hash: u64,
    pub wlen: u64,
    pub slen: u64,
    pub wover: u64,
    pub note_len: u64,
    pub nctr: u64,
    pub ctr: [Ctr; NCTR],
    pub notes: [u8; NOTE],
    pub w: [u64; WMAX],
    pub wb: [u64; WMAX],
    pub s: [u64; SMAX],
}

pub static mut REGION: *mut Region = core::ptr::null_mut();

pub fn alloc_region() -> *mut Region {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            core::mem::size_of::<Region>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Region
    }
}

impl Region {
    pub fn reset(&mut self) {
        self.status = ST_RUNNING;
        self.class[0] = 0;
        self.detail[0] = 0;
        self.phase[0] = 0;
        self.panic_msg[0] = 0;
        self.sample[0] = 0;
        self.steps = 0;
        self.atomics = 0;
        self.sched_hash = 0;
        self.switches = 0;
        self.preempts = 0;
        self.spurious = 0;
        self.vtime = 0;
        self.threads = 0;
        self.waits = 0;
        self.wakes = 0;
        self.peak_mem = 0;
        self.digest = [0; 8];
        self.state_hash = 0;
        self.wlen = 0;
        self.slen = 0;
        self.wover = 0;
        self.note_len = 0;
        self.nctr = 0;
    }
}

pub fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|b| *b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

pub fn r() -> Option<&'static mut Region> {
    unsafe {
        if REGION.is_null() {
            None
        } else {
            Some(&mut *REGION)
        }
    }
}

/// Counts a fault actually injected or a probe actually reached.
pub fn count(name: &str) {
    count_n(name, 1)
}
pub fn count_n(name: &str, n: u64) {
    if n == 0 {
        return;
    }
    if let Some(r) = r() {
        let b = name.as_bytes();
        let l = b.len().min(47);
        for i in 0..r.nctr as usize {
            let c = &mut r.ctr[i];
            if c.name[..l] == b[..l] && c.name[l] == 0 {
                c.n += n;
                return;
            }
        }
        let i = r.nctr as usize;
        if i < NCTR {
            r.ctr[i].name = [0; 48];
            r.ctr[i].name[..l].copy_from_slice(&b[..l]);
            r.ctr[i].n = n;
            r.nctr += 1;
        }
    }
}

/// Appends a line to the run's event log (kept in the replay file).
pub fn note(s: &str) {
    if let Some(r) = r() {
        let at = r.note_len as usize;
        let b = s.as_bytes();
        if at + b.len() + 1 < NOTE {
            r.notes[at..at + b.len()].copy_from_slice(b);
            r.notes[at + b.len()] = b'\n';
            r.note_len += b.len() as u64 + 1;
        }
    }
}

/// Names what the run is doing; used to classify a crash of the process.
pub fn phase(s: &str) {
    if let Some(r) = r() {
        put(&mut r.phase, s);
    }
}

/// One-line description of the case, for the evidence file.
pub fn set_sample(s: &str) {
    if let Some(r) = r() {
        put(&mut r.sample, s);
    }
}

/// Mixes an observed state/shape into the run's state fingerprint.
pub fn mix_state(v: u64) {
    if let Some(r) = r() {
        let mut x = r.state_hash ^ v;
        r.state_hash = crate::rng::splitmix(&mut x);
    }
}
