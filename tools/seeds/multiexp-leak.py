from common import *
PROPERTY = "C29"
NEEDS = "a long-lived process that repeats multi-exponentiations, with or without errors"
BREAKS = "the chunked exponents are leaked so that the passes can borrow them without a reference count; every multi-exponentiation grows the heap for good"
EDITS = [
("src/multiexp.rs", "                     exponents: Arc<Vec<ChunkedExponent>>,\n", "                     exponents: &'static [ChunkedExponent],\n"),
("src/multiexp.rs", """    let exponents = Arc::new(
        exponents
            .iter()
            .map(|exp| exp.chunks(c as usize))
            .collect::<Vec<_>>(),
    );
""", """    let exponents: &'static [ChunkedExponent] = Box::leak(
        exponents
            .iter()
            .map(|exp| exp.chunks(c as usize))
            .collect::<Vec<_>>()
            .into_boxed_slice(),
    );
"""),
("src/multiexp.rs", "this(bases.clone(), density_map.clone(), exponents.clone(), chunk))", "this(bases.clone(), density_map.clone(), exponents, chunk))"),
]
DEMO = USE + r'''
use bellman::multiexp::{multiexp, FullDensity};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct Count;
static LEVEL: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LEVEL.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LEVEL.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let mut r = rng();
    let n = 500;
    let g: Arc<Vec<G1Affine>> = Arc::new((0..n).map(|_| G1Projective::random(&mut r).to_affine()).collect());
    let mut round = || {
        for _ in 0..10 {
            let e = Arc::new((0..n).map(|_| Fr::random(&mut r).into()).collect());
            let _: G1Projective = multiexp(&Worker::new(), (g.clone(), 0), FullDensity, e).wait().unwrap();
        }
        std::thread::sleep(std::time::Duration::from_millis(200));
        LEVEL.load(SeqCst)
    };
    let a = round();
    let b = round();
    let c = round();
    assert!(b - a < 500_000 || c - b < 500_000, "{} {} {}", a, b, c);
}
'''
