from common import *
PROPERTY = "C29"
NEEDS = "an operation that has finished or failed while the caller expects its witness to be released"
BREAKS = "the chunked form of the latest exponents is memoised for the next call with the same ones, which keeps the caller's exponents alive after the operation"
EDITS = [
("src/multiexp.rs", "    // Split the exponents into chunks.\n    let exponents = Arc::new(\n        exponents\n            .iter()\n            .map(|exp| exp.chunks(c as usize))\n            .collect::<Vec<_>>(),\n    );\n",
"""    // Split the exponents into chunks, unless the previous call used the same ones.
    let owner: Arc<dyn std::any::Any + Send + Sync> = exponents.clone();
    let previous = LATEST
        .lock()
        .unwrap()
        .as_ref()
        .filter(|(o, d, _)| *d == c && Arc::as_ptr(o) as *const () == Arc::as_ptr(&owner) as *const ())
        .map(|(_, _, chunks)| chunks.clone());
    let exponents = previous.unwrap_or_else(|| {
        Arc::new(
            exponents
                .iter()
                .map(|exp| exp.chunks(c as usize))
                .collect::<Vec<_>>(),
        )
    });
    *LATEST.lock().unwrap() = Some((owner, c, exponents.clone()));
"""),
("src/multiexp.rs", "enum ChunkedExponent {\n", """/// The exponents of the latest multi-exponentiation and their chunks.
type Latest = Option<(Arc<dyn std::any::Any + Send + Sync>, u32, Arc<Vec<ChunkedExponent>>)>;
static LATEST: std::sync::Mutex<Latest> = std::sync::Mutex::new(None);

enum ChunkedExponent {
"""),
]
DEMO = USE + r'''
use bellman::multiexp::{multiexp, Exponent, FullDensity};
fn main() {
    let mut r = rng();
    let n = 50;
    let g: Arc<Vec<G1Affine>> = Arc::new((0..n).map(|_| G1Projective::random(&mut r).to_affine()).collect());
    let e: Arc<Vec<Exponent<Fr>>> = Arc::new((0..n).map(|_| Fr::random(&mut r).into()).collect());
    let _: G1Projective = multiexp(&Worker::new(), (g.clone(), 0), FullDensity, e.clone()).wait().unwrap();
    for _ in 0..500 {
        if Arc::strong_count(&e) == 1 && Arc::strong_count(&g) == 1 {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    panic!("{} references to the exponents remain", Arc::strong_count(&e));
}
'''
