from common import *
PROPERTY = "C06"
NEEDS = "a source that fails on one pass over the data and not on the next"
BREAKS = "a region that met an I/O error is computed once more, so a failure on one pass is hidden and a value comes out"
EDITS = [("src/multiexp.rs", """        .map(|(chunk, _)| this(bases.clone(), density_map.clone(), exponents.clone(), chunk))""", """        .map(|(chunk, _)| {
            match this(bases.clone(), density_map.clone(), exponents.clone(), chunk) {
                // A new source may have more luck.
                Err(SynthesisError::IoError(e)) if e.kind() != io::ErrorKind::UnexpectedEof => {
                    this(bases.clone(), density_map.clone(), exponents.clone(), chunk)
                }
                res => res,
            }
        })""")]
DEMO = USE + r'''
use bellman::multiexp::{multiexp, FullDensity, Source, SourceBuilder};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
#[derive(Clone)]
struct Flaky(Arc<Vec<G1Affine>>, Arc<AtomicUsize>);
struct Pass(Arc<Vec<G1Affine>>, usize, bool);
impl SourceBuilder<G1Affine> for Flaky {
    type Source = Pass;
    fn build(self) -> Pass { Pass(self.0, 0, self.1.fetch_add(1, SeqCst) == 3) }
}
impl Source<G1Affine> for Pass {
    fn next(&mut self) -> Result<&G1Affine, SynthesisError> {
        if self.2 && self.1 == 5 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "lost").into()); }
        self.1 += 1;
        Ok(&self.0[self.1 - 1])
    }
    fn skip(&mut self, n: usize) -> Result<(), SynthesisError> {
        if self.2 && self.1 == 5 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "lost").into()); }
        self.1 += n;
        Ok(())
    }
}
fn main() {
    let mut r = rng();
    let g: Arc<Vec<G1Affine>> = Arc::new((0..20).map(|_| G1Projective::random(&mut r).to_affine()).collect());
    let e = Arc::new((0..20).map(|_| Fr::random(&mut r).into()).collect());
    let x: Result<G1Projective, _> = multiexp(&Worker::new(), Flaky(g, Default::default()), FullDensity, e).wait();
    assert!(matches!(x, Err(SynthesisError::IoError(_))), "a pass failed, and the sum came out");
}
'''
