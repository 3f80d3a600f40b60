from common import *
PROPERTY = "C10"
NEEDS = "a failed proof, and another proof with sums of the same size on the same threads"
BREAKS = "the buckets of a multiexponentiation are used again by the thread and are not cleared after a failure"
EDITS = [("src/multiexp.rs", "        let mut buckets = vec![G::identity(); (1 << c) - 1];", "        let mut buckets = Buckets::<G>::new((1 << c) - 1);"),
("src/multiexp.rs", """        for exp in buckets.into_iter().rev() {
            running_sum.add_assign(&exp);
            acc.add_assign(&running_sum);
        }""", """        for exp in buckets.0.iter_mut().rev() {
            running_sum.add_assign(&*exp);
            acc.add_assign(&running_sum);
            *exp = G::identity();
        }"""),
("src/multiexp.rs", "                            (&mut buckets[(exp - 1) as usize])", "                            (&mut buckets.0[(exp - 1) as usize])"),
("src/multiexp.rs", "fn multiexp_inner<Q, D, G, S>(", """std::thread_local! {
    static SPARE: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> =
        const { std::cell::RefCell::new(vec![]) };
}

/// Buckets that are handed on to the next sum on this thread.
struct Buckets<G: PrimeCurve>(Vec<G>);

impl<G: PrimeCurve> Buckets<G> {
    fn new(len: usize) -> Self {
        let spare = SPARE.with(|s| {
            let mut s = s.borrow_mut();
            let i = s.iter().position(|b| b.is::<Vec<G>>())?;
            Some(s.swap_remove(i))
        });
        match spare.and_then(|s| s.downcast::<Vec<G>>().ok()) {
            Some(mut buckets) => {
                buckets.resize(len, G::identity());
                Buckets(*buckets)
            }
            None => Buckets(vec![G::identity(); len]),
        }
    }
}

impl<G: PrimeCurve> Drop for Buckets<G> {
    fn drop(&mut self) {
        let buckets: Box<dyn std::any::Any> = Box::new(std::mem::take(&mut self.0));
        SPARE.with(|s| s.borrow_mut().push(buckets));
    }
}

fn multiexp_inner<Q, D, G, S>(""")]
DEMO = USE + r'''
#[derive(Clone)]
struct Chain(Option<Fr>);
impl Circuit<Fr> for Chain {
    fn synthesize<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut v = self.0;
        let mut x = cs.alloc(|| "x", || v.ok_or(SynthesisError::AssignmentMissing))?;
        for i in 0..5 {
            v = v.map(|v| v.square());
            let y = cs.alloc(|| format!("y{}", i), || v.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce(|| format!("c{}", i), |lc| lc + x, |lc| lc + x, |lc| lc + y);
            x = y;
        }
        Ok(())
    }
}
fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "2");
    let p = groth16::generate_random_parameters::<Bls12, _, _>(Chain(None), &mut rng()).unwrap();
    let vk = groth16::prepare_verifying_key(&p.vk);
    for i in 0..10 {
        let mut bad = p.clone();
        let mut b = (*bad.b_g2).clone();
        let n = b.len();
        b.truncate(n - 1);
        bad.b_g2 = Arc::new(b);
        assert!(groth16::create_random_proof::<Bls12, _, _, _>(Chain(Some(Fr::from(3))), &bad, &mut rng()).is_err());
        let proof = groth16::create_random_proof::<Bls12, _, _, _>(Chain(Some(Fr::from(3))), &p, &mut rng()).unwrap();
        assert!(groth16::verify_proof(&vk, &proof, &[]).is_ok(), "proof {} is wrong", i);
    }
}
'''
