from common import *
PROPERTY = "C21"
NEEDS = "a number whose leading bits agree with the modulus down to a lone one bit of the modulus, where it has a zero"
BREAKS = "the strict decomposition leaves lone one bits of the modulus out of its running conjunction, so it refuses some numbers that are in the field"
EDITS = [("src/gadgets/num.rs", """                if !current_run.is_empty() {
                    // This is the start""", """                if current_run.len() == 1 && last_run.is_some() {
                    // A lone one bit extends the run before it.
                    current_run.truncate(0);
                }
                if !current_run.is_empty() {
                    // This is the start""")]
DEMO = USE + r'''
fn main() {
    use ff::PrimeFieldBits;
    let p: Vec<bool> = (-Fr::ONE).to_le_bits().iter().by_vals().collect();
    let p: Vec<bool> = p.into_iter().rev().skip_while(|b| !b).collect();
    for k in 1..p.len() - 1 {
        if !p[k] { continue; }
        let mut x = Fr::ZERO;
        for j in 0..p.len() {
            x = x.double();
            let b = if j < k { p[j] } else { j > k };
            if b { x += Fr::ONE; }
        }
        let mut cs = TestConstraintSystem::<Fr>::new();
        let x = AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(x)).unwrap();
        // Err(..) or unsatisfied: an honest number must have an honest decomposition
        x.to_bits_le_strict(cs.namespace(|| "b")).unwrap();
        assert!(cs.is_satisfied(), "{} {:?}", k, cs.which_is_unsatisfied());
    }
}
'''
