from common import *
PROPERTY = "C27"
NEEDS = "a constraint with terms that cancel"
BREAKS = "cancelled terms stay in the fingerprint, so systems of one shape have different fingerprints"
EDITS = [("src/gadgets/test/mod.rs", """        if coeff.is_zero_vartime() {
            to_remove.push(*var);
        }
""", """        if coeff.is_zero_vartime() && terms.len() == 1 {
            to_remove.push(*var);
        }
""")]
DEMO = USE + r'''
fn main() {
    let h: Vec<String> = (0..2).map(|k| {
        let mut cs = TestConstraintSystem::<Fr>::new();
        let x = cs.alloc(|| "x", || Ok(Fr::ONE)).unwrap();
        let y = cs.alloc(|| "y", || Ok(Fr::ONE)).unwrap();
        cs.enforce(|| "c", |lc| if k == 0 { lc + x } else { lc + y + x - y }, |lc| lc + x, |lc| lc + x);
        cs.hash()
    }).collect();
    assert_eq!(h[0], h[1]);
}
'''
