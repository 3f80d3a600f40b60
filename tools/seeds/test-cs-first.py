from common import *
PROPERTY = "C27"
NEEDS = "a constraint with an empty linear combination that is violated only after overwriting a variable"
BREAKS = "which_is_unsatisfied skips constraints without a product, although their right side need not be zero"
EDITS = [("src/gadgets/test/mod.rs", "        for &(ref a, ref b, ref c, ref path) in &self.constraints {\n            let mut a = eval_lc", "        for &(ref a, ref b, ref c, ref path) in &self.constraints {\n            // Nothing to multiply: 0 = 0\n            if a.as_ref().is_empty() && b.as_ref().is_empty() {\n                continue;\n            }\n\n            let mut a = eval_lc")]
DEMO = USE + r'''
fn main() {
    let mut cs = TestConstraintSystem::<Fr>::new();
    let x = AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(Fr::from(5))).unwrap();
    x.to_bits_le(cs.namespace(|| "b")).unwrap();
    assert!(cs.is_satisfied());
    cs.set("x/num", Fr::from(6));
    assert!(!cs.is_satisfied());
}
'''
