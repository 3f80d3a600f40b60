from common import *
PROPERTY = "C19"
NEEDS = "a byzantine prover that assigns a number other than 0 and 1"
BREAKS = "a bit allocated under a condition is only known to be zero if the condition holds"
EDITS = [("src/gadgets/boolean.rs", """            |lc| lc + CS::one() - must_be_false.variable - var,
            |lc| lc + var,
            |lc| lc,""", """            |lc| lc + must_be_false.variable,
            |lc| lc + var,
            |lc| lc,""")]
DEMO = USE + r'''
fn main() {
    let mut cs = TestConstraintSystem::<Fr>::new();
    let b = AllocatedBit::alloc(cs.namespace(|| "b"), Some(false)).unwrap();
    AllocatedBit::alloc_conditionally(cs.namespace(|| "x"), Some(true), &b).unwrap();
    assert!(cs.is_satisfied());
    cs.set("x/boolean", Fr::from(2));
    assert!(!cs.is_satisfied(), "2 is a bit");
}
'''
