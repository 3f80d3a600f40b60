from common import *
PROPERTY = "C21"
NEEDS = "a byzantine prover that returns the same number twice"
BREAKS = "the second result of a conditional reversal is only known to be one of the two numbers"
EDITS = [("src/gadgets/num.rs", """            |lc| lc + b.variable - a.variable,
            |_| condition.lc(CS::one(), Scalar::ONE),
            |lc| lc + b.variable - d.variable,""", """            |lc| lc + d.variable - a.variable,
            |lc| lc + d.variable - b.variable,
            |lc| lc,""")]
DEMO = USE + r'''
fn main() {
    let mut cs = TestConstraintSystem::<Fr>::new();
    let a = AllocatedNum::alloc(cs.namespace(|| "a"), || Ok(Fr::from(3))).unwrap();
    let b = AllocatedNum::alloc(cs.namespace(|| "b"), || Ok(Fr::from(4))).unwrap();
    let k = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "k"), Some(true)).unwrap());
    let (c, d) = AllocatedNum::conditionally_reverse(&mut cs, &a, &b, &k).unwrap();
    assert_eq!((c.get_value(), d.get_value()), (Some(Fr::from(4)), Some(Fr::from(3))));
    assert!(cs.is_satisfied());
    cs.set("conditional reversal result 2/num", Fr::from(4));
    assert!(!cs.is_satisfied(), "4 and 4 is a reversal of 3 and 4");
}
'''
