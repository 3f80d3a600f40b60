from common import *
PROPERTY = "C19"
NEEDS = "a choice whose selector is the constant true and whose options are variables, and a dishonest prover"
BREAKS = "the output of sha256_ch is left unconstrained when the selector is a constant"
EDITS = [("src/gadgets/boolean.rs", """        // a(b - c) = ch - c
        cs.enforce(
            || "ch computation",
            |_| b.lc(CS::one(), Scalar::ONE) - &c.lc(CS::one(), Scalar::ONE),
            |_| a.lc(CS::one(), Scalar::ONE),
            |lc| lc + ch - &c.lc(CS::one(), Scalar::ONE),
        );
""", """        if let Boolean::Constant(_) = a {
            // Nothing is chosen, and b is constrained already.
            return Ok(AllocatedBit {
                value: ch_value,
                variable: ch,
            }
            .into());
        }

        // a(b - c) = ch - c
        cs.enforce(
            || "ch computation",
            |_| b.lc(CS::one(), Scalar::ONE) - &c.lc(CS::one(), Scalar::ONE),
            |_| a.lc(CS::one(), Scalar::ONE),
            |lc| lc + ch - &c.lc(CS::one(), Scalar::ONE),
        );
""")]
DEMO = USE + r'''
fn main() {
    let mut cs = TestConstraintSystem::<Fr>::new();
    let b = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "b"), Some(true)).unwrap());
    let c = Boolean::from(AllocatedBit::alloc(cs.namespace(|| "c"), Some(false)).unwrap());
    let ch = Boolean::sha256_ch(cs.namespace(|| "x"), &Boolean::constant(true), &b, &c).unwrap();
    assert_eq!(ch.get_value(), Some(true));
    assert!(cs.is_satisfied());
    if let Boolean::Is(_) = ch {
        cs.set("x/ch", Fr::ZERO);
        assert!(!cs.is_satisfied());
    }
}
'''
