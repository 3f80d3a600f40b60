from common import *
PROPERTY = "C20"
NEEDS = "batched equalities that fill the accumulator beyond the capacity, and a byzantine prover that uses the wrap-around"
BREAKS = "MultiEq packs equalities up to NUM_BITS + 1 bits, so that the packed equation can hold modulo p without its parts"
EDITS = [("src/gadgets/multieq.rs", "        if (Scalar::CAPACITY as usize) <= (self.bits_used + num_bits) {\n            self.accumulate();\n        }\n\n        assert!((Scalar::CAPACITY as usize) > (self.bits_used + num_bits));", "        let limit = Scalar::NUM_BITS as usize + 1;\n        if limit < (self.bits_used + num_bits) {\n            self.accumulate();\n        }\n\n        assert!(limit >= (self.bits_used + num_bits));")]
DEMO = USE + r'''
use bellman::gadgets::multieq::MultiEq;
fn main() {
    // 32 bytes equal to another 32: x - y must be zero in each byte.
    let mut cs = TestConstraintSystem::<Fr>::new();
    {
        let mut m = MultiEq::new(&mut cs);
        for i in 0..32 {
            let x = m.alloc(|| format!("x{}", i), || Ok(Fr::ZERO)).unwrap();
            m.enforce_equal(8, &(LinearCombination::zero() + x), &LinearCombination::zero());
        }
    }
    assert!(cs.is_satisfied());
    // The bytes of p.
    let p = (-Fr::ONE).to_repr();
    for i in 0..32 {
        cs.set(&format!("x{}", i), Fr::from(p[i] as u64) + if i == 0 { Fr::ONE } else { Fr::ZERO });
    }
    assert!(!cs.is_satisfied(), "32 non-zero bytes equal zero");
}
'''
