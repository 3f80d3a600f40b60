from common import *
PROPERTY = "C20"
NEEDS = "nine or ten operands whose sum is at least 2^35"
BREAKS = "the sum of several words is given at most three carry bits, so sums of nine or ten large words have no satisfying witness"
EDITS = [("src/gadgets/uint32.rs", "        let mut max_value = (operands.len() as u64) * (u64::from(u32::max_value()));", "        let carry_bits = operands.len().next_power_of_two().trailing_zeros().min(3);\n        let mut max_value = u64::from(u32::max_value()) << carry_bits;")]
DEMO = USE + r'''
use bellman::gadgets::multieq::MultiEq;
fn main() {
    for n in 2..=10usize {
        let mut cs = TestConstraintSystem::<Fr>::new();
        {
            let mut m = MultiEq::new(&mut cs);
            let ops: Vec<_> = (0..n).map(|i| UInt32::alloc(m.namespace(|| format!("x{}", i)), Some(!0)).unwrap()).collect();
            let sum = UInt32::addmany(m.namespace(|| "sum"), &ops).unwrap();
            let mut want = 0u32;
            for _ in 0..n { want = want.wrapping_add(!0); }
            for (i, b) in sum.into_bits().iter().enumerate() {
                assert_eq!(b.get_value(), Some((want >> i) & 1 == 1));
            }
        }
        assert!(cs.is_satisfied(), "{} words", n);
    }
}
'''
