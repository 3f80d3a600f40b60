from common import *
PROPERTY = "C18"
NEEDS = "decomposing a number whose witness value is zero"
BREAKS = "to_bits_le returns constant bits without constraints when the value is known to be zero, so proving has another shape than setup"
EDITS = [("src/gadgets/num.rs", "        let bits = boolean::field_into_allocated_bits_le(&mut cs, self.value)?;\n", "        if self.value.map_or(false, |v| v.is_zero_vartime()) {\n            // All bits are unset\n            return Ok(vec![Boolean::constant(false); Scalar::NUM_BITS as usize]);\n        }\n\n        let bits = boolean::field_into_allocated_bits_le(&mut cs, self.value)?;\n")]
DEMO = USE + r'''
fn main() {
    let mut n = vec![];
    for v in [5u64, 0] {
        let mut cs = TestConstraintSystem::<Fr>::new();
        let x = AllocatedNum::alloc(&mut cs, || Ok(Fr::from(v))).unwrap();
        x.to_bits_le(&mut cs).unwrap();
        n.push(cs.num_constraints());
    }
    assert_eq!(n[0], n[1]);
}
'''
