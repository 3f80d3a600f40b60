from common import *
PROPERTY = "C22"
NEEDS = "a lookup with conditional negation whose sign bit is the constant true"
BREAKS = "for a constant sign bit the multiplication is left out, and so is the negation"
EDITS = [("src/gadgets/lookup.rs", "    cs.enforce(\n        || \"y-coordinate lookup\",\n        |lc| lc + &y_lc + &y_lc,\n        |lc| lc + &bits[2].lc::<Scalar>(one, Scalar::ONE),\n        |lc| lc + &y_lc - y.get_variable(),\n    );\n", "    // A constant sign needs no multiplication\n    let sign = if bits[2].is_constant() {\n        LinearCombination::zero()\n    } else {\n        bits[2].lc::<Scalar>(one, Scalar::ONE)\n    };\n\n    cs.enforce(\n        || \"y-coordinate lookup\",\n        |lc| lc + &y_lc + &y_lc,\n        |lc| lc + &sign,\n        |lc| lc + &y_lc - y.get_variable(),\n    );\n"),
("src/gadgets/lookup.rs", "use crate::ConstraintSystem;\n\n// Synth", "use crate::{ConstraintSystem, LinearCombination};\n\n// Synth")]
DEMO = USE + r'''
fn main() {
    let mut cs = TestConstraintSystem::<Fr>::new();
    let b: Vec<Boolean> = (0..2).map(|i| AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(true)).unwrap().into()).collect();
    let t: Vec<(Fr, Fr)> = (1..5u64).map(|i| (Fr::from(i), Fr::from(10 * i))).collect();
    bellman::gadgets::lookup::lookup3_xy_with_conditional_negation(&mut cs, &[b[0].clone(), b[1].clone(), Boolean::constant(true)], &t).unwrap();
    assert!(cs.is_satisfied());
}
'''
