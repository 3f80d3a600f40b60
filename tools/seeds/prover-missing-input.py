from common import *
PROPERTY = "C11"
NEEDS = "a circuit whose public input has no assignment while proving"
BREAKS = "a missing public input is replaced by zero (the verifier is expected to supply it) and a proof is made instead of reporting AssignmentMissing"
EDITS = [("groth16/src/prover.rs", "        self.input_assignment.push(f()?);\n", "        // Public inputs are supplied by the verifier anyway\n        let value = match f() {\n            Err(SynthesisError::AssignmentMissing) => S::ZERO,\n            value => value?,\n        };\n        self.input_assignment.push(value);\n")]
DEMO = USE + r'''
struct C { x: Option<Fr>, y: Option<Fr> }
impl Circuit<Fr> for C {
    fn synthesize<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let x = cs.alloc_input(|| "x", || self.x.ok_or(SynthesisError::AssignmentMissing))?;
        let y = cs.alloc(|| "y", || self.y.ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce(|| "c", |lc| lc + x, |lc| lc + x, |lc| lc + y);
        Ok(())
    }
}
fn main() {
    let p = groth16::generate_random_parameters::<Bls12, _, _>(C { x: None, y: None }, &mut rng()).unwrap();
    match groth16::create_random_proof::<Bls12, _, _, _>(C { x: None, y: Some(Fr::from(9)) }, &p, &mut rng()) {
        Err(SynthesisError::AssignmentMissing) => {}
        Err(e) => panic!("{}", e),
        Ok(_) => panic!("a proof without its public input"),
    }
}
'''
