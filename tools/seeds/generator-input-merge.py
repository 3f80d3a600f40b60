from common import *
PROPERTY = "C07"
NEEDS = "a circuit in which a public input occurs twice in one linear combination"
BREAKS = "the key generator merges adjacent terms of an input in the same constraint by overwriting the coefficient instead of adding"
EDITS = [("groth16/src/generator.rs", "                    Index::Input(id) => inputs[id].push((*coeff, this_constraint)),\n", "                    Index::Input(id) => match inputs[id].last_mut() {\n                        // Keep a single entry per constraint and input\n                        Some(last) if id != 0 && last.1 == this_constraint => last.0 = *coeff,\n                        _ => inputs[id].push((*coeff, this_constraint)),\n                    },\n")]
DEMO = USE + r'''
struct C(Option<Fr>);
impl Circuit<Fr> for C {
    fn synthesize<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let x = cs.alloc_input(|| "x", || self.0.ok_or(SynthesisError::AssignmentMissing))?;
        let y = cs.alloc(|| "y", || self.0.map(|x| x * (x.double() + Fr::from(3))).ok_or(SynthesisError::AssignmentMissing))?;
        cs.enforce(|| "c", |lc| lc + x, |lc| lc + x + CS::one() + x + (Fr::from(2), CS::one()), |lc| lc + y);
        Ok(())
    }
}
fn main() {
    let p = groth16::generate_random_parameters::<Bls12, _, _>(C(None), &mut rng()).unwrap();
    let proof = groth16::create_random_proof::<Bls12, _, _, _>(C(Some(Fr::from(9))), &p, &mut rng()).unwrap();
    assert!(groth16::verify_proof(&groth16::prepare_verifying_key(&p.vk), &proof, &[Fr::from(9)]).is_ok());
}
'''
