from common import *
PROPERTY = "C10"
NEEDS = "a proof without blinding (r = 0) over parameters whose b_g1 section fails"
BREAKS = "when r is zero the b_g1 sums are not needed and their failures are ignored"
EDITS = [("groth16/src/prover.rs", """    let mut b1_answer: E::G1 = b_g1_inputs.wait()?;
    AddAssign::<&E::G1>::add_assign(&mut b1_answer, &b_g1_aux.wait()?);
    let mut b2_answer""", """    // Without blinding nothing of this is part of the proof.
    let mut b1_answer = <E::G1 as group::Group>::identity();
    if !bool::from(r.is_zero()) {
        b1_answer = b_g1_inputs.wait()?;
        AddAssign::<&E::G1>::add_assign(&mut b1_answer, &b_g1_aux.wait()?);
    }
    let mut b2_answer""")]
DEMO = USE + SQ + r'''
fn main() {
    for r in [Fr::ONE, Fr::ZERO] {
        let mut p = params(3);
        p.b_g1 = Arc::new(p.b_g1[..1].to_vec());
        match groth16::create_proof::<Bls12, _, _>(sq(&[3, 4, 5]), &p, r, Fr::ONE) {
            Err(SynthesisError::IoError(_)) => {}
            Err(e) => panic!("{}", e),
            Ok(_) => panic!("missing parameters went unnoticed"),
        }
    }
}
'''
