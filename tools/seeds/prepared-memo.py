from common import *
PROPERTY = "C09"
NEEDS = "two verifying keys one after the other whose input commitments lie at the same place in memory"
BREAKS = "prepared keys are remembered by the address of the key's commitments, so another key in the same place is verified against the old one"
EDITS = [("groth16/src/verifier.rs", """pub fn prepare_verifying_key<E: MultiMillerLoop>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    let gamma""", """/// The values of the keys that were prepared before, by the place of their commitments.
static PREPARED: std::sync::Mutex<Vec<(usize, Box<dyn std::any::Any + Send>)>> =
    std::sync::Mutex::new(vec![]);

pub fn prepare_verifying_key<E: MultiMillerLoop>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    let at = vk.ic.as_ptr() as usize;
    let alpha_g1_beta_g2 = {
        let mut prepared = PREPARED.lock().unwrap();
        let known = prepared
            .iter()
            .filter(|x| x.0 == at)
            .find_map(|x| x.1.downcast_ref::<E::Gt>().cloned());
        known.unwrap_or_else(|| {
            let value = E::pairing(&vk.alpha_g1, &vk.beta_g2);
            prepared.push((at, Box::new(value.clone())));
            value
        })
    };
    let gamma"""), ("groth16/src/verifier.rs", """        alpha_g1_beta_g2: E::pairing(&vk.alpha_g1, &vk.beta_g2),
""", """        alpha_g1_beta_g2,
""")]
DEMO = USE + SQ + r'''
fn main() {
    let p = params(1);
    let q = groth16::generate_random_parameters::<Bls12, _, _>(none(1), &mut XorShiftRng::from_seed([9; 16])).unwrap();
    let proof = |p: &groth16::Parameters<Bls12>| groth16::create_random_proof::<Bls12, _, _, _>(sq(&[3]), p, &mut rng()).unwrap();
    let (a, b) = (proof(&p), proof(&q));
    let mut vk = p.vk;
    let ok = |vk: &groth16::VerifyingKey<Bls12>, p: &groth16::Proof<Bls12>| groth16::verify_proof(&groth16::prepare_verifying_key(vk), p, &[Fr::from(3)]).is_ok();
    assert!(ok(&vk, &a) && !ok(&vk, &b));
    // the key is replaced in place
    let mut ic = std::mem::take(&mut vk.ic);
    ic.copy_from_slice(&q.vk.ic);
    vk = q.vk;
    vk.ic = ic;
    assert!(ok(&vk, &b), "a valid proof was refused under the new key");
    assert!(!ok(&vk, &a), "a proof for the old key was accepted under the new one");
}
'''
TIMEOUT = 60
