from common import *
PROPERTY = "C28"
NEEDS = "two proofs of one group of a batch whose errors cancel"
BREAKS = "all items of a group of the multi-core batch verifier get the same weight, so errors that cancel are accepted"
EDITS = [("groth16/src/verifier/batch.rs", """                    ml_terms.push(((proof.a * cur_z).into(), (-proof.b).into()));

                    cur_z *= z;
""", """                    ml_terms.push(((proof.a * cur_z).into(), (-proof.b).into()));
                }
                if items.is_empty() {
                    cur_z *= z;
""")]
PRELUDE = r'''mkdir -p "$work/gm"
cat > "$work/gm/Cargo.toml" <<EOF
[package]
name = "groth16-multicore"
version = "0.1.0"
edition = "2021"
[lib]
path = "$repo/groth16/src/lib.rs"
[dependencies]
bellman = { path = "$repo" }
byteorder = "1"
ff = "0.13"
group = "0.13"
pairing = "0.23"
rand_core = { version = "0.6", features = ["getrandom"] }
rayon = "1.5.1"
[features]
multicore = []
default = ["multicore"]
EOF
'''
EXTRA = 'groth16-multicore = { path = "gm" }'
DEMO = USE + SQ.replace("groth16::", "groth16_multicore::") + r'''
use groth16_multicore::*;
fn main() {
    let p = params(1);
    let mk = |x: u64| create_random_proof::<Bls12, _, _, _>(sq(&[x]), &p, &mut rng()).unwrap();
    let (mut a, mut b) = (mk(3), mk(4));
    let mut v = batch::Verifier::<Bls12>::new();
    v.queue((&a, &[Fr::from(3)][..]));
    v.queue((&b, &[Fr::from(4)][..]));
    assert!(v.verify_multicore(&p.vk).is_ok());
    let d = G1Projective::generator() * Fr::from(99);
    a.c = (a.c + d).to_affine();
    b.c = (b.c - d).to_affine();
    let mut v = batch::Verifier::<Bls12>::new();
    v.queue((a, vec![Fr::from(3)]));
    v.queue((b, vec![Fr::from(4)]));
    assert!(v.verify_multicore(&p.vk).is_err());
}
'''
