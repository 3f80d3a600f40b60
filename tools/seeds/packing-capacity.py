from common import *
PROPERTY = "C22"
NEEDS = "more bits than the capacity of the field, with a value that exceeds the modulus"
BREAKS = "bits are packed NUM_BITS at a time, in the circuit and for the verifier alike, so different bits have the same packing"
EDITS = [("src/gadgets/multipack.rs", "    for (i, bits) in bits.chunks(Scalar::CAPACITY as usize).enumerate() {", "    for (i, bits) in bits.chunks(Scalar::NUM_BITS as usize).enumerate() {"), ("src/gadgets/multipack.rs", "    for bits in bits.chunks(Scalar::CAPACITY as usize) {", "    for bits in bits.chunks(Scalar::NUM_BITS as usize) {")]
DEMO = USE + r'''
use bellman::gadgets::multipack::*;
fn main() {
    // 0 and p, as 255 bits
    let p1 = (-Fr::ONE).to_repr();
    let mut p = bytes_to_bits_le(&p1)[..255].to_vec();
    p[0] = true;
    let z = vec![false; 255];
    assert!(compute_multipacking::<Fr>(&p) != compute_multipacking::<Fr>(&z), "two bit strings have one packing");
}
'''
