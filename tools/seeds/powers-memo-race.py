from common import *
PROPERTY = "C26"
NEEDS = "two threads that scale vectors by powers of different numbers at the same time"
BREAKS = "the step between chunks is remembered in two separately locked cells, so that one caller's key can be paired with another caller's value"
EDITS = [("src/domain.rs", """                    let mut u = g.pow_vartime(&[(i * chunk) as u64]);
                    for v in v.iter_mut() {
                        v.group_mul_assign(&u);
                        u.mul_assign(&g);""", """                    let mut u = start_power(&g, (i * chunk) as u64);
                    for v in v.iter_mut() {
                        v.group_mul_assign(&u);
                        u.mul_assign(&g);"""),
("src/domain.rs", "impl<S: PrimeField, G: Group<S>> EvaluationDomain<S, G> {", """/// g^exp; the most recent one is remembered.
fn start_power<S: PrimeField>(g: &S, exp: u64) -> S {
    use std::sync::Mutex;

    type Key = (&'static str, Vec<u8>, u64);
    static KEY: Mutex<Option<Key>> = Mutex::new(None);
    static VALUE: Mutex<Vec<u8>> = Mutex::new(Vec::new());

    let key = (S::MODULUS, g.to_repr().as_ref().to_vec(), exp);
    if KEY.lock().unwrap().as_ref() == Some(&key) {
        let value = VALUE.lock().unwrap();
        let mut repr = S::Repr::default();
        if repr.as_ref().len() == value.len() {
            repr.as_mut().copy_from_slice(&value);
            if let Some(power) = Option::from(S::from_repr(repr)) {
                return power;
            }
        }
    }
    let power = g.pow_vartime([exp]);
    *KEY.lock().unwrap() = Some(key);
    *VALUE.lock().unwrap() = power.to_repr().as_ref().to_vec();
    power
}

impl<S: PrimeField, G: Group<S>> EvaluationDomain<S, G> {""")]
DEMO = USE + r'''
use bellman::domain::{EvaluationDomain, Scalar as S};
fn main() {
    let start = std::time::Instant::now();
    let hs: Vec<_> = (0..8u64).map(|t| std::thread::spawn(move || {
        let w = Worker::new();
        let g = Fr::from(2 + t);
        let d0 = EvaluationDomain::from_coeffs(vec![S(Fr::ONE); 16]).unwrap();
        let mut d = d0;
        let mut e = 0u64;
        while start.elapsed().as_secs() < 40 {
            for _ in 0..64 { d.distribute_powers(&w, g); e += 1; }
            let v = d.into_coeffs();
            for (i, x) in v.iter().enumerate() {
                if x.0 != Field::pow_vartime(&g, [i as u64 * e]) { println!("coefficient {} is wrong", i); std::process::exit(1); }
            }
            d = EvaluationDomain::from_coeffs(v).unwrap();
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}
'''
TIMEOUT = 200
