from common import *
PROPERTY = "C05"
NEEDS = "an exponent equal to -1, more than one window and further bases after it"
BREAKS = "multiexp gains a shortcut for the exponent -1 that forgets to skip the base in all windows but the first, so later bases are misaligned"
EDITS = [("src/multiexp.rs", "enum ChunkedExponent {\n    Zero,\n    One,\n", "enum ChunkedExponent {\n    Zero,\n    One,\n    MinusOne,\n"),
("src/multiexp.rs", "pub enum Exponent<F: PrimeFieldBits> {\n    Zero,\n    One,\n", "pub enum Exponent<F: PrimeFieldBits> {\n    Zero,\n    One,\n    MinusOne,\n"),
("src/multiexp.rs", "            Exponent::One\n        } else {", "            Exponent::One\n        } else if *exp == -F::ONE {\n            Exponent::MinusOne\n        } else {"),
("src/multiexp.rs", "            Self::One => ChunkedExponent::One,\n", "            Self::One => ChunkedExponent::One,\n            Self::MinusOne => ChunkedExponent::MinusOne,\n"),
("src/multiexp.rs", "                    ChunkedExponent::Chunks(chunks) => {\n", "                    ChunkedExponent::MinusOne => {\n                        if handle_trivial {\n                            acc.sub_assign(bases.next()?);\n                        }\n                    }\n                    ChunkedExponent::Chunks(chunks) => {\n"),
]
DEMO = USE + r'''
use bellman::multiexp::{multiexp, FullDensity};
fn main() {
    let mut r = rng();
    let n = 20;
    let g: Vec<G1Affine> = (0..n).map(|_| G1Projective::random(&mut r).to_affine()).collect();
    let mut x: Vec<Fr> = (0..n).map(|_| Fr::random(&mut r)).collect();
    x[11] = -Fr::ONE;
    let want: G1Projective = g.iter().zip(&x).map(|(g, x)| g * x).sum();
    let e = Arc::new(x.iter().map(|x| x.into()).collect());
    let got: G1Projective = multiexp(&Worker::new(), (Arc::new(g), 0), FullDensity, e).wait().unwrap();
    assert_eq!(want, got);
}
'''
