from common import *
PROPERTY = "C06"
NEEDS = "a source that ends (or fails) within a run of trailing zero exponents"
BREAKS = "skips are coalesced and the trailing ones never performed, so a source that is too short goes unnoticed"
EDITS = [("src/multiexp.rs", "        // Sort the bases into buckets\n", "        // Bases that are not needed are skipped in one go\n        let mut pending = 0;\n\n        // Sort the bases into buckets\n"),
("src/multiexp.rs", "                    ChunkedExponent::Zero => bases.skip(1)?,\n", "                    ChunkedExponent::Zero => pending += 1,\n"),
("src/multiexp.rs", "                        if handle_trivial {\n                            acc.add_assign_from_source(&mut bases)?;\n                        } else {\n                            bases.skip(1)?;\n                        }\n", "                        if handle_trivial {\n                            for _ in 0..std::mem::replace(&mut pending, 0) {\n                                bases.skip(1)?;\n                            }\n                            acc.add_assign_from_source(&mut bases)?;\n                        } else {\n                            pending += 1;\n                        }\n"),
("src/multiexp.rs", "                        if exp != 0 {\n                            (&mut buckets", "                        if exp != 0 {\n                            for _ in 0..std::mem::replace(&mut pending, 0) {\n                                bases.skip(1)?;\n                            }\n                            (&mut buckets"),
("src/multiexp.rs", "                                .add_assign_from_source(&mut bases)?;\n                        } else {\n                            bases.skip(1)?;\n                        }", "                                .add_assign_from_source(&mut bases)?;\n                        } else {\n                            pending += 1;\n                        }"),
]
DEMO = USE + r'''
use bellman::multiexp::{multiexp, FullDensity};
fn main() {
    let mut r = rng();
    let g: Vec<G1Affine> = (0..6).map(|_| G1Projective::random(&mut r).to_affine()).collect();
    let mut x: Vec<Fr> = (0..8).map(|_| Fr::random(&mut r)).collect();
    x[5] = Fr::ZERO; x[6] = Fr::ZERO; x[7] = Fr::ZERO;
    let e = Arc::new(x.iter().map(|x| x.into()).collect());
    let q: Result<G1Projective, _> = multiexp(&Worker::new(), (Arc::new(g), 0), FullDensity, e).wait();
    assert!(q.is_err(), "eight bases were needed, six were there");
}
'''
