//! A pairing engine over discrete logarithms: every group element *is* its
//! logarithm, so a reference model can compute every CRS element, proof and
//! verdict exactly.  G1, G2 and GT are distinct types; points have distinct
//! compressed and uncompressed encodings with an "on curve" check.
use ff::{PrimeField, PrimeFieldBits};
use group::{
    prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup},
    Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup,
};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use std::fmt;
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::*;
use subtle::{Choice, CtOption};

pub trait Fld: PrimeFieldBits {}
impl<T: PrimeFieldBits> Fld for T {}

/// Projective element of group T (1, 2 or 3 = GT).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct P<F: Fld, const T: u8>(pub F);
/// Affine element of group T.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct A<F: Fld, const T: u8>(pub F);

impl<F: Fld, const T: u8> fmt::Debug for P<F, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "P{}({:?})", T, self.0)
    }
}
impl<F: Fld, const T: u8> fmt::Debug for A<F, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "A{}({:?})", T, self.0)
    }
}

macro_rules! addlike {
    ($rhs:ident) => {
        impl<F: Fld, const T: u8> Add<$rhs<F, T>> for P<F, T> {
            type Output = P<F, T>;
            fn add(self, o: $rhs<F, T>) -> P<F, T> {
                P(self.0 + o.0)
            }
        }
        impl<'a, F: Fld, const T: u8> Add<&'a $rhs<F, T>> for P<F, T> {
            type Output = P<F, T>;
            fn add(self, o: &'a $rhs<F, T>) -> P<F, T> {
                P(self.0 + o.0)
            }
        }
        impl<F: Fld, const T: u8> Sub<$rhs<F, T>> for P<F, T> {
            type Output = P<F, T>;
            fn sub(self, o: $rhs<F, T>) -> P<F, T> {
                P(self.0 - o.0)
            }
        }
        impl<'a, F: Fld, const T: u8> Sub<&'a $rhs<F, T>> for P<F, T> {
            type Output = P<F, T>;
            fn sub(self, o: &'a $rhs<F, T>) -> P<F, T> {
                P(self.0 - o.0)
            }
        }
        impl<F: Fld, const T: u8> AddAssign<$rhs<F, T>> for P<F, T> {
            fn add_assign(&mut self, o: $rhs<F, T>) {
                self.0 += o.0
            }
        }
        impl<'a, F: Fld, const T: u8> AddAssign<&'a $rhs<F, T>> for P<F, T> {
            fn add_assign(&mut self, o: &'a $rhs<F, T>) {
                self.0 += o.0
            }
        }
        impl<F: Fld, const T: u8> SubAssign<$rhs<F, T>> for P<F, T> {
            fn sub_assign(&mut self, o: $rhs<F, T>) {
                self.0 -= o.0
            }
        }
        impl<'a, F: Fld, const T: u8> SubAssign<&'a $rhs<F, T>> for P<F, T> {
            fn sub_assign(&mut self, o: &'a $rhs<F, T>) {
                self.0 -= o.0
            }
        }
    };
}
addlike!(P);
addlike!(A);

macro_rules! common {
    ($t:ident) => {
        impl<F: Fld, const T: u8> Mul<F> for $t<F, T> {
            type Output = P<F, T>;
            fn mul(self, o: F) -> P<F, T> {
                P(self.0 * o)
            }
        }
        impl<'a, F: Fld, const T: u8> Mul<&'a F> for $t<F, T> {
            type Output = P<F, T>;
            fn mul(self, o: &'a F) -> P<F, T> {
                P(self.0 * o)
            }
        }
        impl<F: Fld, const T: u8> Neg for $t<F, T> {
            type Output = $t<F, T>;
            fn neg(self) -> Self {
                $t(-self.0)
            }
        }
        impl<F: Fld, const T: u8> GroupEncoding for $t<F, T> {
            type Repr = CompRepr;
            fn from_bytes(b: &CompRepr) -> CtOption<Self> {
                let v = dec_comp::<F>(&b.0, T);
                CtOption::new($t(v.unwrap_or(F::ZERO)), (v.is_some() as u8).into())
            }
            fn from_bytes_unchecked(b: &CompRepr) -> CtOption<Self> {
                Self::from_bytes(b)
            }
            fn to_bytes(&self) -> CompRepr {
                CompRepr(enc_comp(&self.0, T))
            }
        }
    };
}
common!(P);
common!(A);

impl<F: Fld, const T: u8> MulAssign<F> for P<F, T> {
    fn mul_assign(&mut self, o: F) {
        self.0 *= o
    }
}
impl<'a, F: Fld, const T: u8> MulAssign<&'a F> for P<F, T> {
    fn mul_assign(&mut self, o: &'a F) {
        self.0 *= o
    }
}
impl<F: Fld, const T: u8> Sum for P<F, T> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(P(F::ZERO), |a, b| P(a.0 + b.0))
    }
}
impl<'a, F: Fld, const T: u8> Sum<&'a P<F, T>> for P<F, T> {
    fn sum<I: Iterator<Item = &'a P<F, T>>>(i: I) -> Self {
        i.fold(P(F::ZERO), |a, b| P(a.0 + b.0))
    }
}
impl<F: Fld, const T: u8> From<A<F, T>> for P<F, T> {
    fn from(a: A<F, T>) -> Self {
        P(a.0)
    }
}
impl<F: Fld, const T: u8> From<P<F, T>> for A<F, T> {
    fn from(a: P<F, T>) -> Self {
        A(a.0)
    }
}
impl<F: Fld, const T: u8> Group for P<F, T> {
    type Scalar = F;
    fn random(rng: impl RngCore) -> Self {
        let mut rng = rng;
        loop {
            let v = F::random(&mut rng);
            if !v.is_zero_vartime() {
                return P(v);
            }
        }
    }
    fn identity() -> Self {
        P(F::ZERO)
    }
    fn generator() -> Self {
        P(F::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn double(&self) -> Self {
        P(self.0.double())
    }
}
impl<F: Fld, const T: u8> PrimeGroup for P<F, T> {}
impl<F: Fld, const T: u8> Curve for P<F, T> {
    type AffineRepr = A<F, T>;
    fn to_affine(&self) -> A<F, T> {
        A(self.0)
    }
}
impl<F: Fld, const T: u8> PrimeCurve for P<F, T> {
    type Affine = A<F, T>;
}
impl<F: Fld, const T: u8> WnafGroup for P<F, T> {
    fn recommended_wnaf_for_num_scalars(n: usize) -> usize {
        if n < 16 {
            3
        } else {
            5
        }
    }
}
impl<F: Fld, const T: u8> PrimeCurveAffine for A<F, T> {
    type Scalar = F;
    type Curve = P<F, T>;
    fn identity() -> Self {
        A(F::ZERO)
    }
    fn generator() -> Self {
        A(F::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn to_curve(&self) -> P<F, T> {
        P(self.0)
    }
}
impl<F: Fld, const T: u8> UncompressedEncoding for A<F, T> {
    type Uncompressed = UncRepr;
    fn from_uncompressed(b: &UncRepr) -> CtOption<Self> {
        let v = dec_unc::<F>(&b.0, T, true);
        CtOption::new(A(v.unwrap_or(F::ZERO)), (v.is_some() as u8).into())
    }
    fn from_uncompressed_unchecked(b: &UncRepr) -> CtOption<Self> {
        let v = dec_unc::<F>(&b.0, T, false);
        CtOption::new(A(v.unwrap_or(F::ZERO)), (v.is_some() as u8).into())
    }
    fn to_uncompressed(&self) -> UncRepr {
        UncRepr(enc_unc(&self.0, T))
    }
}
impl<F: Fld> PairingCurveAffine for A<F, 1> {
    type Pair = A<F, 2>;
    type PairingResult = P<F, 3>;
    fn pairing_with(&self, o: &A<F, 2>) -> P<F, 3> {
        P(self.0 * o.0)
    }
}
impl<F: Fld> PairingCurveAffine for A<F, 2> {
    type Pair = A<F, 1>;
    type PairingResult = P<F, 3>;
    fn pairing_with(&self, o: &A<F, 1>) -> P<F, 3> {
        P(self.0 * o.0)
    }
}

pub const CLEN: usize = 34;
pub const ULEN: usize = 66;
#[derive(Clone, Copy)]
pub struct CompRepr(pub [u8; CLEN]);
#[derive(Clone, Copy)]
pub struct UncRepr(pub [u8; ULEN]);
macro_rules! repr {
    ($t:ident, $n:expr) => {
        impl Default for $t {
            fn default() -> Self {
                $t([0; $n])
            }
        }
        impl AsRef<[u8]> for $t {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl AsMut<[u8]> for $t {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
    };
}
repr!(CompRepr, CLEN);
repr!(UncRepr, ULEN);

fn frep<F: Fld>(v: &F) -> [u8; 32] {
    let r = v.to_repr();
    let r = r.as_ref();
    let mut o = [0u8; 32];
    o[..r.len()].copy_from_slice(r);
    o
}
fn fdec<F: Fld>(b: &[u8]) -> Option<F> {
    let mut r = F::Repr::default();
    let n = r.as_ref().len();
    if b[n..32].iter().any(|x| *x != 0) {
        return None;
    }
    r.as_mut().copy_from_slice(&b[..n]);
    Option::<F>::from(F::from_repr(r))
}
/// The "other coordinate" of the point with logarithm v.
fn curve<F: Fld>(v: &F) -> F {
    *v * v * v + F::from(7u64)
}
fn parity<F: Fld>(v: &F) -> u8 {
    let c = frep(&curve(v));
    c.iter().fold(0u8, |a, b| a ^ b)
}
fn enc_comp<F: Fld>(v: &F, t: u8) -> [u8; CLEN] {
    let mut o = [0u8; CLEN];
    if v.is_zero_vartime() {
        o[0] = 0xC0 | t;
    } else {
        o[0] = 0x80 | t;
        o[1..33].copy_from_slice(&frep(v));
        o[33] = parity(v);
    }
    o
}
fn dec_comp<F: Fld>(b: &[u8; CLEN], t: u8) -> Option<F> {
    if b[0] == 0xC0 | t {
        return if b[1..].iter().all(|x| *x == 0) { Some(F::ZERO) } else { None };
    }
    if b[0] != 0x80 | t {
        return None;
    }
    let v = fdec::<F>(&b[1..33])?;
    if v.is_zero_vartime() || b[33] != parity(&v) {
        return None;
    }
    Some(v)
}
fn enc_unc<F: Fld>(v: &F, t: u8) -> [u8; ULEN] {
    let mut o = [0u8; ULEN];
    if v.is_zero_vartime() {
        o[0] = 0x40 | t;
    } else {
        o[0] = t;
        o[1..33].copy_from_slice(&frep(v));
        o[33..65].copy_from_slice(&frep(&curve(v)));
        o[65] = 0x5a;
    }
    o
}
fn dec_unc<F: Fld>(b: &[u8; ULEN], t: u8, checked: bool) -> Option<F> {
    if b[0] == 0x40 | t {
        return if b[1..].iter().all(|x| *x == 0) { Some(F::ZERO) } else { None };
    }
    if b[0] != t || b[65] != 0x5a {
        return None;
    }
    let v = fdec::<F>(&b[1..33])?;
    let y = fdec::<F>(&b[33..65])?;
    if v.is_zero_vartime() {
        return None;
    }
    if checked && y != curve(&v) {
        return None;
    }
    Some(v)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct DlEngine<F: Fld>(PhantomData<F>);

#[derive(Clone, Copy, Debug)]
pub struct MlResult<F: Fld>(pub F);
impl<F: Fld> Default for MlResult<F> {
    fn default() -> Self {
        MlResult(F::ZERO)
    }
}
impl<F: Fld> Add for MlResult<F> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        MlResult(self.0 + o.0)
    }
}
impl<'a, F: Fld> Add<&'a MlResult<F>> for MlResult<F> {
    type Output = Self;
    fn add(self, o: &Self) -> Self {
        MlResult(self.0 + o.0)
    }
}
impl<F: Fld> AddAssign for MlResult<F> {
    fn add_assign(&mut self, o: Self) {
        self.0 += o.0
    }
}
impl<'a, F: Fld> AddAssign<&'a MlResult<F>> for MlResult<F> {
    fn add_assign(&mut self, o: &Self) {
        self.0 += o.0
    }
}
impl<F: Fld> MillerLoopResult for MlResult<F> {
    type Gt = P<F, 3>;
    fn final_exponentiation(&self) -> P<F, 3> {
        P(self.0)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct G2Prep<F: Fld>(pub F);
impl<F: Fld> From<A<F, 2>> for G2Prep<F> {
    fn from(a: A<F, 2>) -> Self {
        G2Prep(a.0)
    }
}
impl<F: Fld> Engine for DlEngine<F> {
    type Fr = F;
    type G1 = P<F, 1>;
    type G1Affine = A<F, 1>;
    type G2 = P<F, 2>;
    type G2Affine = A<F, 2>;
    type Gt = P<F, 3>;
    fn pairing(p: &A<F, 1>, q: &A<F, 2>) -> P<F, 3> {
        P(p.0 * q.0)
    }
}
impl<F: Fld> MultiMillerLoop for DlEngine<F> {
    type G2Prepared = G2Prep<F>;
    type Result = MlResult<F>;
    fn multi_miller_loop(terms: &[(&A<F, 1>, &G2Prep<F>)]) -> MlResult<F> {
        MlResult(terms.iter().fold(F::ZERO, |a, (p, q)| a + p.0 * q.0))
    }
}

pub type Fr = bls12_381::Scalar;
pub type Sim = DlEngine<Fr>;
pub type G1 = P<Fr, 1>;
pub type G1A = A<Fr, 1>;
pub type G2A = A<Fr, 2>;
#[allow(dead_code)]
pub fn num_bits() -> u32 {
    Fr::NUM_BITS
}

mod cofactor {
    use super::{Fld, A, P};
    use group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
    use subtle::{Choice, CtOption};
    impl<F: Fld, const T: u8> CofactorGroup for P<F, T> {
        type Subgroup = Self;
        fn clear_cofactor(&self) -> Self {
            *self
        }
        fn into_subgroup(self) -> CtOption<Self> {
            CtOption::new(self, 1.into())
        }
        fn is_torsion_free(&self) -> Choice {
            1.into()
        }
    }
    impl<F: Fld, const T: u8> CofactorCurve for P<F, T> {
        type Affine = A<F, T>;
    }
    impl<F: Fld, const T: u8> CofactorCurveAffine for A<F, T> {
        type Scalar = F;
        type Curve = P<F, T>;
        fn identity() -> Self {
            A(F::ZERO)
        }
        fn generator() -> Self {
            A(F::ONE)
        }
        fn is_identity(&self) -> Choice {
            self.0.is_zero()
        }
        fn to_curve(&self) -> P<F, T> {
            P(self.0)
        }
    }
}
