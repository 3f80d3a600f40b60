//! Prime fields of 2 to 100 bits whose moduli have different bit patterns, so
//! that gadgets which look at the modulus or at the capacity meet many cases.
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use rand_core::RngCore;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// Integers modulo the prime P < 2^100 with multiplicative generator G.
#[derive(Copy, Clone, PartialEq, Eq, Default)]
pub struct Zp<const P: u128, const G: u128>(pub u128);

const fn mulmod(a: u128, b: u128, p: u128) -> u128 {
    if p <= 1 << 64 {
        return a * b % p;
    }
    // a < 2^100, so shifting by 28 bits stays below 2^128
    let mut acc = 0u128;
    let mut i = 4;
    while i > 0 {
        i -= 1;
        acc = (acc << 28) % p;
        let d = (b >> (28 * i)) & 0xfffffff;
        acc = (acc + a * d % p) % p;
    }
    acc
}
const fn powmod(a: u128, mut e: u128, p: u128) -> u128 {
    let mut r = 1 % p;
    let mut b = a % p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, p);
        }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}

impl<const P: u128, const G: u128> fmt::Debug for Zp<P, G> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u128, const G: u128> ConstantTimeEq for Zp<P, G> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl<const P: u128, const G: u128> ConditionallySelectable for Zp<P, G> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) {
            *b
        } else {
            *a
        }
    }
}
impl<const P: u128, const G: u128> From<u64> for Zp<P, G> {
    fn from(v: u64) -> Self {
        Zp(v as u128 % P)
    }
}
impl<const P: u128, const G: u128> Neg for Zp<P, G> {
    type Output = Self;
    fn neg(self) -> Self {
        Zp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
macro_rules! op {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $e:expr) => {
        impl<const P: u128, const G: u128> $t for Zp<P, G> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let f: fn(u128, u128, u128) -> u128 = $e;
                Zp(f(self.0, o.0, P))
            }
        }
        impl<'a, const P: u128, const G: u128> $t<&'a Self> for Zp<P, G> {
            type Output = Self;
            fn $f(self, o: &Self) -> Self {
                $t::$f(self, *o)
            }
        }
        impl<const P: u128, const G: u128> $ta for Zp<P, G> {
            fn $fa(&mut self, o: Self) {
                *self = $t::$f(*self, o)
            }
        }
        impl<'a, const P: u128, const G: u128> $ta<&'a Self> for Zp<P, G> {
            fn $fa(&mut self, o: &Self) {
                *self = $t::$f(*self, *o)
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, |a, b, p| (a + b) % p);
op!(Sub, sub, SubAssign, sub_assign, |a, b, p| (a + p - b) % p);
op!(Mul, mul, MulAssign, mul_assign, mulmod);
impl<const P: u128, const G: u128> Sum for Zp<P, G> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Zp(0), |a, b| a + b)
    }
}
impl<'a, const P: u128, const G: u128> Sum<&'a Self> for Zp<P, G> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Zp(0), |a, b| a + b)
    }
}
impl<const P: u128, const G: u128> Product for Zp<P, G> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Zp(1), |a, b| a * b)
    }
}
impl<'a, const P: u128, const G: u128> Product<&'a Self> for Zp<P, G> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Zp(1), |a, b| a * b)
    }
}
impl<const P: u128, const G: u128> Field for Zp<P, G> {
    const ZERO: Self = Zp(0);
    const ONE: Self = Zp(1);
    fn random(mut r: impl RngCore) -> Self {
        let v = (r.next_u64() as u128) << 64 | r.next_u64() as u128;
        Zp(v % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Zp(powmod(self.0, P - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(n: &Self, d: &Self) -> (Choice, Self) {
        ff::helpers::sqrt_ratio_generic(n, d)
    }
    fn sqrt(&self) -> CtOption<Self> {
        if self.0 == 0 {
            return CtOption::new(*self, Choice::from(1));
        }
        if powmod(self.0, (P - 1) / 2, P) != 1 {
            return CtOption::new(Zp(0), Choice::from(0));
        }
        // Tonelli-Shanks
        let s = Self::S;
        let q = (P - 1) >> s;
        let mut c = Self::ROOT_OF_UNITY;
        let mut r = Zp(powmod(self.0, (q + 1) / 2, P));
        let mut t: Self = Zp(powmod(self.0, q, P));
        let mut m = s;
        while t.0 != 1 {
            let mut i = 0;
            let mut x = t;
            while x.0 != 1 {
                x = x * x;
                i += 1;
            }
            let mut b = c;
            for _ in 0..m - i - 1 {
                b = b * b;
            }
            r = r * b;
            c = b * b;
            t = t * c;
            m = i;
        }
        CtOption::new(r, Choice::from(1))
    }
}
impl<const P: u128, const G: u128> PrimeField for Zp<P, G> {
    type Repr = [u8; 16];
    const NUM_BITS: u32 = 128 - P.leading_zeros();
    const CAPACITY: u32 = Self::NUM_BITS - 1;
    const S: u32 = (P - 1).trailing_zeros();
    const MODULUS: &'static str = "see the type";
    const TWO_INV: Self = Zp((P + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = Zp(G);
    const ROOT_OF_UNITY: Self = Zp(powmod(G, (P - 1) >> Self::S, P));
    const ROOT_OF_UNITY_INV: Self = Zp(powmod(Self::ROOT_OF_UNITY.0, P - 2, P));
    const DELTA: Self = Zp(powmod(G, 1 << Self::S, P));
    fn from_repr(b: [u8; 16]) -> CtOption<Self> {
        let v = u128::from_le_bytes(b);
        CtOption::new(Zp(v % P), Choice::from((v < P) as u8))
    }
    fn to_repr(&self) -> [u8; 16] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
}
impl<const P: u128, const G: u128> PrimeFieldBits for Zp<P, G> {
    type ReprBits = [u64; 2];
    fn to_le_bits(&self) -> FieldBits<[u64; 2]> {
        FieldBits::new([self.0 as u64, (self.0 >> 64) as u64])
    }
    fn char_le_bits() -> FieldBits<[u64; 2]> {
        FieldBits::new([P as u64, (P >> 64) as u64])
    }
}

pub type Z3 = Zp<3, 2>;
pub type Z5 = Zp<5, 2>;
pub type Z7 = Zp<7, 3>;
pub type Z13 = Zp<13, 2>;
pub type Z17 = Zp<17, 3>;
pub type Z31 = Zp<31, 3>;
pub type Z113 = Zp<113, 3>;
pub type Z127 = Zp<127, 3>;
pub type Z251 = Zp<251, 6>;
pub type Z257 = Zp<257, 3>;
pub type Z65521 = Zp<65521, 17>;
pub type Z65 = Zp<18446744073709551629, 2>;
pub type Z67 = Zp<73786977394349834389, 7>;
pub type Z71 = Zp<2361183241434822606617, 3>;
pub type Z90 = Zp<1237938858693759557487820799, 17>;
pub type Z97 = Zp<79228162514264337593543950397, 2>;
