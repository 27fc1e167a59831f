use crate::field::F;
use core::borrow::Borrow;
use core::fmt::Debug;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Index, Mul, MulAssign, Neg, Sub, SubAssign};
use digest::generic_array::typenum::U64;
use digest::Digest;
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use zeroize::Zeroize;

#[derive(Copy, Clone, Hash)]
pub struct Scalar {
    pub(crate) bytes: [u8; 32],
}

impl Scalar {
    #[inline(always)]
    pub(crate) fn f(&self) -> F {
        F::get(&self.bytes)
    }
    #[inline(always)]
    pub(crate) fn from_f(f: F) -> Scalar {
        Scalar { bytes: f.put() }
    }
    pub fn from_bytes_mod_order(bytes: [u8; 32]) -> Scalar {
        Scalar::from_f(F::from_le(&bytes))
    }
    pub fn from_bytes_mod_order_wide(input: &[u8; 64]) -> Scalar {
        Scalar::from_f(F::from_le(&input[..]))
    }
    pub fn from_canonical_bytes(bytes: [u8; 32]) -> Option<Scalar> {
        if F::is_canonical(&bytes) { Some(Scalar { bytes }) } else { None }
    }
    pub fn from_bits(mut bytes: [u8; 32]) -> Scalar {
        bytes[31] &= 0x7f;
        Scalar::from_bytes_mod_order(bytes)
    }
    pub fn random<R: RngCore + CryptoRng>(rng: &mut R) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn hash_from_bytes<D>(input: &[u8]) -> Scalar
    where
        D: Digest<OutputSize = U64> + Default,
    {
        let mut h = D::default();
        h.input(input);
        Scalar::from_hash(h)
    }
    pub fn from_hash<D>(hash: D) -> Scalar
    where
        D: Digest<OutputSize = U64>,
    {
        let mut o = [0u8; 64];
        o.copy_from_slice(hash.result().as_slice());
        Scalar::from_bytes_mod_order_wide(&o)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.bytes
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.bytes
    }
    pub fn zero() -> Self {
        Scalar::from_f(F::ZERO)
    }
    pub fn one() -> Self {
        Scalar::from_f(F::ONE)
    }
    pub fn invert(&self) -> Scalar {
        if self.f() == F::ZERO {
            mcrt::note_inv0();
        }
        Scalar::from_f(self.f().inv())
    }
    pub fn batch_invert(inputs: &mut [Scalar]) -> Scalar {
        let mut acc = Scalar::one();
        for s in inputs.iter_mut() {
            let i = s.invert();
            acc = acc * i;
            *s = i;
        }
        acc
    }
    pub fn reduce(&self) -> Scalar {
        *self
    }
    pub fn is_canonical(&self) -> bool {
        F::is_canonical(&self.bytes)
    }
}

impl Debug for Scalar {
    fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
        write!(f, "Scalar{{\n\tbytes: {:?},\n}}", &self.bytes)
    }
}
impl Eq for Scalar {}
impl PartialEq for Scalar {
    fn eq(&self, other: &Self) -> bool {
        self.bytes == other.bytes
    }
}
impl ConstantTimeEq for Scalar {
    fn ct_eq(&self, other: &Self) -> Choice {
        self.bytes.ct_eq(&other.bytes)
    }
}
impl Index<usize> for Scalar {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.bytes[i]
    }
}


impl<'a, 'b> Add<&'b Scalar> for &'a Scalar {
    type Output = Scalar;
    fn add(self, o: &'b Scalar) -> Scalar {
        Scalar::from_f(F::add(self.f(), o.f()))
    }
}
impl<'b> Add<&'b Scalar> for Scalar {
    type Output = Scalar;
    fn add(self, o: &'b Scalar) -> Scalar {
        Scalar::from_f(F::add(self.f(), o.f()))
    }
}
impl<'a> Add<Scalar> for &'a Scalar {
    type Output = Scalar;
    fn add(self, o: Scalar) -> Scalar {
        Scalar::from_f(F::add(self.f(), o.f()))
    }
}
impl Add<Scalar> for Scalar {
    type Output = Scalar;
    fn add(self, o: Scalar) -> Scalar {
        Scalar::from_f(F::add(self.f(), o.f()))
    }
}
impl<'b> AddAssign<&'b Scalar> for Scalar {
    fn add_assign(&mut self, o: &'b Scalar) {
        *self = Scalar::from_f(F::add(self.f(), o.f()));
    }
}
impl AddAssign<Scalar> for Scalar {
    fn add_assign(&mut self, o: Scalar) {
        *self = Scalar::from_f(F::add(self.f(), o.f()));
    }
}

impl<'a, 'b> Sub<&'b Scalar> for &'a Scalar {
    type Output = Scalar;
    fn sub(self, o: &'b Scalar) -> Scalar {
        Scalar::from_f(F::sub(self.f(), o.f()))
    }
}
impl<'b> Sub<&'b Scalar> for Scalar {
    type Output = Scalar;
    fn sub(self, o: &'b Scalar) -> Scalar {
        Scalar::from_f(F::sub(self.f(), o.f()))
    }
}
impl<'a> Sub<Scalar> for &'a Scalar {
    type Output = Scalar;
    fn sub(self, o: Scalar) -> Scalar {
        Scalar::from_f(F::sub(self.f(), o.f()))
    }
}
impl Sub<Scalar> for Scalar {
    type Output = Scalar;
    fn sub(self, o: Scalar) -> Scalar {
        Scalar::from_f(F::sub(self.f(), o.f()))
    }
}
impl<'b> SubAssign<&'b Scalar> for Scalar {
    fn sub_assign(&mut self, o: &'b Scalar) {
        *self = Scalar::from_f(F::sub(self.f(), o.f()));
    }
}
impl SubAssign<Scalar> for Scalar {
    fn sub_assign(&mut self, o: Scalar) {
        *self = Scalar::from_f(F::sub(self.f(), o.f()));
    }
}

impl<'a, 'b> Mul<&'b Scalar> for &'a Scalar {
    type Output = Scalar;
    fn mul(self, o: &'b Scalar) -> Scalar {
        Scalar::from_f(F::mul(self.f(), o.f()))
    }
}
impl<'b> Mul<&'b Scalar> for Scalar {
    type Output = Scalar;
    fn mul(self, o: &'b Scalar) -> Scalar {
        Scalar::from_f(F::mul(self.f(), o.f()))
    }
}
impl<'a> Mul<Scalar> for &'a Scalar {
    type Output = Scalar;
    fn mul(self, o: Scalar) -> Scalar {
        Scalar::from_f(F::mul(self.f(), o.f()))
    }
}
impl Mul<Scalar> for Scalar {
    type Output = Scalar;
    fn mul(self, o: Scalar) -> Scalar {
        Scalar::from_f(F::mul(self.f(), o.f()))
    }
}
impl<'b> MulAssign<&'b Scalar> for Scalar {
    fn mul_assign(&mut self, o: &'b Scalar) {
        *self = Scalar::from_f(F::mul(self.f(), o.f()));
    }
}
impl MulAssign<Scalar> for Scalar {
    fn mul_assign(&mut self, o: Scalar) {
        *self = Scalar::from_f(F::mul(self.f(), o.f()));
    }
}

impl<'a> Neg for &'a Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        Scalar::from_f(F::ZERO.sub(self.f()))
    }
}
impl Neg for Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        -&self
    }
}
impl ConditionallySelectable for Scalar {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        if choice.unwrap_u8() == 1 { *b } else { *a }
    }
}
impl<T> Product<T> for Scalar
where
    T: Borrow<Scalar>,
{
    fn product<I: Iterator<Item = T>>(iter: I) -> Self {
        iter.fold(Scalar::one(), |acc, item| acc * item.borrow())
    }
}
impl<T> Sum<T> for Scalar
where
    T: Borrow<Scalar>,
{
    fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
        iter.fold(Scalar::zero(), |acc, item| acc + item.borrow())
    }
}
impl Default for Scalar {
    fn default() -> Scalar {
        Scalar::zero()
    }
}
impl From<u8> for Scalar {
    fn from(x: u8) -> Scalar {
        Scalar::from_f(F::from_le(&x.to_le_bytes()))
    }
}
impl From<u16> for Scalar {
    fn from(x: u16) -> Scalar {
        Scalar::from_f(F::from_le(&x.to_le_bytes()))
    }
}
impl From<u32> for Scalar {
    fn from(x: u32) -> Scalar {
        Scalar::from_f(F::from_le(&x.to_le_bytes()))
    }
}
impl From<u64> for Scalar {
    fn from(x: u64) -> Scalar {
        Scalar::from_f(F::from_le(&x.to_le_bytes()))
    }
}
impl From<u128> for Scalar {
    fn from(x: u128) -> Scalar {
        Scalar::from_f(F::from_le(&x.to_le_bytes()))
    }
}
impl Zeroize for Scalar {
    fn zeroize(&mut self) {
        self.bytes.zeroize();
    }
}
