use crate::field::F;
use crate::scalar::Scalar;
use crate::traits::{Identity, MultiscalarMul, VartimeMultiscalarMul};
use core::borrow::Borrow;
use core::fmt::Debug;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use digest::generic_array::typenum::U64;
use digest::Digest;
use rand_core::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::collections::HashMap;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

#[cfg(not(feature = "big"))]
pub const DMAX: usize = 72;
#[cfg(feature = "big")]
pub const DMAX: usize = 40;

/// An element of the ideal group: a formal linear combination of generators.
#[derive(Copy, Clone)]
pub struct RistrettoPoint {
    pub(crate) c: [F; DMAX],
}

#[derive(Copy, Clone, Eq)]
pub struct CompressedRistretto(pub [u8; 32]);

impl PartialEq for CompressedRistretto {
    fn eq(&self, o: &CompressedRistretto) -> bool {
        if WATCH.with(|w| w.borrow().is_some()) {
            if let (Some(a), Some(b)) = (self.decompress(), o.decompress()) {
                seen(&a, &b);
            }
        }
        self.0 == o.0
    }
}
impl core::hash::Hash for CompressedRistretto {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

thread_local! {
    static WATCH: RefCell<Option<Vec<RistrettoPoint>>> = const { RefCell::new(None) };
}
/// differences of the elements compared from now on are kept / the ones kept so far
pub(crate) fn watch(on: bool) -> Vec<RistrettoPoint> {
    WATCH.with(|w| std::mem::replace(&mut *w.borrow_mut(), if on { Some(vec![]) } else { None })).unwrap_or_default()
}
fn seen(a: &RistrettoPoint, b: &RistrettoPoint) {
    WATCH.with(|w| {
        if let Some(v) = w.borrow_mut().as_mut() {
            v.push(a - b)
        }
    })
}

thread_local! {
    static TABLE: RefCell<HashMap<[u8; 32], RistrettoPoint>> = RefCell::new(HashMap::new());
}
pub(crate) fn reset_table() {
    TABLE.with(|t| t.borrow_mut().clear());
}

impl ConstantTimeEq for CompressedRistretto {
    fn ct_eq(&self, other: &CompressedRistretto) -> Choice {
        Choice::from((self == other) as u8)
    }
}
impl CompressedRistretto {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn from_slice(bytes: &[u8]) -> CompressedRistretto {
        let mut t = [0u8; 32];
        t.copy_from_slice(bytes);
        CompressedRistretto(t)
    }
    /// Encoding is injective; bytes that encode no element decode to None.
    pub fn decompress(&self) -> Option<RistrettoPoint> {
        let d = mcrt::dim();
        let bits = F::bits();
        if d * bits <= 248 {
            let mut c = [F::ZERO; DMAX];
            let mut pos = 0usize;
            let mut get = |n: usize| {
                let mut v = 0u64;
                for i in 0..n {
                    v |= (((self.0[(pos + i) / 8] >> ((pos + i) % 8)) & 1) as u64) << i;
                }
                pos += n;
                v
            };
            for x in c.iter_mut().take(d) {
                let v = get(bits);
                if v >= mcrt::p() as u64 {
                    return None;
                }
                *x = F::from_le(&v.to_le_bytes());
            }
            for i in d * bits..256 {
                if (self.0[i / 8] >> (i % 8)) & 1 == 1 {
                    return None;
                }
            }
            Some(RistrettoPoint { c })
        } else if self.0 == [0u8; 32] {
            Some(RistrettoPoint::identity())
        } else {
            TABLE.with(|t| t.borrow().get(&self.0).copied())
        }
    }
}
impl Identity for CompressedRistretto {
    fn identity() -> CompressedRistretto {
        CompressedRistretto([0u8; 32])
    }
}
impl Default for CompressedRistretto {
    fn default() -> CompressedRistretto {
        CompressedRistretto::identity()
    }
}
impl Debug for CompressedRistretto {
    fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
        write!(f, "CompressedRistretto: {:?}", self.as_bytes())
    }
}
impl Debug for RistrettoPoint {
    fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
        write!(f, "RistrettoPoint: {:?}", &self.c[..mcrt::dim()])
    }
}

impl RistrettoPoint {
    #[inline(always)]
    fn zip(&self, o: &RistrettoPoint, f: impl Fn(F, F) -> F) -> RistrettoPoint {
        let mut c = [F::ZERO; DMAX];
        for i in 0..mcrt::dim() {
            c[i] = f(self.c[i], o.c[i]);
        }
        RistrettoPoint { c }
    }
    #[inline(always)]
    fn scale(&self, s: F) -> RistrettoPoint {
        let mut c = [F::ZERO; DMAX];
        for i in 0..mcrt::dim() {
            c[i] = self.c[i].mul(s);
        }
        RistrettoPoint { c }
    }
    pub fn compress(&self) -> CompressedRistretto {
        let d = mcrt::dim();
        let bits = F::bits();
        let mut o = [0u8; 32];
        if d * bits <= 248 {
            let mut pos = 0;
            for i in 0..d {
                let v = self.c[i].to_u64();
                for b in 0..bits {
                    o[(pos + b) / 8] |= (((v >> b) & 1) as u8) << ((pos + b) % 8);
                }
                pos += bits;
            }
            return CompressedRistretto(o);
        }
        if self.c[..d].iter().all(|x| *x == F::ZERO) {
            return CompressedRistretto(o);
        }
        let mut h = [1u64, 2, 3, 4];
        for x in &self.c[..d] {
            for w in x.put().chunks(8) {
                let w = u64::from_le_bytes(w.try_into().unwrap());
                for (k, hh) in h.iter_mut().enumerate() {
                    *hh = mcrt::mix(*hh ^ w.rotate_left(13 * k as u32));
                }
                if x.put()[2..].iter().all(|b| *b == 0) {
                    break;
                }
            }
        }
        for k in 0..4 {
            o[8 * k..8 * k + 8].copy_from_slice(&h[k].to_le_bytes());
        }
        o[31] &= 0x7f;
        o[0] |= 1;
        TABLE.with(|t| {
            let mut t = t.borrow_mut();
            if let Some(q) = t.get(&o) {
                assert!(q.c[..d] == self.c[..d], "encoding collision in the model group");
            } else {
                t.insert(o, *self);
            }
        });
        CompressedRistretto(o)
    }
    pub fn random<R: RngCore + CryptoRng>(_rng: &mut R) -> Self {
        crate::model::basis(mcrt::next_fresh() as usize % mcrt::dim())
    }
    pub fn from_uniform_bytes(bytes: &[u8; 64]) -> RistrettoPoint {
        let h = bytes.chunks(8).fold(5u64, |h, c| mcrt::mix(h ^ u64::from_le_bytes(c.try_into().unwrap())));
        crate::model::basis(h as usize % mcrt::dim())
    }
    pub fn hash_from_bytes<D>(input: &[u8]) -> RistrettoPoint
    where
        D: Digest<OutputSize = U64> + Default,
    {
        let mut h = D::default();
        h.input(input);
        RistrettoPoint::from_hash(h)
    }
    pub fn from_hash<D>(hash: D) -> RistrettoPoint
    where
        D: Digest<OutputSize = U64> + Default,
    {
        let mut o = [0u8; 64];
        o.copy_from_slice(hash.result().as_slice());
        RistrettoPoint::from_uniform_bytes(&o)
    }
    pub fn double_and_compress_batch<'a, I>(points: I) -> Vec<CompressedRistretto>
    where
        I: IntoIterator<Item = &'a RistrettoPoint>,
    {
        points.into_iter().map(|p| (p + p).compress()).collect()
    }
    pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, pt: &RistrettoPoint, b: &Scalar) -> RistrettoPoint {
        a * pt + b * crate::constants::RISTRETTO_BASEPOINT_POINT
    }
}
impl Identity for RistrettoPoint {
    fn identity() -> RistrettoPoint {
        RistrettoPoint { c: [F::ZERO; DMAX] }
    }
}
impl Default for RistrettoPoint {
    fn default() -> RistrettoPoint {
        RistrettoPoint::identity()
    }
}
impl PartialEq for RistrettoPoint {
    fn eq(&self, o: &RistrettoPoint) -> bool {
        let d = mcrt::dim();
        seen(self, o);
        self.c[..d] == o.c[..d]
    }
}
impl Eq for RistrettoPoint {}
impl ConstantTimeEq for RistrettoPoint {
    fn ct_eq(&self, o: &RistrettoPoint) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConditionallySelectable for RistrettoPoint {
    fn conditional_select(a: &RistrettoPoint, b: &RistrettoPoint, choice: Choice) -> RistrettoPoint {
        if choice.unwrap_u8() == 1 { *b } else { *a }
    }
}
impl<T> Sum<T> for RistrettoPoint
where
    T: Borrow<RistrettoPoint>,
{
    fn sum<I>(iter: I) -> Self
    where
        I: Iterator<Item = T>,
    {
        iter.fold(RistrettoPoint::identity(), |acc, item| acc + item.borrow())
    }
}
impl<'a> Neg for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn neg(self) -> RistrettoPoint {
        RistrettoPoint::identity().zip(self, F::sub)
    }
}
impl Neg for RistrettoPoint {
    type Output = RistrettoPoint;
    fn neg(self) -> RistrettoPoint {
        -&self
    }
}
fn msm<I, J>(scalars: I, points: J) -> RistrettoPoint
where
    I: IntoIterator,
    I::Item: Borrow<Scalar>,
    J: IntoIterator,
    J::Item: Borrow<RistrettoPoint>,
{
    let mut acc = RistrettoPoint::identity();
    for (s, p) in scalars.into_iter().zip(points) {
        let f = s.borrow().f();
        if f == F::ZERO {
            continue;
        }
        let q = p.borrow();
        for i in 0..mcrt::dim() {
            acc.c[i] = acc.c[i].add(q.c[i].mul(f));
        }
    }
    acc
}
fn same_length(s: (usize, Option<usize>), p: (usize, Option<usize>)) {
    // as curve25519-dalek's straus/pippenger entry points
    assert_eq!(s.0, p.0);
    assert_eq!(s.1, Some(s.0));
    assert_eq!(p.1, Some(p.0));
}
impl MultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
    where
        I: IntoIterator,
        I::Item: Borrow<Scalar>,
        J: IntoIterator,
        J::Item: Borrow<RistrettoPoint>,
    {
        let (s, p) = (scalars.into_iter(), points.into_iter());
        same_length(s.size_hint(), p.size_hint());
        msm(s, p)
    }
}
impl VartimeMultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<RistrettoPoint>
    where
        I: IntoIterator,
        I::Item: Borrow<Scalar>,
        J: IntoIterator<Item = Option<RistrettoPoint>>,
    {
        let (s, p) = (scalars.into_iter(), points.into_iter());
        same_length(s.size_hint(), p.size_hint());
        let pts: Option<Vec<RistrettoPoint>> = p.collect();
        Some(msm(s, pts?))
    }
}

#[derive(Clone)]
pub struct RistrettoBasepointTable(pub(crate) RistrettoPoint);
impl<'a, 'b> Mul<&'b Scalar> for &'a RistrettoBasepointTable {
    type Output = RistrettoPoint;
    fn mul(self, s: &'b Scalar) -> RistrettoPoint {
        self.0.scale(s.f())
    }
}
impl<'a, 'b> Mul<&'a RistrettoBasepointTable> for &'b Scalar {
    type Output = RistrettoPoint;
    fn mul(self, t: &'a RistrettoBasepointTable) -> RistrettoPoint {
        t.0.scale(self.f())
    }
}
impl RistrettoBasepointTable {
    pub fn create(b: &RistrettoPoint) -> RistrettoBasepointTable {
        RistrettoBasepointTable(*b)
    }
    pub fn basepoint(&self) -> RistrettoPoint {
        self.0
    }
}

impl<'a, 'b> Add<&'b RistrettoPoint> for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn add(self, o: &'b RistrettoPoint) -> RistrettoPoint {
        self.zip(o, F::add)
    }
}

impl<'a> Add<RistrettoPoint> for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn add(self, o: RistrettoPoint) -> RistrettoPoint {
        self.zip(&o, F::add)
    }
}

impl<'b> Add<&'b RistrettoPoint> for RistrettoPoint {
    type Output = RistrettoPoint;
    fn add(self, o: &'b RistrettoPoint) -> RistrettoPoint {
        self.zip(o, F::add)
    }
}

impl Add<RistrettoPoint> for RistrettoPoint {
    type Output = RistrettoPoint;
    fn add(self, o: RistrettoPoint) -> RistrettoPoint {
        self.zip(&o, F::add)
    }
}

impl<'b> AddAssign<&'b RistrettoPoint> for RistrettoPoint {
    fn add_assign(&mut self, o: &'b RistrettoPoint) {
        *self = self.zip(o, F::add);
    }
}
impl AddAssign<RistrettoPoint> for RistrettoPoint {
    fn add_assign(&mut self, o: RistrettoPoint) {
        *self = self.zip(&o, F::add);
    }
}

impl<'a, 'b> Sub<&'b RistrettoPoint> for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn sub(self, o: &'b RistrettoPoint) -> RistrettoPoint {
        self.zip(o, F::sub)
    }
}

impl<'a> Sub<RistrettoPoint> for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn sub(self, o: RistrettoPoint) -> RistrettoPoint {
        self.zip(&o, F::sub)
    }
}

impl<'b> Sub<&'b RistrettoPoint> for RistrettoPoint {
    type Output = RistrettoPoint;
    fn sub(self, o: &'b RistrettoPoint) -> RistrettoPoint {
        self.zip(o, F::sub)
    }
}

impl Sub<RistrettoPoint> for RistrettoPoint {
    type Output = RistrettoPoint;
    fn sub(self, o: RistrettoPoint) -> RistrettoPoint {
        self.zip(&o, F::sub)
    }
}

impl<'b> SubAssign<&'b RistrettoPoint> for RistrettoPoint {
    fn sub_assign(&mut self, o: &'b RistrettoPoint) {
        *self = self.zip(o, F::sub);
    }
}
impl SubAssign<RistrettoPoint> for RistrettoPoint {
    fn sub_assign(&mut self, o: RistrettoPoint) {
        *self = self.zip(&o, F::sub);
    }
}

impl<'a, 'b> Mul<&'b Scalar> for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn mul(self, o: &'b Scalar) -> RistrettoPoint {
        self.scale(o.f())
    }
}
impl<'a, 'b> Mul<&'a RistrettoPoint> for &'b Scalar {
    type Output = RistrettoPoint;
    fn mul(self, o: &'a RistrettoPoint) -> RistrettoPoint {
        o.scale(self.f())
    }
}

impl<'a> Mul<Scalar> for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn mul(self, o: Scalar) -> RistrettoPoint {
        self.scale(o.f())
    }
}
impl<'a> Mul<&'a RistrettoPoint> for Scalar {
    type Output = RistrettoPoint;
    fn mul(self, o: &'a RistrettoPoint) -> RistrettoPoint {
        o.scale(self.f())
    }
}

impl<'b> Mul<&'b Scalar> for RistrettoPoint {
    type Output = RistrettoPoint;
    fn mul(self, o: &'b Scalar) -> RistrettoPoint {
        self.scale(o.f())
    }
}
impl<'b> Mul<RistrettoPoint> for &'b Scalar {
    type Output = RistrettoPoint;
    fn mul(self, o: RistrettoPoint) -> RistrettoPoint {
        o.scale(self.f())
    }
}

impl Mul<Scalar> for RistrettoPoint {
    type Output = RistrettoPoint;
    fn mul(self, o: Scalar) -> RistrettoPoint {
        self.scale(o.f())
    }
}
impl Mul<RistrettoPoint> for Scalar {
    type Output = RistrettoPoint;
    fn mul(self, o: RistrettoPoint) -> RistrettoPoint {
        o.scale(self.f())
    }
}

impl<'b> MulAssign<&'b Scalar> for RistrettoPoint {
    fn mul_assign(&mut self, o: &'b Scalar) {
        *self = self.scale(o.f());
    }
}
impl MulAssign<Scalar> for RistrettoPoint {
    fn mul_assign(&mut self, o: Scalar) {
        *self = self.scale(o.f());
    }
}
