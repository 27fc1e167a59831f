//! Access to the formal structure, for oracles.
use crate::field::F;
use crate::ristretto::{CompressedRistretto, RistrettoPoint, DMAX};
use crate::scalar::Scalar;

/// number of formal generators in this configuration
pub fn dim() -> usize {
    mcrt::dim()
}
/// the i-th formal generator
pub fn basis(i: usize) -> RistrettoPoint {
    assert!(i < mcrt::dim() && i < DMAX, "formal generator {} of {}", i, mcrt::dim());
    let mut c = [F::ZERO; DMAX];
    c[i] = F::ONE;
    RistrettoPoint { c }
}
/// coefficients with respect to the formal generators
pub fn coeffs(p: &RistrettoPoint) -> Vec<Scalar> {
    p.c[..mcrt::dim()].iter().map(|x| Scalar::from_f(*x)).collect()
}
pub fn point(c: &[Scalar]) -> RistrettoPoint {
    let mut o = [F::ZERO; DMAX];
    for (i, s) in c.iter().enumerate() {
        o[i] = s.f();
    }
    RistrettoPoint { c: o }
}
pub fn val(s: &Scalar) -> u64 {
    s.f().to_u64()
}
pub fn reset() {
    crate::ristretto::reset_table();
}
pub fn undecodable() -> CompressedRistretto {
    CompressedRistretto([0xff; 32])
}
/// Run something and return, besides its result, the differences of all elements it compared.
pub fn watching<T>(f: impl FnOnce() -> T) -> (T, Vec<RistrettoPoint>) {
    crate::ristretto::watch(true);
    let r = f();
    (r, crate::ristretto::watch(false))
}
