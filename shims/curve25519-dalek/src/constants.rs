use crate::ristretto::{CompressedRistretto, RistrettoPoint, RistrettoBasepointTable};
use crate::ristretto::DMAX;
use crate::field::F;
const fn bp() -> RistrettoPoint {
    let mut c = [F::ZERO; DMAX];
    c[0] = F::ONE;
    RistrettoPoint { c }
}
pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = bp();
pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = {
    let mut b = [0u8; 32];
    b[0] = 1;
    CompressedRistretto(b)
};
pub const RISTRETTO_BASEPOINT_TABLE: RistrettoBasepointTable = RistrettoBasepointTable(bp());
