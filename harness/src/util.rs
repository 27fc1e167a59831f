//! Shared bodies.
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::world::*;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use mcrt::{Kind, Mode, Policy};
use merlin::Transcript;

pub const SMALL: bool = cfg!(feature = "model");
pub const BIG: bool = cfg!(feature = "big");
pub const MIXED: bool = cfg!(feature = "mixed");
pub const REAL: bool = cfg!(feature = "real");

/// inputs and tampering in full; coins and challenges as given
pub fn pol(coin: Mode, chal: Mode, budget: u32, base: u64) -> Policy {
    Policy { modes: [Mode::Full, coin, chal, Mode::Full], budget, base }
}
pub fn fixed() -> Policy {
    pol(Mode::Fixed, Mode::Fixed, 0, 1)
}
pub fn bases(coin: Mode, chal: Mode, budget: u32, n: u64) -> Vec<Policy> {
    (0..n).map(|b| pol(coin, chal, budget, 1 + b)).collect()
}
pub const ALLD: Mode = Mode::Dev { alts: 0 };

pub const CONTEXTS: u32 = 5;
/// Initial transcripts.  1..: same as 0 except for one thing the caller did before.
pub fn transcript(ctx: u32) -> Transcript {
    let mut t = if ctx == 1 { Transcript::new(b"other") } else { Transcript::new(b"mc") };
    match ctx {
        2 => t.append_message(b"m", b"hello"),
        3 => t.append_u64(b"n", 4),
        4 => {
            t.append_message(b"m", b"");
            let mut b = [0u8; 64];
            t.challenge_bytes(b"c", &mut b);
        }
        _ => (),
    }
    t
}

/// the honest prover is accepted
pub fn complete(i: &Inst, ctx: u32) -> V {
    match honest(i, ctx) {
        Ok(_) => V::Ok,
        Err(m) => {
            if SMALL && mcrt::inv0() > 0 {
                V::Exempt
            } else {
                V::Fail(m)
            }
        }
    }
}
pub fn honest(i: &Inst, ctx: u32) -> Result<Node, String> {
    let pf = match guarded(|| prove(i.proto, &mut transcript(ctx), &i.st, &i.wit)) {
        Ok(p) => p,
        Err(m) => return Err(format!("{:?}: prover aborted: {}", i.proto, m)),
    };
    match guarded(|| verify(i.proto, &mut transcript(ctx), &i.st, &pf)) {
        Ok(true) => Ok(pf),
        Ok(false) => Err(format!("{:?}: honest proof rejected", i.proto)),
        Err(m) => Err(format!("{:?}: verifier aborted on an honest proof: {}", i.proto, m)),
    }
}
/// accepted? (a panic is not acceptance)
pub fn accepts(p: Proto, ctx: u32, st: &Node, pf: &Node) -> bool {
    guarded(|| verify(p, &mut transcript(ctx), st, pf)).unwrap_or(false)
}

/// fixed answers for the next `k` challenges, themselves chosen by the explorer
pub fn script(k: usize) -> Vec<u32> {
    let (off, dom) = mcrt::chal_domain();
    (0..k).map(|_| mcrt::choose(Kind::Chal, dom) + off).collect()
}

// ---- perturbations ----------------------------------------------------------

pub const PT_OPS: u32 = 8;
pub const SC_OPS: u32 = 7;
fn sibling<'a>(all: &'a [Node], me: &Node) -> Option<&'a Node> {
    all.iter().find(|x| *x != me)
}
fn pt_op(op: u32, p: RistrettoPoint, gens: &[RistrettoPoint], sib: Option<RistrettoPoint>) -> Option<RistrettoPoint> {
    Some(match op {
        0 => p + gens[0],
        1 => p + gens[gens.len() - 1],
        2 => p + gens[gens.len() / 2] * gsc_nz(991),
        3 => -p,
        4 => RistrettoPoint::identity(),
        5 => p + p,
        6 => sib?,
        _ => gens[0],
    })
}
fn sc_op(op: u32, s: Scalar, sib: Option<Scalar>) -> Option<Scalar> {
    Some(match op {
        0 => s + Scalar::one(),
        1 => s + gsc_nz(992),
        2 => -s,
        3 => Scalar::zero(),
        4 => s + s,
        5 => Scalar::one(),
        _ => sib?,
    })
}
pub fn op_count(n: &Node) -> u32 {
    match n {
        P(_) | C(_) => PT_OPS,
        S(_) => SC_OPS,
        U(_) => 2,
        L(_) => 0,
    }
}
/// Changed value of a leaf, or None if this operation does not change it.
pub fn perturb(leaf: &Node, op: u32, gens: &[RistrettoPoint], all: &[Node]) -> Option<Node> {
    let r = match leaf {
        P(p) => P(pt_op(op, *p, gens, all.iter().filter(|x| matches!(x, P(_))).find(|x| *x != leaf).map(|x| x.p()))?),
        C(c) => {
            let sib = sibling(&all.iter().filter(|x| matches!(x, C(_))).cloned().collect::<Vec<_>>(), leaf).and_then(|x| x.c().decompress());
            C(pt_op(op, c.decompress()?, gens, sib)?.compress())
        }
        S(s) => {
            let sib = all.iter().filter(|x| matches!(x, S(_))).find(|x| *x != leaf).map(|x| x.s());
            S(sc_op(op, *s, sib)?)
        }
        U(u) => U(if op == 0 { u + 1 } else { u.checked_sub(1)? }),
        L(_) => return None,
    };
    if r == *leaf {
        None
    } else {
        Some(r)
    }
}
/// the generators of a statement
pub fn gens(p: Proto, st: &Node) -> Vec<RistrettoPoint> {
    match p {
        Ipa | Alm | Inner | Zk | Proto::Copy => {
            let mut v = st.at(0).vp();
            v.extend(st.at(1).vp());
            v.push(st.at(2).p());
            v
        }
        _ => st.at(0).mp().concat(),
    }
}
pub fn undecodable(k: u32) -> CompressedRistretto {
    let mut b = [0xffu8; 32];
    if k == 1 {
        // not a canonical field element of curve25519, nor packed coefficients
        b = [0u8; 32];
        b[31] = 0x80;
    } else if k == 2 {
        b[0] = 0x01;
    }
    CompressedRistretto(b)
}
pub fn all_leaves(n: &Node) -> Vec<Node> {
    n.leaves().iter().map(|p| n.get(p).clone()).collect()
}
