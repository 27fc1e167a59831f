//! The nine protocols of the library behind one interface.
use crate::node::Node::{self, *};
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;
use qesa::lmpa::{no_zk as lnz, simple_zk as lsz};
use qesa::matrix::BlockMatrix;
use qesa::qesa_zk;
use qesa::verif::{alm_zk, copy, no_zk, qesa_inner};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Proto {
    /// statement [G, H, Q, n, P, t], witness [a, b]
    Ipa,
    /// statement [G, H, Q, n, C_w, t], witness [a, b]
    Alm,
    /// statement [G, H, Q, gamma], witness [w, r']
    Inner,
    /// statement [G, H, Q, gamma], witness [w]
    Zk,
    /// statement [G, H, Q, gamma, map, commitments], witness [w, openings]
    Copy,
    /// statement [A, t, G, H, Q, n], witness [w]
    Lmpa,
    /// statement [A, t, n, m, k, one, zero], witness [w]
    LmpaK,
    /// statement [A, t, G, H, Q, n], witness [w]
    Simple,
    /// statement [A, t, n, m, k], witness [w]
    SimpleK,
}
pub use Proto::*;
pub const ALL: [Proto; 9] = [Ipa, Alm, Inner, Zk, Proto::Copy, Lmpa, LmpaK, Simple, SimpleK];

pub fn ipa_node(p: &no_zk::NoZK) -> Node {
    let (l, r, a, b) = p.verif_parts();
    L(vec![Node::cps(&l), Node::cps(&r), S(a), S(b)])
}
fn ipa_of(n: &Node) -> no_zk::NoZK {
    no_zk::NoZK::verif_from(n.at(0).vc(), n.at(1).vc(), n.at(2).s(), n.at(3).s())
}
fn alm_node(p: &alm_zk::AlmZK) -> Node {
    let (c, i) = p.verif_parts();
    L(vec![C(c), ipa_node(&i)])
}
fn alm_of(n: &Node) -> alm_zk::AlmZK {
    alm_zk::AlmZK::verif_from(n.at(0).c(), ipa_of(n.at(1)))
}
pub fn inner_node(p: &qesa_inner::Inner) -> Node {
    let (c1, c2, a) = p.verif_parts();
    L(vec![C(c1), C(c2), alm_node(&a)])
}
pub fn inner_of(n: &Node) -> qesa_inner::Inner {
    qesa_inner::Inner::verif_from(n.at(0).c(), n.at(1).c(), alm_of(n.at(2)))
}
fn copy_of(n: &Node) -> copy::Copy {
    copy::Copy::verif_from(n.at(0).c(), inner_of(n.at(1)))
}
fn lmpa_node(p: &lnz::NoZK) -> Node {
    let (l, r, w) = p.verif_parts();
    L(vec![Node::pmat(&l), Node::pmat(&r), S(w)])
}
fn lmpa_of(n: &Node) -> lnz::NoZK {
    lnz::NoZK::verif_from(n.at(0).mp(), n.at(1).mp(), n.at(2).s())
}
fn lmpak_node(p: &lnz::lmpa_noZK) -> Node {
    let (a, t, w, u) = p.verif_parts();
    L(vec![Node::pmat(&a), Node::pts(&t), Node::scs(&w), L(u.iter().map(|b| Node::pmat(b)).collect())])
}
fn lmpak_of(n: &Node) -> lnz::lmpa_noZK {
    lnz::lmpa_noZK::verif_from(n.at(0).mp(), n.at(1).vp(), n.at(2).vs(), n.at(3).list().iter().map(|b| b.mp()).collect())
}
pub fn block(n: &Node) -> BlockMatrix {
    let mut b = BlockMatrix::new();
    for m in n.list() {
        b.push(m.ms());
    }
    b
}
pub fn map_node(m: &copy::Mapping) -> Node {
    let (n, msgs, idx, last) = m.verif_parts();
    L(vec![
        U(n as u64),
        L(msgs.iter().map(|(a, b, c, d)| L(vec![U(*a as u64), U(*b as u64), U(*c as u64), U(*d as u64)])).collect()),
        L(idx.iter().map(|i| U(*i as u64)).collect()),
        U(last as u64),
    ])
}
pub fn map_of(n: &Node) -> copy::Mapping {
    copy::Mapping::verif_from(
        n.at(0).u(),
        n.at(1).list().iter().map(|m| (m.at(0).u(), m.at(1).u() as u16, m.at(2).u() as u16, m.at(3).u() as u16)).collect(),
        n.at(2).list().iter().map(|i| i.u() as u16).collect::<BTreeSet<u16>>(),
        n.at(3).u() as u16,
    )
}
pub fn openings_node(o: &[(Vec<Scalar>, Scalar)]) -> Node {
    L(o.iter().map(|(m, r)| L(vec![Node::scs(m), S(*r)])).collect())
}

pub fn prove(p: Proto, tr: &mut Transcript, st: &Node, wit: &Node) -> Node {
    match p {
        Ipa => ipa_node(&no_zk::create(tr, st.at(0).vp(), st.at(1).vp(), &st.at(2).p(), wit.at(0).vs(), wit.at(1).vs())),
        Alm => alm_node(&alm_zk::create(
            tr,
            st.at(0).vp(),
            st.at(1).vp(),
            &st.at(2).p(),
            st.at(4).p(),
            wit.at(0).vs(),
            wit.at(1).vs(),
            st.at(5).s(),
        )),
        Inner => inner_node(&qesa_inner::create(
            tr,
            st.at(0).vp(),
            st.at(1).vp(),
            &st.at(2).p(),
            &block(st.at(3)),
            wit.at(0).vs(),
            wit.at(1).vs(),
        )),
        Zk => inner_node(
            &qesa_zk::create(tr, st.at(0).vp(), st.at(1).vp(), st.at(2).p(), &block(st.at(3)), wit.at(0).vs()).verif_parts(),
        ),
        Proto::Copy => {
            let openings = wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
            let (c, i) = copy::create(
                tr,
                st.at(0).vp(),
                st.at(1).vp(),
                &st.at(2).p(),
                map_of(st.at(4)),
                block(st.at(3)),
                wit.at(0).vs(),
                openings,
            )
            .verif_parts();
            L(vec![C(c), inner_node(&i)])
        }
        Lmpa => lmpa_node(&lnz::create(tr, st.at(0).mp(), st.at(2).vp(), st.at(3).vp(), &st.at(4).p(), wit.at(0).vs())),
        LmpaK => lmpak_node(&lnz::create_lmpa_noZK(
            tr,
            st.at(0).mp(),
            wit.at(0).vs(),
            st.at(1).vp(),
            st.at(2).u(),
            st.at(3).u(),
            st.at(4).u(),
            st.at(5).s(),
            st.at(6).p(),
        )),
        Simple => {
            let pr = lsz::create(tr, st.at(0).mp(), st.at(2).vp(), st.at(3).vp(), &st.at(4).p(), wit.at(0).vs());
            let (a, n) = pr.verif_parts();
            L(vec![Node::pts(a), lmpa_node(n)])
        }
        SimpleK => {
            let pr = lsz::create_general(
                tr,
                st.at(0).mp(),
                wit.at(0).vs(),
                st.at(1).vp(),
                st.at(2).u(),
                st.at(3).u(),
                st.at(4).u(),
            );
            let (a, n) = pr.verif_parts();
            L(vec![Node::pts(a), lmpak_node(n)])
        }
    }
}

pub fn verify(p: Proto, tr: &mut Transcript, st: &Node, pf: &Node) -> bool {
    match p {
        Ipa => ipa_of(pf).verify(tr, &st.at(0).vp(), &st.at(1).vp(), &st.at(2).p(), st.at(3).u(), st.at(4).p(), st.at(5).s()),
        Alm => alm_of(pf).verify(tr, &st.at(0).vp(), &st.at(1).vp(), &st.at(2).p(), st.at(3).u(), st.at(4).p(), st.at(5).s()),
        Inner => inner_of(pf).verify(tr, st.at(0).vp(), st.at(1).vp(), &st.at(2).p(), &block(st.at(3))),
        Zk => qesa_zk::Zk::verif_from(inner_of(pf)).verify(tr, st.at(0).vp(), st.at(1).vp(), &st.at(2).p(), &block(st.at(3))),
        Proto::Copy => copy_of(pf).verif_verify(
            tr,
            st.at(0).vp(),
            st.at(1).vp(),
            &st.at(2).p(),
            block(st.at(3)),
            map_of(st.at(4)),
            st.at(5).vp(),
        ),
        Lmpa => lmpa_of(pf).verify(tr, st.at(0).mp(), st.at(2).vp(), st.at(3).vp(), &st.at(4).p(), st.at(5).u(), st.at(1).vp()),
        LmpaK => lmpak_of(pf).verify_lmpa_noZK(
            tr,
            st.at(0).mp(),
            st.at(1).vp(),
            st.at(2).u(),
            st.at(3).u(),
            st.at(4).u(),
            st.at(5).s(),
            st.at(6).p(),
        ),
        Simple => lsz::SimpleZK::verif_from(pf.at(0).vp(), lmpa_of(pf.at(1))).verify(
            tr,
            st.at(0).mp(),
            st.at(2).vp(),
            st.at(3).vp(),
            &st.at(4).p(),
            st.at(5).u(),
            st.at(1).vp(),
        ),
        SimpleK => lsz::SimpleZK_general::verif_from(pf.at(0).vp(), lmpak_of(pf.at(1))).verify_general(
            tr,
            st.at(0).mp(),
            st.at(1).vp(),
            st.at(2).u(),
            st.at(3).u(),
            st.at(4).u(),
        ),
    }
}

/// Leaves of a statement whose change makes it a different, still well-formed statement.
/// (The generators handed to the LMPA protocols are not part of the claim, and the
/// neutral elements of the k-ary ones are constants.)
pub fn statement_leaves(p: Proto, st: &Node) -> Vec<Vec<usize>> {
    st.leaves()
        .into_iter()
        .filter(|q| match p {
            Ipa | Alm => q[0] != 3,
            Inner | Zk => true,
            // of the mapping: index, commitment and slot of each message
            Proto::Copy => q[0] != 4 || (q[1] == 1 && q[3] != 0),
            Lmpa | Simple => q[0] <= 1,
            LmpaK | SimpleK => q[0] <= 1,
        })
        .collect()
}

pub fn zero_point() -> RistrettoPoint {
    RistrettoPoint::identity()
}
