//! A prover that chooses one thing last.
//!
//! Starting from a rejected proof of a false statement, it moves one message so that the
//! verifier's first failing comparison holds, as if the challenges did not depend on that
//! message.  The formal structure of the model group says how the comparison depends on the
//! message; nothing is assumed about the protocol.  Where every message is fixed before the
//! challenge after it, the challenges move away and the attempt fails.
use super::large::*;
use super::sound::*;
use super::Tier;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
#[cfg(feature = "big")]
use curve25519_dalek::model;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use mcrt::mix;
use qesa::verif::vandemonde_challenge;

#[cfg(feature = "big")]
pub fn misses(p: Proto, st: &Node, pf: &Node) -> (bool, Vec<RistrettoPoint>) {
    model::watching(|| accepts(p, 0, st, pf))
}
#[cfg(not(feature = "big"))]
pub fn misses(p: Proto, st: &Node, pf: &Node) -> (bool, Vec<RistrettoPoint>) {
    (accepts(p, 0, st, pf), vec![])
}
#[cfg(feature = "big")]
pub fn coeffs(p: &RistrettoPoint) -> Vec<Scalar> {
    model::coeffs(p)
}
#[cfg(not(feature = "big"))]
pub fn coeffs(_: &RistrettoPoint) -> Vec<Scalar> {
    vec![]
}
/// c with x = c * d
fn ratio(x: &RistrettoPoint, d: &RistrettoPoint) -> Option<Scalar> {
    let (x, d) = (coeffs(x), coeffs(d));
    let i = d.iter().position(|c| *c != Scalar::zero())?;
    let c = x[i] * d[i].invert();
    if x.iter().zip(&d).all(|(a, b)| *a == c * b) {
        Some(c)
    } else {
        None
    }
}
/// Statement or proof: a leaf of either.
#[derive(Clone, Debug, PartialEq)]
pub struct At {
    pub st: bool,
    pub leaf: Vec<usize>,
}
fn put(st: &Node, pf: &Node, at: &At, x: Node) -> (Node, Node) {
    if at.st {
        (st.with(&at.leaf, x), pf.clone())
    } else {
        (st.clone(), pf.with(&at.leaf, x))
    }
}
/// Something a prover would like to send, as a function of the challenges to come; iterated
/// until the challenges the verifier really draws are the ones it was made for.  A message
/// that is fixed before a challenge it depends on makes that challenge change every time.
pub fn fixpoint(p: Proto, build: impl Fn(&[u32]) -> Option<(Node, Node)>) -> Option<(Node, Node)> {
    let (off, _) = mcrt::chal_domain();
    let mut vals = vec![off; 64];
    let mut good = 0usize;
    let mut first = true;
    loop {
        mcrt::quiet_coins(Some(&[]));
        mcrt::oracle_script(&vals);
        let (st, pf) = build(&vals)?;
        mcrt::quiet_coins(None);
        mcrt::oracle_by_state();
        mcrt::take_draws();
        accepts(p, 0, &st, &pf);
        let new: Vec<u32> = mcrt::take_draws().iter().map(|d| d.val).collect();
        let same = new.iter().zip(&vals).take_while(|(a, b)| a == b).count();
        if same == new.len() {
            return Some((st, pf));
        }
        // by accident the first values may fit
        if !first && same <= good {
            return None;
        }
        first = false;
        good = same;
        vals[..new.len().min(64)].copy_from_slice(&new[..new.len().min(64)]);
    }
}
/// the proof the library makes if it is given these challenges
pub fn prove_with(vals: &[u32], p: Proto, st: &Node, wit: &Node) -> Option<Node> {
    mcrt::oracle_script(vals);
    mcrt::quiet_coins(Some(&[]));
    guarded(|| prove(p, &mut transcript(0), st, wit)).ok()
}
/// The statement and proof with one leaf chosen so that the first failing comparison holds
/// under these challenges; `aux` is another leaf that may be needed to keep earlier ones.
fn repair(vals: &[u32], p: Proto, st: &Node, pf: &Node, at: &At, aux: Option<&At>) -> Option<(Node, Node)> {
    let id = RistrettoPoint::identity();
    let look = |st: &Node, pf: &Node| {
        mcrt::oracle_script(vals);
        misses(p, st, pf).1
    };
    let m0 = look(st, pf);
    let k = m0.iter().position(|d| *d != id)?;
    // earlier comparisons made to hold again
    let keep = |s: (Node, Node)| -> Option<(Node, Node)> {
        match (look(&s.0, &s.1).iter().position(|d| *d != id), aux) {
            (Some(k1), Some(aux)) if k1 < k => repair(vals, p, &s.0, &s.1, aux, None),
            _ => Some(s),
        }
    };
    let leaf = if at.st { st.get(&at.leaf) } else { pf.get(&at.leaf) }.clone();
    let dir = gens(p, st)[0];
    let x: RistrettoPoint = match &leaf {
        P(x) => *x,
        C(c) => c.decompress()?,
        S(s) => {
            let (st1, pf1) = keep(put(st, pf, at, S(s + Scalar::one())))?;
            let m1 = look(&st1, &pf1);
            let c = ratio(&m0[k], &(m1.get(k)? - m0[k]))?;
            return keep(put(st, pf, at, S(s - c)));
        }
        _ => return None,
    };
    let back = |x: RistrettoPoint| if matches!(leaf, C(_)) { C(x.compress()) } else { P(x) };
    let (st1, pf1) = keep(put(st, pf, at, back(x + dir)))?;
    let m1 = look(&st1, &pf1);
    let f = ratio(&(m1.get(k)? - m0[k]), &dir)?;
    if f == Scalar::zero() {
        return None;
    }
    keep(put(st, pf, at, back(x - m0[k] * f.invert())))
}

fn shapes(p: Proto, t: Tier) -> Vec<(usize, u32)> {
    match p {
        Ipa | Alm => t.pick(vec![], vec![(2, 0), (4, 0), (16, 0), (64, 0), (128, 0)], vec![(2, 0), (4, 0), (8, 0), (16, 0), (32, 0), (64, 0), (256, 0)]),
        Inner | Zk => t.pick(vec![], vec![(4, 0), (8, 1), (16, 0), (32, 0), (64, 0)], vec![(4, 0), (8, 1), (8, 2), (16, 1), (32, 0), (64, 0)]),
        Proto::Copy => t.pick(vec![], vec![(8, 0), (8, 1), (16, 2), (32, 0), (16, 16)], vec![(8, 0), (8, 1), (16, 2), (16, 16)]),
        Lmpa | Simple => t.pick(vec![], vec![(2, 1), (4, 2), (4, 17), (32, 0), (128, 0)], vec![(2, 1), (4, 2), (8, 1), (4, 16), (4, 17), (4, 18), (32, 0), (64, 1), (256, 0)]),
        LmpaK | SimpleK => t.pick(vec![], vec![(4, 2), (6, 1), (4, 17), (32, 0), (54, 1), (128, 0), (4, 25), (4, 26), (4, 28)], vec![(4, 2), (8, 2), (6, 1), (4, 16), (4, 17), (4, 18), (4, 22), (4, 25), (4, 26), (4, 27), (4, 28), (4, 29), (32, 0), (54, 1), (128, 0), (128, 1)]),
    }
}
/// the claims of a statement, from the end; the generators only where changing them makes it false
fn claims(p: Proto, st: &Node) -> Vec<Vec<usize>> {
    let lmpa = matches!(p, Lmpa | Simple | LmpaK | SimpleK);
    let mut ls: Vec<_> = statement_leaves(p, st)
        .into_iter()
        .filter(|q| edge_leaf(st, q) && !(p == Proto::Copy && q[0] == 4))
        .filter(|q| q[0] > 2 || q[0] == 2 && p == Ipa || lmpa && q[0] == 1)
        .collect();
    ls.reverse();
    ls
}
fn movable(p: Proto, st: &Node, pf: &Node, q: &[usize]) -> Vec<At> {
    let mut v: Vec<At> = pf.leaves().into_iter().filter(|l| edge_leaf(pf, l)).map(|leaf| At { st: false, leaf }).collect();
    if p == Proto::Copy {
        for c in 0..st.at(5).list().len() {
            if *q != [5, c] {
                v.push(At { st: true, leaf: vec![5, c] });
            }
        }
    }
    v
}
pub fn late(prop: &str, t: Tier, protos: &[Proto]) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for proto in protos.iter().cloned() {
        for (n, v) in shapes(proto, t) {
            for two in [false, true] {
                let kary = matches!(proto, LmpaK | SimpleK);
                if two && !(kary && v > 8) && (n > t.pick(4, 4, 8) || v > 8) {
                    continue;
                }
                // one message (two messages) chosen so that the verifier's own comparison holds
                o.push(
                    Scenario::new(format!("{}/late{}/{:?}/n{}v{}", prop, 1 + two as u32, proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let ls = claims(proto, &i.st);
                        let q = &ls[tam(ls.len().min(if n > 16 { 2 } else { t.pick(4, 12, 40) }) as u32) as usize];
                        let st = match perturb(i.st.get(q), 0, &gens(proto, &i.st), &[]) {
                            Some(x) => i.st.with(q, x),
                            None => return V::Skip,
                        };
                        let pf = match try_prove(&None, proto, 0, &st, &i.wit) {
                            Some(p) => p,
                            None => return V::Skip,
                        };
                        if accepted(&None, proto, 0, &st, &pf) {
                            // nothing false about it: not what is looked for here
                            return V::Skip;
                        }
                        let mut places = movable(proto, &st, &pf, q);
                        if two && v > 8 {
                            // with many rows, what belongs to the row that is wrong
                            places.retain(|a| a.leaf.last() == q.last() && !(a.leaf[0] == 0 && a.leaf.len() == 3));
                        }
                        let a = places[tam(places.len() as u32) as usize].clone();
                        let b = if two { Some(places[tam(places.len() as u32) as usize].clone()) } else { None };
                        if b.as_ref() == Some(&a) {
                            return V::Skip;
                        }
                        let got = fixpoint(proto, |vals| {
                            let pf = prove_with(vals, proto, &st, &i.wit)?;
                            repair(vals, proto, &st, &pf, &a, b.as_ref())
                        });
                        match got {
                            None => V::Ok,
                            Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || {
                                format!("a false statement (changed at {:?}) with {:?} {:?} chosen after a later challenge", q, a, b)
                            }),
                        }
                    })
                    .field(251, 40)
                    .wide()
                .policies(few1(t)),
                );
            }
            if prop == "Q02" && n > t.pick(8, 32, 64) {
                // the same as for Q03
                continue;
            }
            // a proof somebody else made: one message changed, and another one chosen so that the
            // verifier's own comparison holds again
            o.push(
                Scenario::new(format!("{}/late-pair/{:?}/n{}v{}", prop, proto, n, v), move || {
                    let i = standard(proto, n, v);
                    let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                        Some(p) => p,
                        None => return V::Skip,
                    };
                    let places: Vec<Vec<usize>> = pf.leaves().into_iter().filter(|l| edge_leaf(&pf, l)).collect();
                    let (q, a) = (tam(places.len() as u32) as usize, tam(places.len() as u32) as usize);
                    let (q, a) = (&places[q], &places[a]);
                    if q == a || places.len() > 24 && q.last() != a.last() {
                        return V::Skip;
                    }
                    let bad = match perturb(pf.get(q), 0, &gens(proto, &i.st), &[]) {
                        Some(x) => pf.with(q, x),
                        None => return V::Skip,
                    };
                    let at = At { st: false, leaf: a.clone() };
                    let got = fixpoint(proto, |vals| repair(vals, proto, &i.st, &bad, &at, None));
                    match got {
                        None => V::Ok,
                        Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || {
                            format!("a proof changed at {:?} and, chosen after a later challenge, at {:?}", q, a)
                        }),
                    }
                })
                .field(251, 40)
                .wide()
                .policies(few1(t)),
            );
            // a proof of a true statement; the difference to the one claimed made up for in a message
            o.push(
                Scenario::new(format!("{}/late-shift/{:?}/n{}v{}", prop, proto, n, v), move || {
                    let i = standard(proto, n, v);
                    let ls: Vec<_> = claims(proto, &i.st).into_iter().filter(|q| matches!(i.st.get(q), P(_))).collect();
                    if ls.is_empty() {
                        return V::Skip;
                    }
                    let q = &ls[tam(ls.len().min(3) as u32) as usize];
                    let g = gens(proto, &i.st);
                    // an index of the commitment in question: other openings of it are no better
                    let dir = if proto == Proto::Copy { g[2] } else { g[0] };
                    let st = i.st.with(q, P(i.st.get(q).p() + dir));
                    mcrt::take_draws();
                    let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                        Some(p) => p,
                        None => return V::Skip,
                    };
                    let draws = mcrt::take_draws().len();
                    let places: Vec<At> = movable(proto, &st, &pf, q)
                        .into_iter()
                        .filter(|a| !matches!(if a.st { i.st.get(&a.leaf) } else { pf.get(&a.leaf) }, S(_)))
                        // the same row
                        .filter(|a| !(q.len() == 2 && a.leaf.len() > 1 && v > 8 && a.leaf.last() != q.last()))
                        .collect();
                    let a = places[tam(places.len() as u32) as usize].clone();
                    let j = tam(draws.min(6) as u32) as usize;
                    let k = tam(if n > 16 { 6 } else { 2 * POWERS });
                    let got = fixpoint(proto, |vals| {
                        let pf = prove_with(vals, proto, &i.st, &i.wit)?;
                        let f = power(drawn(vals[j]), k / 2);
                        let x = dir * if k % 2 == 0 { f } else { -f };
                        let leaf = if a.st { st.get(&a.leaf) } else { pf.get(&a.leaf) };
                        let new = match leaf {
                            P(y) => P(y + x),
                            C(c) => C((c.decompress()? + x).compress()),
                            _ => return None,
                        };
                        Some(put(&st, &pf, &a, new))
                    });
                    match got {
                        None => V::Ok,
                        Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || {
                            format!("a false statement (changed at {:?}) made up for at {:?}, chosen after challenge {}", q, a, j)
                        }),
                    }
                })
                .field(251, 40)
                .wide()
                .policies(few1(t)),
            );
        }
    }
    o
}
pub fn few1(t: Tier) -> Vec<mcrt::Policy> {
    bases(mcrt::Mode::Fixed, mcrt::Mode::Fixed, 0, t.pick(1, 1, 2))
}

/// The masked argument made from its answer: the mask is what is missing to it, as if the
/// challenge that multiplies the witness were known (or another value were used in its place).
pub fn simulated(prop: &str, t: Tier, protos: &[Proto]) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for proto in protos.iter().cloned() {
        for (n, v) in shapes(proto, t).into_iter().filter(|x| x.0 <= t.pick(0, 32, 128)) {
            o.push(
                Scenario::new(format!("{}/simulated/{:?}/n{}v{}", prop, proto, n, v), move || {
                    let i = standard(proto, n, v);
                    let ls = claims(proto, &i.st);
                    let q = &ls[tam(ls.len().min(3) as u32) as usize];
                    let st = match perturb(i.st.get(q), 0, &gens(proto, &i.st), &[]) {
                        Some(x) => i.st.with(q, x),
                        None => return V::Skip,
                    };
                    let one = Scalar::one();
                    let k = tam(4 * POWERS + 3);
                    let build = |vals: &[u32]| -> Option<(Node, Node)> {
                        let f = match k {
                            0 => one,
                            1 => -one,
                            2 => Scalar::zero(),
                            k => power(drawn(vals[(k as usize - 3) / POWERS as usize]), (k - 3) % POWERS),
                        };
                        let n = if proto == Alm { st.at(3).u() } else { i.wit.at(0).list().len() };
                        let z: Vec<Scalar> = (0..n).map(|k| gsc(7000 + k as u64)).collect();
                        if proto == Alm {
                            let (g, h) = (st.at(0).vp(), st.at(1).vp());
                            let mut b: Vec<Scalar> = (0..n).map(|k| gsc(8000 + k as u64)).collect();
                            let claim = f * f * st.at(5).s();
                            b[n - 1] = b[n - 1] + (claim - ip(&z, &b)) * z[n - 1].invert();
                            let p = lin(&z, &g) + lin(&b, &h);
                            let sub = L(vec![st.at(0).clone(), st.at(1).clone(), st.at(2).clone(), st.at(3).clone(), P(p), S(claim)]);
                            let last = prove_with(&vals[1..], Ipa, &sub, &L(vec![Node::scs(&z), Node::scs(&b)]))?;
                            return Some((st.clone(), L(vec![C((p - st.at(4).p() * f).compress()), last])));
                        }
                        let im = image(&st.at(0).mp(), &z);
                        let a: Vec<RistrettoPoint> = im.iter().zip(st.at(1).vp()).map(|(x, t)| x - t * f).collect();
                        let mut sub = st.with(&[1], Node::pts(&im));
                        let inner = if proto == SimpleK { LmpaK } else { Lmpa };
                        if let (SimpleK, L(l)) = (proto, &mut sub) {
                            l.extend([S(one), P(RistrettoPoint::identity())]);
                        }
                        let last = prove_with(&vals[1..], inner, &sub, &L(vec![Node::scs(&z)]))?;
                        Some((st.clone(), L(vec![Node::pts(&a), last])))
                    };
                    if k == 3 {
                        // the challenges known
                        let vals = vec![mcrt::chal_domain().0; 64];
                        if let Some((st, pf)) = build(&vals) {
                            mcrt::oracle_script(&vals);
                            control("simulated, scripted", accepts(proto, 0, &st, &pf));
                            mcrt::quiet_coins(None);
                            mcrt::oracle_by_state();
                        }
                    }
                    match fixpoint(proto, build) {
                        None => V::Ok,
                        Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || format!("a false statement (changed at {:?}), the mask made from the answer", q)),
                    }
                })
                .field(251, 40)
                .wide()
                .policies(few1(t)),
            );
        }
    }
    o
}

/// The quadratic-system prover with a second commitment chosen after all challenges: not what
/// the batched system makes of the witness, but fulfilling the one equation that is checked.
fn late_second(vals: &[u32], i: &Inst, entry: usize, e: usize, scaled: bool, honest: bool) -> Option<Node> {
    let (mut g, mut h, q) = (i.st.at(0).vp(), i.st.at(1).vp(), i.st.at(2).p());
    let n = g.len();
    let gamma: Vec<Vec<Vec<Scalar>>> = i.st.at(3).list().iter().map(|m| m.ms()).collect();
    let xs = vandemonde_challenge(drawn(vals[0]), n.max(e).max(gamma.len()));
    let s = vandemonde_challenge(drawn(vals[1]), n - 2);
    let b = vandemonde_challenge(drawn(vals[2]), 2);
    let delta = if scaled { drawn(vals[3]) } else { Scalar::one() };
    let mut bat = vec![vec![Scalar::zero(); n - 2]; n - 2];
    for (m, x) in gamma.iter().zip(&xs) {
        for r in 0..n - 2 {
            for c in 0..n - 2 {
                bat[r][c] = bat[r][c] + m[r][c] * x;
            }
        }
    }
    let (w, r) = (i.wit.at(0).vs(), [gsc(611), gsc(612)]);
    let w1: Vec<Scalar> = w.iter().chain(&r).cloned().collect();
    let mut w2: Vec<Scalar> = bat.iter().map(|row| ip(row, &w)).collect();
    w2.extend([-r[1], r[0]]);
    let s1: Vec<Scalar> = s.iter().chain(&b).cloned().collect();
    // the transpose of the batched system, extended by a rotation, times s1
    let mut ts: Vec<Scalar> = (0..n - 2).map(|c| (0..n - 2).fold(Scalar::zero(), |a, r| a + bat[r][c] * s[r])).collect();
    ts.extend([b[1], -b[0]]);
    let t = -(0..n - 2).fold(Scalar::zero(), |a, c| a + s[c] * ts[c]);
    let av: Vec<Scalar> = w1.iter().zip(&s1).map(|(x, y)| x - y).collect();
    let bv = |w2: &[Scalar]| -> Vec<Scalar> { w2.iter().zip(&ts).map(|(x, y)| x + y).collect() };
    let cp = lin(&w1, &g);
    if !honest {
        let e = t - ip(&av, &bv(&w2));
        w2[entry] = w2[entry] + e * av[entry].invert();
    }
    let bv = bv(&w2);
    let cpp = lin(&w2, &h);
    // the power of the challenge that fixes the first entry
    g[0] = g[0] * xs[e - 1].invert();
    h.iter_mut().for_each(|p| *p = *p * delta);
    let cw = lin(&av, &g) + lin(&bv, &h);
    let alm = L(vec![Node::pts(&g), Node::pts(&h), P(q), U(n as u64), P(cw), S(t)]);
    let sub = prove_with(&vals[3 + scaled as usize..], Alm, &alm, &L(vec![Node::scs(&av), Node::scs(&bv)]))?;
    Some(L(vec![C(cp.compress()), C(cpp.compress()), sub]))
}
pub fn late_second_commitment(prop: &str, t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for proto in [Inner, Zk] {
        for (n, k) in [(4usize, 1usize), (8, 3), (16, 17)] {
            o.push(
                Scenario::new(format!("{}/late-second/{:?}/n{}k{}", prop, proto, n, k), move || {
                    let mut wd = World::new(mix(n as u64 ^ 0x5ec0));
                    let c = crs(&mut wd, n);
                    let mut w = wd.scs(1, n - 2);
                    w[0] = Scalar::one();
                    let gamma: Vec<_> = (0..k).map(|i| equation(i as u32 % EQUATIONS, &w, 5 + i as u64)).collect();
                    let what = tam(3);
                    let mut w2 = w.clone();
                    match what {
                        0 => (),
                        1 => w2[n - 3] = w2[n - 3] + gsc(77),
                        _ => w2[1] = w2[1] + Scalar::one(),
                    }
                    let entry = tam(n as u32) as usize;
                    let e = [k + 1, 2, 1][tam(3) as usize];
                    let scaled = tam(2) == 0;
                    let i = qesa_inst(proto, &c, &gamma, &w2, &[]);
                    match fixpoint(proto, |vals| Some((i.st.clone(), late_second(vals, &i, entry, e, scaled, what == 0)?))) {
                        None if what == 0 => control(&format!("late-second scaled={}", scaled), false),
                        Some((st, pf)) if what == 0 => control(&format!("late-second scaled={}", scaled), accepted(&None, proto, 0, &st, &pf)),
                        None => V::Ok,
                        Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || {
                            format!("a violated system, the second commitment (entry {}) chosen after the challenges", entry)
                        }),
                    }
                })
                .wide()
                .policies(few1(t)),
            );
        }
    }
    o
}

/// How the split prover thinks the verifier joins the two commitments.
#[derive(Clone, Copy, Debug)]
struct Join {
    /// where the challenge that scales the second commitment is drawn (after as many others),
    /// if there is one
    at: Option<usize>,
    /// the part of the witness in the second commitment is divided by that challenge
    div: bool,
}
/// The batched equations, what they make of a vector, and the quadratic form of it.
struct Batched(Vec<Vec<Scalar>>);
impl Batched {
    fn new(gamma: &[Vec<Vec<Scalar>>], xs: &[Scalar]) -> Batched {
        let d = gamma[0].len();
        let mut b = vec![vec![Scalar::zero(); d]; d];
        for (m, x) in gamma.iter().zip(xs) {
            for r in 0..d {
                for c in 0..d {
                    b[r][c] = b[r][c] + m[r][c] * x;
                }
            }
        }
        Batched(b)
    }
    fn of(&self, w: &[Scalar]) -> Vec<Scalar> {
        self.0.iter().map(|row| ip(row, w)).collect()
    }
    fn quad(&self, w: &[Scalar]) -> Scalar {
        ip(w, &self.of(w))
    }
}
/// As the prover of quadratic systems, but the first commitment opens to any vector, and the
/// second one contains, besides its part, the difference to a vector fulfilling the batched
/// equation, found by changing one entry.
fn split_witness(vals: &[u32], crs: [&Node; 3], gamma: &[Vec<Vec<Scalar>>], w1: &[Scalar], r: &[Scalar], entry: usize, join: Join) -> Option<Node> {
    let (mut g, mut h, q) = (crs[0].vp(), crs[1].vp(), crs[2].p());
    let n = g.len();
    // challenges in their order
    let mut order = vec![0, 1, 2];
    if let Some(k) = join.at {
        order.insert(k, 3);
    }
    let nth = |what: usize| drawn(vals[order.iter().position(|x| *x == what).unwrap()]);
    let xs = vandemonde_challenge(nth(0), n.max(gamma.len() + 1));
    let s = vandemonde_challenge(nth(1), n - 2);
    let b = vandemonde_challenge(nth(2), 2);
    let delta = if join.at.is_some() { nth(3) } else { Scalar::one() };
    if delta == Scalar::zero() {
        return None;
    }
    let bat = Batched::new(gamma, &xs);
    // the vector that fulfils the equation
    let mut w = w1.to_vec();
    let at = |v: Scalar, w: &mut Vec<Scalar>| {
        w[entry] = v;
        bat.quad(w)
    };
    let (f0, f1, f2) = (at(Scalar::zero(), &mut w), at(Scalar::one(), &mut w), at(fe(2), &mut w));
    let slope = f1 - f0;
    if f2 - f1 != slope || slope == Scalar::zero() {
        // not linear in this entry
        return None;
    }
    w[entry] = -f0 * slope.invert();
    let dif = (w[entry] - w1[entry]) * if join.div { delta.invert() } else { Scalar::one() };
    let first: Vec<Scalar> = w1.iter().chain(r).cloned().collect();
    let open: Vec<Scalar> = w.iter().chain(r).cloned().collect();
    let mut second = bat.of(&w);
    second.extend([-r[1], r[0]]);
    let cp = lin(&first, &g);
    let cpp = lin(&second, &h) + g[entry] * dif;
    let s1: Vec<Scalar> = s.iter().chain(&b).cloned().collect();
    let mut ts: Vec<Scalar> = (0..n - 2).map(|c| (0..n - 2).fold(Scalar::zero(), |a, r| a + bat.0[r][c] * s[r])).collect();
    ts.extend([b[1], -b[0]]);
    let t = -(0..n - 2).fold(Scalar::zero(), |a, c| a + s[c] * ts[c]);
    let av: Vec<Scalar> = open.iter().zip(&s1).map(|(x, y)| x - y).collect();
    let bv: Vec<Scalar> = second.iter().zip(&ts).map(|(x, y)| x + y).collect();
    g[0] = g[0] * xs[gamma.len()].invert();
    h.iter_mut().for_each(|p| *p = *p * delta);
    let cw = lin(&av, &g) + lin(&bv, &h);
    let alm = L(vec![Node::pts(&g), Node::pts(&h), P(q), U(n as u64), P(cw), S(t)]);
    let sub = prove_with(&vals[order.len()..], Alm, &alm, &L(vec![Node::scs(&av), Node::scs(&bv)]))?;
    Some(L(vec![C(cp.compress()), C(cpp.compress()), sub]))
}
/// the entries 1.. are said to have values: (entry, value)
fn values(d: usize, claims: &[(usize, Scalar)]) -> Vec<Vec<Vec<Scalar>>> {
    claims
        .iter()
        .map(|(e, v)| {
            let mut m = vec![vec![Scalar::zero(); d]; d];
            m[0][*e] = Scalar::one();
            m[0][0] = -*v;
            m
        })
        .collect()
}
fn joins() -> Vec<Join> {
    let mut v = vec![Join { at: None, div: false }];
    for k in 0..4 {
        for div in [false, true] {
            v.push(Join { at: Some(k), div });
        }
    }
    v
}
/// A system nothing fulfils, and a prover whose witness depends on the challenge that batches it.
pub fn split(prop: &str, t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for proto in [Inner, Zk] {
        for (n, k) in t.pick(vec![(4usize, 2usize), (8, 3)], vec![(4, 2), (8, 3), (8, 9)], vec![(4, 1), (4, 2), (4, 3), (8, 3), (8, 9), (16, 2), (16, 17)]) {
            o.push(
                Scenario::new(format!("{}/split/{:?}/n{}k{}", prop, proto, n, k), move || {
                    let mut wd = World::new(mix(n as u64 ^ 0x5b117));
                    let c = crs(&mut wd, n);
                    let d = n - 2;
                    let mut w = wd.scs(1, d);
                    w[0] = Scalar::one();
                    let entry = 1 + tam(d as u32 - 1) as usize;
                    // how many of the equations contradict the first one
                    let wrong = tam(k as u32) as usize;
                    let mut claims = vec![(entry, w[entry])];
                    for e in 1..k {
                        claims.push((entry, w[entry] + if e >= k - wrong { gsc_nz(90 + e as u64) } else { Scalar::zero() }));
                    }
                    let gamma = values(d, &claims);
                    let i = qesa_inst(proto, &c, &gamma, &w, &[]);
                    let js = joins();
                    let join = js[tam(js.len() as u32) as usize];
                    let r = [gsc(611), gsc(612)];
                    let crs = [i.st.at(0), i.st.at(1), i.st.at(2)];
                    let got = fixpoint(proto, |vals| Some((i.st.clone(), split_witness(vals, crs, &gamma, &w, &r, entry, join)?)));
                    match got {
                        None if wrong == 0 => control(&format!("split {:?}", join), false),
                        Some((st, pf)) if wrong == 0 => control(&format!("split {:?}", join), accepted(&None, proto, 0, &st, &pf)),
                        None => V::Ok,
                        Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || {
                            format!("a system that nothing fulfils ({} equations about entry {}), the witness chosen in part with the second commitment ({:?})", k, entry, join)
                        }),
                    }
                })
                .wide()
                .policies(few1(t)),
            );
        }
    }
    o
}
/// The same against messages: the equations say something wrong about the value of one.
pub fn split_copy(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for (n, v) in t.pick(vec![(8usize, 0u32)], vec![(8, 0), (8, 1), (16, 2)], vec![(8, 0), (8, 1), (16, 1), (16, 2), (16, 16)]) {
        o.push(
            Scenario::new(format!("K02/split/n{}v{}", n, v), move || {
                let mut i = standard(Proto::Copy, n, v);
                let map = i.st.at(4).at(1).list().clone();
                let uniq = i.st.at(4).at(2).list().clone();
                let openings: Vec<(Vec<Scalar>, Scalar)> = i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
                let msgs: Vec<Scalar> = openings.iter().flat_map(|o| o.0.clone()).collect();
                let d = n - 2;
                let m = tam(map.len().min(6) as u32) as usize;
                let slot = map[m].at(3).u();
                let wrong = tam(2) == 1;
                let base = values(d, &[(slot, msgs[m] + if wrong { gsc_nz(91) } else { Scalar::zero() })]);
                i.st.set(&[3], L(base.iter().map(|m| Node::smat(m)).collect()));
                let js = joins();
                let join = js[tam(js.len() as u32) as usize];
                let lo = [openings.len() + 1, 1][tam(2) as usize];
                let crs = [i.st.at(0), i.st.at(1), i.st.at(2)];
                let g = i.st.at(0).vp();
                let got = fixpoint(Proto::Copy, |vals| {
                    let alpha = vandemonde_challenge(drawn(vals[0]), lo - 1 + openings.len()).split_off(lo - 1);
                    let mut w = i.wit.at(0).vs();
                    w.resize(d, Scalar::zero());
                    w.extend([gsc(611), gsc(612)]);
                    for (m, v) in map.iter().zip(&msgs) {
                        w[m.at(3).u()] = *v;
                    }
                    let cw = lin(&w, &g);
                    for (a, o) in alpha.iter().zip(&openings) {
                        w[n - 1] = w[n - 1] + o.1 * a;
                    }
                    for (m, v) in map.iter().zip(&msgs) {
                        let at = m.at(1).u();
                        w[at] = w[at] + *v * alpha[m.at(2).u()];
                    }
                    let mut gamma = base.clone();
                    for x in &uniq {
                        let mut e = vec![vec![Scalar::zero(); d]; d];
                        e[0][x.u()] = -Scalar::one();
                        for m in map.iter().filter(|m| m.at(1).u() == x.u()) {
                            e[0][m.at(3).u()] = alpha[m.at(2).u()];
                        }
                        gamma.push(e);
                    }
                    let inner = split_witness(&vals[1..], crs, &gamma, &w[..d], &w[d..], slot, join)?;
                    Some((i.st.clone(), L(vec![C(cw.compress()), inner])))
                });
                match got {
                    Some((st, pf)) if wrong => must_reject(&None, Proto::Copy, 0, &st, &pf, || {
                        format!("a wrong value for message {}, put right in the second commitment ({:?})", m, join)
                    }),
                    Some((st, pf)) => control(&format!("split {:?} (commitments from {})", join, if lo == 1 { "1" } else { "count + 1" }), accepted(&None, Proto::Copy, 0, &st, &pf)),
                    None => V::Ok,
                }
            })
            .wide()
                .policies(few1(t)),
        );
    }
    o
}

/// the value of a challenge drawn
pub fn drawn(val: u32) -> Scalar {
    use qesa::transcript::TranscriptProtocol;
    mcrt::oracle_script(&[val]);
    transcript(0).challenge_scalar(b"x")
}
const POWERS: u32 = 8;
fn power(c: Scalar, k: u32) -> Scalar {
    match k {
        0 => c,
        1 => c.invert(),
        2 => c * c,
        3 => (c * c).invert(),
        4 => c * c * c,
        5 => (c * c * c).invert(),
        6 => c + Scalar::one(),
        _ => (c + Scalar::one()).invert(),
    }
}

/// A witness chosen after the challenge that batches the equations: violates two of them so
/// that the batched equation holds.
pub fn late_witness(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for proto in [Inner, Zk] {
        for (n, k) in [(4usize, 1usize), (4, 2), (8, 3), (8, 5)] {
            o.push(
                Scenario::new(format!("Q02/late-witness/{:?}/n{}k{}", proto, n, k), move || {
                    let mut wd = World::new(mix(n as u64 ^ 0x1a7e));
                    let c = crs(&mut wd, n);
                    let mut w = wd.scs(1, n - 2);
                    w[0] = Scalar::one();
                    // equation e: the entry 1 + e mod (n - 3) has the value it has
                    let entry = |e: usize| 1 + e % (n - 3);
                    let gamma: Vec<_> = (0..k)
                        .map(|e| {
                            let mut m = vec![vec![Scalar::zero(); n - 2]; n - 2];
                            m[0][entry(e)] = Scalar::one();
                            m[0][0] = -w[entry(e)];
                            m
                        })
                        .collect();
                    let r = wd.scs(2, 2);
                    let i = qesa_inst(proto, &c, &gamma, &w, &r);
                    let d = tam(4) as usize;
                    let f = tam(POWERS);
                    // two equations about different entries, or one and the constant
                    let a = tam(k as u32) as usize;
                    let b = tam(k as u32 + 1) as usize;
                    if b < k && entry(a) == entry(b) {
                        return V::Skip;
                    }
                    let delta = gsc(77);
                    let got = fixpoint(proto, |vals| {
                        let f = power(drawn(vals[d]), f);
                        let mut w2 = w.clone();
                        w2[entry(a)] = w2[entry(a)] + delta;
                        if b < k {
                            w2[entry(b)] = w2[entry(b)] - delta * f;
                        } else {
                            w2[0] = w2[0] - delta * f;
                        }
                        let j = qesa_inst(proto, &c, &gamma, &w2, &r);
                        Some((i.st.clone(), prove_with(vals, proto, &i.st, &j.wit)?))
                    });
                    match got {
                        Some((st, pf)) => must_reject(&None, proto, 0, &st, &pf, || format!("a witness that violates equations {} and {}, chosen after challenge {}", a, b, d)),
                        None => V::Ok,
                    }
                })
                .wide()
                .policies(few1(t)),
            );
        }
    }
    o
}
/// Commitments and messages chosen after the challenge that combines them.
pub fn late_commitments(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for (n, v) in [(8usize, 1u32), (16, 2), (16, 16)] {
        o.push(
            Scenario::new(format!("K02/late-commitments/n{}v{}", n, v), move || {
                let i = standard(Proto::Copy, n, v);
                let d = tam(4) as usize;
                let count = i.st.at(5).list().len();
                let (a, b) = (tam(count as u32) as usize, tam(count as u32) as usize);
                if a == b || count > 3 && b != a + 1 && (a, b) != (0, count - 1) {
                    return V::Skip;
                }
                let f = tam(if count > 3 { 4 } else { POWERS });
                let g = i.st.at(0).vp();
                let delta = gsc(77);
                let what = tam(3);
                let x = match what {
                    0 => g[2],
                    1 => g[n - 1],
                    _ => g[n - 3],
                } * delta;
                let got = fixpoint(Proto::Copy, |vals| {
                    let f = power(drawn(vals[d]), f);
                    if what < 2 {
                        // the commitments, for the proof there is
                        let mut c = i.st.at(5).vp();
                        c[a] = c[a] + x;
                        c[b] = c[b] - x * f;
                        return Some((i.st.with(&[5], Node::pts(&c)), prove_with(vals, Proto::Copy, &i.st, &i.wit)?));
                    }
                    // the openings, for the commitments there are
                    let mut op: Vec<(Vec<Scalar>, Scalar)> = i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
                    // (only the combination of the blinding values enters a proof: changing those
                    // within it gives the honest proof)
                    op[a].0[0] = op[a].0[0] + delta;
                    op[b].0[0] = op[b].0[0] - delta * f;
                    Some((i.st.clone(), prove_with(vals, Proto::Copy, &i.st, &i.wit.with(&[1], openings_node(&op)))?))
                });
                match got {
                    Some((st, pf)) => must_reject(&None, Proto::Copy, 0, &st, &pf, || {
                        format!("{} of {} and {} chosen after challenge {}", if what < 2 { "commitments" } else { "openings" }, a, b, d)
                    }),
                    None => V::Ok,
                }
            })
            .wide()
                .policies(few1(t)),
        );
    }
    o
}
