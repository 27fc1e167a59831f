//! The transcript: what each challenge depends on, and how proofs compose.
use super::sound::*;
use super::Tier;
use crate::engine::*;
use crate::node::lookalikes;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use mcrt::{mix, Draw, Mode};
use merlin::Transcript;
use qesa::transcript::TranscriptProtocol;

fn sized(p: Proto, n: usize) -> bool {
    !(p == Alm && n < 2 || matches!(p, Inner | Zk) && n < 4 || p == Proto::Copy && n < 8)
}
/// draws made while running f
fn drawing<T>(f: impl FnOnce() -> T) -> (Result<T, String>, Vec<Draw>) {
    mcrt::take_draws();
    let r = guarded(f);
    (r, mcrt::take_draws())
}
/// a change of one byte of the encoding of a point (dimensions > 1) or of a generic one
fn direction(k: usize) -> RistrettoPoint {
    #[cfg(any(feature = "model", feature = "big"))]
    if mcrt::dim() > 1 {
        return curve25519_dalek::model::basis(k % mcrt::dim());
    }
    base_mul(&pow256(k))
}
fn pow256(k: usize) -> Scalar {
    (0..k).fold(Scalar::one(), |s, _| s * fe(256))
}
fn moved(leaf: &Node, k: usize) -> Option<Node> {
    Some(match leaf {
        P(p) => P(*p + direction(k)),
        C(c) => C((c.decompress()? + direction(k)).compress()),
        S(s) => S(*s + pow256(k)),
        U(u) => U(match k {
            0 => u + 1,
            1 => u.checked_sub(1)?,
            _ => return None,
        }),
        L(_) => return None,
    })
}
/// Index of the challenge that follows a message of the prover, for the elements of a proof that are
/// messages (not final scalars, nor values the verifier computes and compares).
fn answered_by(p: Proto, q: &[usize], k: usize) -> Option<usize> {
    match p {
        Ipa => (q[0] < 2).then(|| 1 + q[1]),
        Alm => {
            if q[0] == 0 {
                Some(0)
            } else {
                answered_by(Ipa, &q[1..], k).map(|x| x + 1)
            }
        }
        Inner | Zk => match q[0] {
            0 => Some(0),
            1 => Some(1),
            _ => answered_by(Alm, &q[1..], k).map(|x| x + 4),
        },
        Proto::Copy => match q[0] {
            0 => Some(0),
            _ if q[1] == 0 => None,
            _ => answered_by(Inner, &q[1..], k).map(|x| x + 1),
        },
        Lmpa => (q[0] < 2).then(|| q[1]),
        LmpaK => (q[0] == 3 && q[2] + 1 != k).then(|| q[1]),
        Simple => {
            if q[0] == 0 {
                Some(0)
            } else {
                answered_by(Lmpa, &q[1..], k).map(|x| x + 1)
            }
        }
        SimpleK => {
            if q[0] == 0 {
                Some(0)
            } else {
                answered_by(LmpaK, &q[1..], k).map(|x| x + 1)
            }
        }
    }
}
fn split(p: Proto, st: &Node) -> usize {
    match p {
        LmpaK | SimpleK => st.at(4).u(),
        _ => 0,
    }
}

pub fn f01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if REAL {
        o.push(Scenario::new("F01/real-uniform", real_uniform).policy(fixed()));
        return o;
    }
    let mut ns = t.pick(vec![2usize, 8], vec![1, 2, 4, 8], vec![1, 2, 4, 8, 16]);
    if BIG && t != Tier::Conf {
        ns.extend(t.pick(vec![], vec![64, 256], vec![64, 256, 512]));
    }
    for proto in ALL {
        for n in ns.iter().cloned().filter(|n| sized(proto, *n) && affordable(proto, *n, t)) {
            let mut vs: Vec<u32> = (0..t.pick(1, if n > 16 { 1 } else { 2 }, if n > 16 { 2 } else { 6 })).collect();
            if BIG && !matches!(proto, Ipa | Alm) && n == t.pick(0, 8, 8) {
                vs.extend(MANY);
                if matches!(proto, LmpaK | SimpleK) {
                    vs.extend(WIDE_K.iter().map(|x| x.0));
                }
            }
            for v in vs {
                let (p, d) = if SMALL { (251, 31) } else { (251, 1) };
                // both sides draw the same; every draw is wide enough; other histories give other challenges
                o.push(
                    Scenario::new(format!("F01/sides/{:?}/n{}v{}", proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let (c1, c2) = (inp(CONTEXTS), inp(CONTEXTS));
                        let (mut tp, mut tv) = (transcript(c1), transcript(c1));
                        let (pf, dp) = drawing(|| prove(proto, &mut tp, &i.st, &i.wit));
                        let pf = match pf {
                            Ok(p) => p,
                            Err(e) => return V::Fail(format!("prover aborted: {}", e)),
                        };
                        let (ok, dv) = drawing(|| verify(proto, &mut tv, &i.st, &pf));
                        if ok != Ok(true) {
                            return if SMALL && mcrt::inv0() > 0 { V::Exempt } else { V::Fail("honest proof rejected".into()) };
                        }
                        let keys = |d: &[Draw]| d.iter().map(|d| d.key).collect::<Vec<_>>();
                        if keys(&dp) != keys(&dv) {
                            return V::Fail(format!("{:?}: prover and verifier do not draw the same challenges", proto));
                        }
                        if let Some(d) = dp.iter().find(|d| d.len < 32) {
                            return V::Fail(format!("{:?}: a challenge is made from {} bytes only", proto, d.len));
                        }
                        let mut all = keys(&dp);
                        all.sort();
                        all.dedup();
                        if all.len() != dp.len() {
                            return V::Fail(format!("{:?}: a challenge is used twice", proto));
                        }
                        if c1 != c2 {
                            let mut t2 = transcript(c2);
                            let (_, d2) = drawing(|| verify(proto, &mut t2, &i.st, &pf));
                            if d2.iter().zip(dv.iter()).any(|(a, b)| a.key == b.key) {
                                return V::Fail(format!("{:?}: a challenge does not depend on what happened before (histories {} and {})", proto, c1, c2));
                            }
                        }
                        V::Ok
                    })
                    .field(p, d)
                    .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 1, 3))),
                );
                // every message, in every byte, decides the next challenge
                o.push(
                    Scenario::new(format!("F01/messages/{:?}/n{}v{}", proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Fail("prover aborted".into()),
                        };
                        let (_, d0) = drawing(|| accepts(proto, 0, &i.st, &pf));
                        let k = split(proto, &i.st);
                        let ls: Vec<_> = pf.leaves().into_iter().filter(|q| answered_by(proto, q, k).is_some()).collect();
                        if ls.is_empty() {
                            return V::Skip;
                        }
                        let l = &ls[tam(ls.len() as u32) as usize];
                        let by = tam(if SMALL { 31 } else if n > 16 || v > 15 { 1 } else { t.pick(1, 3, 8) }) as usize;
                        let idx = answered_by(proto, l, k).unwrap();
                        if idx >= d0.len() {
                            return V::Fail(format!("{:?}: no challenge follows the message {:?}", proto, l));
                        }
                        let alt = match moved(pf.get(l), by) {
                            Some(x) => pf.with(l, x),
                            None => return V::Fail("harness: message not decodable".into()),
                        };
                        let (_, d1) = drawing(|| accepts(proto, 0, &i.st, &alt));
                        if d1.get(idx).map(|d| d.key) == Some(d0[idx].key) {
                            return V::Fail(format!("{:?}: challenge {} does not depend on the message {:?} (byte {})", proto, idx, l, by));
                        }
                        V::Ok
                    })
                    .field(p, d)
                    .policies(few1(t)),
                );
                // messages that are easily taken for each other
                if !SMALL && t != Tier::Conf {
                    o.push(
                        Scenario::new(format!("F01/lookalikes/{:?}/n{}v{}", proto, n, v), move || {
                            let i = standard(proto, n, v);
                            let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Fail("prover aborted".into()),
                            };
                            let k = split(proto, &i.st);
                            // messages answered by the same challenge, in the order of the proof
                            let mut groups: std::collections::BTreeMap<usize, Vec<crate::node::Path>> = Default::default();
                            for q in pf.leaves() {
                                if let Some(c) = answered_by(proto, &q, k) {
                                    groups.entry(c).or_default().push(q);
                                }
                            }
                            if groups.is_empty() {
                                return V::Skip;
                            }
                            let (c, qs) = groups.iter().nth(tam(groups.len() as u32) as usize).unwrap();
                            let from = super::large::edges(qs.len());
                            let from = from[tam(from.len() as u32) as usize];
                            let three: Vec<&crate::node::Path> = qs[from..].iter().take(3).collect();
                            let looks = lookalikes(&three.iter().map(|q| pf.get(q).clone()).collect::<Vec<_>>());
                            if looks.is_empty() {
                                return V::Skip;
                            }
                            let (name, a, b) = &looks[tam(looks.len() as u32) as usize];
                            let key = |l: &Vec<Node>| {
                                let mut alt = pf.clone();
                                for (q, x) in three.iter().zip(l) {
                                    alt = alt.with(q, x.clone());
                                }
                                drawing(|| accepts(proto, 0, &i.st, &alt)).1.get(*c).map(|d| d.key)
                            };
                            match (key(a), key(b)) {
                                (Some(x), Some(y)) if x == y => {
                                    V::Fail(format!("{:?}: challenge {} does not depend on {} at {:?}", proto, c, name, three[0]))
                                }
                                _ => V::Ok,
                            }
                        })
                        .field(p, d)
                        .policies(few1(t)),
                    );
                }
                // every challenge decides acceptance, in every byte
                // (an unmasked proof about a zero witness may not need them: generic witnesses only)
                if !SMALL && !((n < 2 || v > 0) && matches!(proto, Ipa | Lmpa | LmpaK)) {
                    o.push(
                        Scenario::new(format!("F01/used/{:?}/n{}v{}", proto, n, v), move || {
                            let i = standard(proto, n, v);
                            mcrt::take_draws();
                            let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Fail("prover aborted".into()),
                            };
                            let draws = mcrt::take_draws();
                            if draws.is_empty() {
                                return V::Fail("no challenges".into());
                            }
                            let vals: Vec<u32> = draws.iter().map(|d| d.val).collect();
                            let j = tam(draws.len() as u32) as usize;
                            let max = draws.iter().map(|d| d.len).max().unwrap();
                            let b = if n > 16 || v > 15 { [0, 1, 22, 43, max][tam(5) as usize] } else { tam(1 + max as u32) as usize };
                            if b == 0 {
                                // the same challenges: accepted, or this scenario says nothing
                                mcrt::oracle_script(&vals);
                                if !accepts(proto, 0, &i.st, &pf) {
                                    return V::Fail("the verifier does not use the prover's challenges".into());
                                }
                                return V::Ok;
                            }
                            if b > draws[j].len || t == Tier::Conf && b % 21 != 1 {
                                return V::Skip;
                            }
                            mcrt::oracle_script(&vals);
                            mcrt::set_challenge_xor(Some((j as u32, b - 1, 0x10)));
                            let acc = accepts(proto, 0, &i.st, &pf);
                            mcrt::set_challenge_xor(None);
                            if acc {
                                return V::Fail(format!("{:?}: byte {} of challenge {} has no influence on acceptance", proto, b - 1, j));
                            }
                            V::Ok
                        })
                        .policies(few1(t)),
                    );
                    if t == Tier::Conf || n > 16 || v > 15 {
                        continue;
                    }
                    // every challenge with every other answer
                    o.push(
                        Scenario::new(format!("F01/answers/{:?}/n{}v{}", proto, n, v), move || {
                            let i = standard(proto, n, v);
                            mcrt::take_draws();
                            let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Fail("prover aborted".into()),
                            };
                            let draws = mcrt::take_draws();
                            let mut vals: Vec<u32> = draws.iter().map(|d| d.val).collect();
                            let j = tam(draws.len() as u32) as usize;
                            let (off, dom) = mcrt::chal_domain();
                            let v = tam(if n > 4 && t != Tier::Thorough { 24 } else { dom }) + off;
                            if vals[j] == v {
                                return V::Skip;
                            }
                            vals[j] = v;
                            mcrt::oracle_script(&vals);
                            if accepts(proto, 0, &i.st, &pf) {
                                return V::Fail(format!("{:?}: accepted with another value of challenge {}", proto, j));
                            }
                            V::Ok
                        })
                        .policies(few1(t)),
                    );
                }
            }
        }
    }
    if !SMALL {
        // bytes to scalar: no byte, and no bit of it, is lost
        o.push(
            Scenario::new("F01/uniform", move || {
                let base = inp(3) as u8;
                let byte = inp(64) as usize;
                let mut seen = std::collections::BTreeMap::new();
                for v in 0..=255u8 {
                    let mut raw: Vec<u8> = (0..64).map(|i| match base {
                        0 => 0,
                        1 => 0xff,
                        _ => mix(i as u64) as u8,
                    }).collect();
                    raw[byte] = v;
                    mcrt::set_raw_challenges(Some(raw));
                    let s = transcript(0).challenge_scalar(b"x");
                    mcrt::set_raw_challenges(None);
                    if mcrt::raw_len() < 32 {
                        return V::Fail(format!("a challenge is made from {} bytes only", mcrt::raw_len()));
                    }
                    if byte >= mcrt::raw_len() {
                        return V::Ok;
                    }
                    if let Some(o) = seen.insert(s.to_bytes(), v) {
                        return V::Fail(format!("values {} and {} of byte {} give the same challenge", o, v, byte));
                    }
                }
                V::Ok
            })
            .policy(fixed()),
        );
    }
    o
}
fn few1(t: Tier) -> Vec<mcrt::Policy> {
    bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 1, 2))
}
/// with the real transcript: challenges of different histories are different, full-size scalars
fn real_uniform() -> V {
    let mut top = [0u8; 32];
    let mut seen = std::collections::BTreeSet::new();
    for i in 0..64u64 {
        let mut t = Transcript::new(b"mc");
        t.append_message(b"i", &i.to_le_bytes());
        let s = t.challenge_scalar(b"x");
        for (a, b) in top.iter_mut().zip(s.to_bytes().iter()) {
            *a |= b;
        }
        if !seen.insert(s.to_bytes()) {
            return V::Fail("two histories give the same challenge".into());
        }
    }
    if top[..31].iter().any(|b| *b != 0xff) || top[31] != 0x0f {
        return V::Fail("challenges do not cover the field".into());
    }
    V::Ok
}

// ---- F02 -----------------------------------------------------------------------------

fn seq_inst(p: Proto, pos: usize) -> Inst {
    standard(p, 4, pos as u32)
}
/// a fresh challenge from a transcript: its key tells the state (its value, for the real transcript)
fn fingerprint(t: &mut Transcript) -> Vec<u8> {
    mcrt_quiet_key(t)
}
#[cfg(not(feature = "real"))]
fn mcrt_quiet_key(t: &mut Transcript) -> Vec<u8> {
    mcrt::take_draws();
    let mut b = [0u8; 64];
    mcrt::set_raw_challenges(None);
    t.clone().challenge_bytes(b"fingerprint", &mut b);
    mcrt::take_draws().last().map(|d| d.key.to_le_bytes().to_vec()).unwrap_or_default()
}
#[cfg(feature = "real")]
fn mcrt_quiet_key(t: &mut Transcript) -> Vec<u8> {
    let mut b = [0u8; 64];
    t.clone().challenge_bytes(b"fingerprint", &mut b);
    b.to_vec()
}

/// square systems are slow at large sizes
fn affordable(p: Proto, n: usize, t: Tier) -> bool {
    n <= t.pick(64, 64, 128) || !matches!(p, Inner | Zk | Proto::Copy)
}
pub fn f02(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        return o;
    }
    // sequences of protocols
    for first in 0..9usize {
        for len in 1..=3usize {
            if len == 3 && t == Tier::Conf {
                continue;
            }
            // of three: all protocols in the first two places, and in the last one
            o.push(
                Scenario::new(format!("F02/sequence/{:?}x{}", ALL[first], len), move || {
                    let mut seq = vec![ALL[first]];
                    for k in 1..len {
                        let m = if t == Tier::Conf { 3 } else { 9 };
                        let c = inp(m) as usize;
                        seq.push(ALL[if m == 3 { [0, 3, 8][c] } else { c }]);
                        if k == 2 && t == Tier::Quick && (c + first) % 3 != 0 {
                            return V::Skip;
                        }
                    }
                    let ctx = inp(t.pick(1, if len < 3 { 3 } else { 1 }, CONTEXTS));
                    sequence(&seq, ctx)
                })
                .policies(few1(t)),
            );
        }
    }
    // systems and factors of all kinds, before and after every protocol
    if BIG && t != Tier::Conf {
        for proto in [LmpaK, SimpleK, Lmpa, Simple, Inner, Zk, Proto::Copy] {
            let vs: Vec<u32> = match proto {
                LmpaK | SimpleK => vec![1, 2, 16, 17, 22, 25, 26, 27, 30, 31],
                _ => vec![1, 2, 3, 16, 17],
            };
            o.push(
                Scenario::new(format!("F02/kinds/{:?}", proto), move || {
                    let i = standard(proto, 8, vs[inp(vs.len() as u32) as usize]);
                    let other = seq_inst(ALL[inp(9) as usize], 0);
                    let third = seq_inst(Zk, 1);
                    let how = inp(t.pick(2, 3, 4));
                    // without folding there is no challenge, nothing that could depend on what was before
                    if proto == LmpaK && i.st.at(2).u() < i.st.at(4).u() && how == 1 {
                        return V::Skip;
                    }
                    let seq = match how {
                        0 => vec![i, other],
                        1 => vec![other, i],
                        2 => vec![i, other, third],
                        _ => vec![third, i, other],
                    };
                    sequence_of(seq, inp(t.pick(1, 1, 3)))
                })
                .policies(few1(t)),
            );
        }
    }
    // the same call twice
    for proto in ALL {
        for n in t.pick(vec![4usize], vec![4, 8, 64, 256], vec![1, 2, 4, 8, 16, 64, 128, 256, 512]) {
            if !sized(proto, n) || n > 16 && !BIG || !affordable(proto, n, t) {
                continue;
            }
            o.push(
                Scenario::new(format!("F02/again/{:?}/n{}", proto, n), move || {
                    let i = standard(proto, n, inp(t.pick(1, if n > 16 { 1 } else { 3 }, 6)));
                    let other = standard(ALL[inp(t.pick(2, if n > 16 { 2 } else { 9 }, 9)) as usize], 8, 1);
                    let ctx = inp(t.pick(1, 2, CONTEXTS));
                    let t0 = transcript(ctx);
                    let go = |f: &dyn Fn() -> Node| -> Node {
                        mcrt::quiet_coins(Some(&[]));
                        let r = f();
                        mcrt::quiet_coins(None);
                        r
                    };
                    let mut after = (t0.clone(), t0.clone());
                    let one = go(&|| prove(proto, &mut t0.clone(), &i.st, &i.wit));
                    let _ = go(&|| prove(other.proto, &mut transcript(1), &other.st, &other.wit));
                    let two = go(&|| prove(proto, &mut t0.clone(), &i.st, &i.wit));
                    if !REAL && one != two {
                        return V::Fail(format!("{:?}: equal inputs, coins and transcripts give different proofs", proto));
                    }
                    let a = verify(proto, &mut after.0, &i.st, &one);
                    let bad = one.with(&[0], two.at(0).clone());
                    let _ = guarded(|| verify(proto, &mut transcript(1), &i.st, &bad));
                    let b = verify(proto, &mut after.1, &i.st, &one);
                    if !a || !b {
                        return V::Fail(format!("{:?}: verifying twice gives {} and {}", proto, a, b));
                    }
                    if fingerprint(&mut after.0) != fingerprint(&mut after.1) {
                        return V::Fail(format!("{:?}: verifying twice leaves different transcripts", proto));
                    }
                    // a rejected proof stays rejected
                    let ls = one.leaves();
                    let l = &ls[tam(ls.len() as u32) as usize];
                    if let Some(x) = perturb(one.get(l), 0, &gens(proto, &i.st), &[]) {
                        let alt = one.with(l, x);
                        let r: Vec<bool> = (0..2).map(|_| accepts(proto, ctx, &i.st, &alt)).collect();
                        if r[0] != r[1] {
                            return V::Fail(format!("{:?}: a changed proof is rejected once and accepted once", proto));
                        }
                        if !accepts(proto, ctx, &i.st, &one) {
                            return V::Fail(format!("{:?}: an honest proof is rejected after a changed one", proto));
                        }
                    }
                    V::Ok
                })
                .policies(few1(t)),
            );
        }
    }
    o
}

fn sequence(seq: &[Proto], ctx: u32) -> V {
    sequence_of(seq.iter().enumerate().map(|(k, p)| seq_inst(*p, k)).collect(), ctx)
}
fn sequence_of(insts: Vec<Inst>, ctx: u32) -> V {
    let seq: Vec<Proto> = insts.iter().map(|i| i.proto).collect();
    let mut tp = transcript(ctx);
    let mut pfs = vec![];
    let mut alts = vec![];
    for (k, i) in insts.iter().enumerate() {
        // the same statement proved with other coins in the same place
        let mut ta = tp.clone();
        mcrt::quiet_coins(Some(&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]));
        alts.push(prove(i.proto, &mut ta, &i.st, &i.wit));
        mcrt::quiet_coins(None);
        mcrt::quiet_coins(Some(&[(100 + k as u32, 0)]));
        pfs.push(prove(i.proto, &mut tp, &i.st, &i.wit));
        mcrt::quiet_coins(None);
    }
    // in order
    let mut tv = transcript(ctx);
    for (i, pf) in insts.iter().zip(&pfs) {
        if !verify(i.proto, &mut tv, &i.st, pf) {
            return V::Fail(format!("{:?}: a proof is rejected in its place", seq));
        }
    }
    let end = fingerprint(&mut tp);
    if end != fingerprint(&mut tv) {
        return V::Fail(format!("{:?}: prover's and verifier's transcripts differ afterwards", seq));
    }
    // not in order: (index of statement and proof, other coins?)
    let n = seq.len();
    let plan: Vec<usize> = (0..n).collect();
    let mut orders: Vec<(String, Vec<(usize, bool)>)> = vec![];
    let plain = |v: Vec<usize>| v.into_iter().map(|x| (x, false)).collect::<Vec<_>>();
    for k in 0..n {
        let mut a = plan.clone();
        a.remove(k);
        orders.push((format!("proof {} omitted", k), plain(a)));
        let mut a = plan.clone();
        a.insert(k, k);
        orders.push((format!("proof {} repeated", k), plain(a)));
        if k + 1 < n {
            let mut a = plan.clone();
            a.swap(k, k + 1);
            orders.push((format!("proofs {} and {} exchanged", k, k + 1), plain(a)));
        }
        if alts[k] != pfs[k] {
            let mut a = plain(plan.clone());
            a[k].1 = true;
            orders.push((format!("proof {} from another session", k), a));
        }
    }
    for (name, ord) in orders {
        let mut tv = transcript(ctx);
        let mut all = true;
        for (k, other) in ord.iter() {
            let pf = if *other { &alts[*k] } else { &pfs[*k] };
            all &= guarded(|| verify(insts[*k].proto, &mut tv, &insts[*k].st, pf)).unwrap_or(false);
        }
        // accepted to the end is possible only if nothing followed the point of difference
        let same = fingerprint(&mut tv) == end;
        let last = *ord.last().unwrap_or(&(n, false));
        let nothing_follows = name == format!("proof {} omitted", n - 1) || name == format!("proof {} from another session", n - 1);
        let _ = last;
        if all && !nothing_follows {
            return V::Fail(format!("{:?}: accepted with {}", seq, name));
        }
        if same {
            return V::Fail(format!("{:?}: the transcript is the same with {}", seq, name));
        }
    }
    V::Ok
}

// ---- F03 -----------------------------------------------------------------------------

const BOUND: [Proto; 7] = [Inner, Zk, Proto::Copy, Lmpa, LmpaK, Simple, SimpleK];

/// different statements, as verified: their first challenges
fn first_differs(proto: Proto, st: &Node, st2: &Node, pf: &Node, what: &str) -> V {
    let (_, d1) = drawing(|| mcrt::stopping(|| accepts(proto, 0, st, pf)));
    let (_, d2) = drawing(|| mcrt::stopping(|| accepts(proto, 0, st2, pf)));
    match (d1.first(), d2.first()) {
        (Some(a), Some(b)) if a.key == b.key => V::Fail(format!("{:?}: the first challenge does not depend on {}", proto, what)),
        _ => V::Ok,
    }
}

/// the lists of a statement that hold something the first challenge must depend on
fn bound_lists(proto: Proto, st: &Node) -> Vec<crate::node::Path> {
    let ls = statement_leaves(proto, st);
    st.lists()
        .into_iter()
        .filter(|l| !l.is_empty() && ls.iter().any(|q| q.starts_with(l)))
        .filter(|l| !(proto == Proto::Copy && l[0] == 4))
        .collect()
}
pub fn f03(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if REAL {
        return o;
    }
    let mut ns = t.pick(vec![4usize], vec![2, 4, 8], vec![2, 4, 8, 16]);
    if BIG && t != Tier::Conf {
        ns.extend(t.pick(vec![], vec![64, 128, 256], vec![64, 128, 256, 512]));
    }
    for proto in BOUND {
        for n in ns.iter().cloned().filter(|n| sized(proto, *n) || proto == Proto::Copy && *n == 4) {
            let mut vs: Vec<u32> = (0..t.pick(2, if n > 16 { 1 } else { 3 }, if n > 16 { 2 } else { 6 })).collect();
            if BIG && n == t.pick(0, 8, 8) {
                vs.extend(MANY);
                if matches!(proto, LmpaK | SimpleK) {
                    vs.extend([25, 26, 28]);
                }
            }
            for v in vs {
                let wide = n > 16 || v > 15;
                // every part of the statement, every byte: points in the packed model group, scalars over the real order
                let (p, d) = if SMALL { (251, 31) } else { (251, 1) };
                o.push(
                    Scenario::new(format!("F03/part/{:?}/n{}v{}", proto, n, v), move || {
                        let i = standard(proto, n, v);
                        // what comes before the first challenge does not look at the proof, as a rule
                        let small = standard(proto, 8, 0);
                        let mut pf = None;
                        if wide && matches!(proto, Inner | Zk | Proto::Copy) {
                            pf = try_prove(&None, proto, 0, &small.st, &small.wit)
                                .filter(|pf| !drawing(|| mcrt::stopping(|| accepts(proto, 0, &i.st, pf))).1.is_empty());
                        }
                        let pf = match pf.or_else(|| try_prove(&None, proto, 0, &i.st, &i.wit)) {
                            Some(p) => p,
                            None => return V::Fail("prover aborted".into()),
                        };
                        let mut ls = statement_leaves(proto, &i.st);
                        if wide {
                            ls.retain(|q| super::large::edge_leaf(&i.st, q));
                        }
                        let l = &ls[tam(ls.len() as u32) as usize];
                        let leaf = i.st.get(l);
                        let by = tam(if wide { 1 } else { t.pick(2, 31, 31) }) as usize;
                        match leaf {
                            P(_) | C(_) if !SMALL && by > 2 => return V::Skip,
                            S(_) if SMALL && by > 0 => return V::Skip,
                            S(_) if n > 4 && by % 5 != 0 && t != Tier::Thorough => return V::Skip,
                            _ => (),
                        }
                        let new = match moved(leaf, by) {
                            Some(x) => x,
                            None => return V::Skip,
                        };
                        let st2 = i.st.with(l, new);
                        first_differs(proto, &i.st, &st2, &pf, &format!("the part {:?} of the statement (byte {})", l, by))
                    })
                    .field(p, d)
                    .policies(few1(t)),
                );
                if SMALL || wide {
                    continue;
                }
                // parts that are easily taken for each other: elements of each list of the statement
                o.push(
                    Scenario::new(format!("F03/lookalikes/{:?}/n{}v{}", proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Fail("prover aborted".into()),
                        };
                        let lists = bound_lists(proto, &i.st);
                        let l = &lists[tam(lists.len() as u32) as usize];
                        let v = i.st.get(l).list().clone();
                        let from = super::large::edges(v.len());
                        let from = from[tam(from.len() as u32) as usize];
                        let looks = lookalikes(&v[from..]);
                        if looks.is_empty() {
                            return V::Skip;
                        }
                        let (name, a, b) = &looks[tam(looks.len() as u32) as usize];
                        let put = |x: &Vec<Node>| {
                            let mut m = v.clone();
                            for (k, e) in x.iter().enumerate() {
                                m[from + k] = e.clone();
                            }
                            i.st.with(l, L(m))
                        };
                        first_differs(proto, &put(a), &put(b), &pf, &format!("{} in the list {:?} of the statement", name, l))
                    })
                    .policies(few1(t)),
                );
                // parts exchanged, left out, repeated; another shape with the same entries
                o.push(
                    Scenario::new(format!("F03/shape/{:?}/n{}v{}", proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let pf = match try_prove(&None, proto, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Fail("prover aborted".into()),
                        };
                        let lists = bound_lists(proto, &i.st);
                        let l = &lists[tam(lists.len() as u32) as usize];
                        let v = i.st.get(l).list().clone();
                        let mut m = v.clone();
                        let a = tam(v.len().max(1) as u32) as usize;
                        match tam(5) {
                            0 => {
                                if m.len() < 2 {
                                    return V::Skip;
                                }
                                m.remove(a);
                            }
                            1 => m.push(v[a].clone()),
                            2 => m.swap(0, a),
                            3 => m.reverse(),
                            _ => {
                                // the first element moves to the list that comes before
                                if l.len() < 2 || l[l.len() - 1] == 0 || m.len() < 2 {
                                    return V::Skip;
                                }
                                let mut prev = l.clone();
                                *prev.last_mut().unwrap() -= 1;
                                let mut pv = i.st.get(&prev).list().clone();
                                pv.push(m.remove(0));
                                let st2 = i.st.with(l, L(m)).with(&prev, L(pv));
                                return first_differs(proto, &i.st, &st2, &pf, "where one row ends and the next begins");
                            }
                        }
                        if m == v {
                            return V::Skip;
                        }
                        first_differs(proto, &i.st, &i.st.with(l, L(m)), &pf, &format!("the list {:?} of the statement", l))
                    })
                    .policies(few1(t)),
                );
            }
        }
    }
    if SMALL {
        return o;
    }
    // a matrix with the same entries in another shape
    for proto in [Lmpa, LmpaK, Simple, SimpleK] {
        o.push(
            Scenario::new(format!("F03/reshaped/{:?}", proto), move || {
                let mut wd = World::new(8);
                let flat = wd.pts(8);
                let shapes = [(1usize, 8usize), (2, 4), (4, 2)];
                let (x, y) = (shapes[inp(3) as usize], shapes[inp(3) as usize]);
                if x == y {
                    return V::Skip;
                }
                let ch = |s: (usize, usize)| flat.chunks(s.1).map(|c| c.to_vec()).collect::<Vec<_>>();
                let w1 = pattern(0, x.1, 3);
                let aux = |n: usize| Crs { g: flat[..n].to_vec(), h: flat[..n].to_vec(), q: flat[0] };
                let i = lmpa_inst(proto, &ch(x), &w1, 2, &aux(x.1));
                let j = lmpa_inst(proto, &ch(y), &pattern(0, y.1, 3), 2, &aux(y.1));
                let (_, d1) = drawing(|| try_prove(&None, proto, 0, &i.st, &i.wit));
                let (_, d2) = drawing(|| try_prove(&None, proto, 0, &j.st, &j.wit));
                match (d1.first(), d2.first()) {
                    (Some(a), Some(b)) if a.key != b.key => V::Ok,
                    _ => V::Fail(format!("{:?}: the first challenge does not depend on the shape of the matrix", proto)),
                }
            })
            .policy(fixed()),
        );
    }
    o
}
