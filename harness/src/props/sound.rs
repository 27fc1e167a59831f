//! Soundness: false statements, modified proofs, bounded adversaries.
//!
//! Over the real order with generators that are generic multiples of one element an
//! accidental acceptance has probability below 2^-240, so every acceptance of a wrong
//! claim or a changed proof is a violation; there are no thresholds.
use super::complete::*;
use super::Tier;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use mcrt::{mix, Mode, Policy};
use merlin::Transcript;
use qesa::transcript::TranscriptProtocol;
use qesa::verif::{alm_zk, copy, qesa_inner, vandemonde_challenge};
use std::collections::BTreeSet;

/// The same challenges for whoever comes next, in the order of drawing.
pub struct Sc(Vec<u32>);
impl Sc {
    /// `on` = challenges are fixed in advance, otherwise answers of the random oracle
    pub fn new(on: bool) -> Option<Sc> {
        if on {
            Some(Sc(script(48)))
        } else {
            None
        }
    }
}
pub fn rewind(s: &Option<Sc>) {
    match s {
        Some(s) => mcrt::oracle_script(&s.0),
        None => mcrt::oracle_by_state(),
    }
}
/// prove (None if the prover refuses)
pub fn try_prove(s: &Option<Sc>, p: Proto, ctx: u32, st: &Node, wit: &Node) -> Option<Node> {
    rewind(s);
    guarded(|| prove(p, &mut transcript(ctx), st, wit)).ok()
}
pub fn accepted(s: &Option<Sc>, p: Proto, ctx: u32, st: &Node, pf: &Node) -> bool {
    rewind(s);
    accepts(p, ctx, st, pf)
}
pub fn must_reject(s: &Option<Sc>, p: Proto, ctx: u32, st: &Node, pf: &Node, what: impl Fn() -> String) -> V {
    if accepted(s, p, ctx, st, pf) {
        V::Fail(format!("{:?} accepted {}{}", p, what(), if s.is_some() { " (challenges fixed in advance)" } else { "" }))
    } else {
        V::Ok
    }
}
/// challenges scripted?  (not possible with the real transcript)
pub fn modes() -> u32 {
    if REAL {
        1
    } else {
        2
    }
}
/// every value of every challenge in turn
fn all_challenges(t: Tier) -> Vec<Policy> {
    if BIG {
        bases(Mode::Fixed, ALLD, 1, t.pick(1, 1, 2))
    } else {
        bases(Mode::Fixed, Mode::Fixed, 0, 1)
    }
}
fn few(t: Tier) -> Vec<Policy> {
    bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 1, 4))
}

// ---- modified proofs and statements, for every protocol -------------------------------

/// swap the leaves at two places
fn swapped(pf: &Node, a: &[usize], b: &[usize]) -> Option<Node> {
    let (x, y) = (pf.get(a).clone(), pf.get(b).clone());
    if x == y || std::mem::discriminant(&x) != std::mem::discriminant(&y) {
        return None;
    }
    Some(pf.with(a, y).with(b, x))
}

pub fn tamper(prop: &str, t: Tier, protos: &[Proto], sizes: &[usize], variants: u32) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in protos.iter().cloned() {
        for n in sizes.iter().cloned() {
            if proto == Alm && n < 2 || matches!(proto, Inner | Zk) && n < 4 || proto == Proto::Copy && n < 8 {
                continue;
            }
            for v in 0..variants {
                for mode in 0..modes() {
                    let tag = format!("{:?}/n{}v{}m{}", proto, n, v, mode);
                    // one element
                    o.push(
                        Scenario::new(format!("{}/element/{}", prop, tag), move || {
                            let i = standard(proto, n, v);
                            let sc = Sc::new(mode == 1);
                            let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Skip,
                            };
                            let ls = pf.leaves();
                            let l = &ls[tam(ls.len() as u32) as usize];
                            let leaf = pf.get(l);
                            let op = tam(t.pick(2, op_count(leaf), op_count(leaf)));
                            let new = match perturb(leaf, op, &gens(proto, &i.st), &all_leaves(&pf)) {
                                Some(x) => x,
                                None => return V::Skip,
                            };
                            must_reject(&sc, proto, 0, &i.st, &pf.with(l, new), || format!("a proof changed at {:?} (operation {})", l, op))
                        })
                        .policies(few(t)),
                    );
                    if t == Tier::Conf || n > 8 {
                        continue;
                    }
                    // two elements
                    o.push(
                        Scenario::new(format!("{}/pair/{}", prop, tag), move || {
                            let i = standard(proto, n, v);
                            let sc = Sc::new(mode == 1);
                            let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Skip,
                            };
                            let ls = pf.leaves();
                            // long proofs: pairs at bounded distance only
                            let a = tam(ls.len() as u32) as usize;
                            let reach = if ls.len() > 40 && t != Tier::Thorough { 8 } else { ls.len() };
                            let b = a + 1 + tam(reach as u32) as usize;
                            if b >= ls.len() {
                                return V::Skip;
                            }
                            // with fixed challenges two commitments that are only ever added up may be exchanged
                            let what = tam(6 - mode);
                            let g = gens(proto, &i.st);
                            let all = all_leaves(&pf);
                            let alt = if what == 5 {
                                swapped(&pf, &ls[a], &ls[b])
                            } else if what == 0 && mode == 1 {
                                // under fixed challenges a shift by a generator together with a shift
                                // by one can be another honest proof
                                None
                            } else {
                                let (oa, ob) = [(0, 0), (2, 2), (3, 3), (1, 2), (4, 4)][what as usize];
                                match (perturb(pf.get(&ls[a]), oa, &g, &all), perturb(pf.get(&ls[b]), ob, &g, &all)) {
                                    (Some(x), Some(y)) => Some(pf.with(&ls[a], x).with(&ls[b], y)),
                                    _ => None,
                                }
                            };
                            let alt = match alt {
                                Some(x) => x,
                                None => return V::Skip,
                            };
                            must_reject(&sc, proto, 0, &i.st, &alt, || format!("a proof changed at {:?} and {:?} ({})", ls[a], ls[b], what))
                        })
                        .policies(few(t)),
                    );
                    // the same shift everywhere, zero everywhere
                    o.push(
                        Scenario::new(format!("{}/wholesale/{}", prop, tag), move || {
                            let i = standard(proto, n, v);
                            let sc = Sc::new(mode == 1);
                            let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Skip,
                            };
                            let op = tam(6);
                            let kind = tam(3);
                            if op == 0 && mode == 1 {
                                return V::Skip;
                            }
                            let g = gens(proto, &i.st);
                            let all = all_leaves(&pf);
                            let mut alt = pf.clone();
                            for l in pf.leaves() {
                                let leaf = pf.get(&l);
                                if kind == 1 && !matches!(leaf, S(_)) || kind == 2 && matches!(leaf, S(_)) {
                                    continue;
                                }
                                if let Some(x) = perturb(leaf, op, &g, &all) {
                                    alt.set(&l, x);
                                }
                            }
                            if alt == pf {
                                return V::Skip;
                            }
                            must_reject(&sc, proto, 0, &i.st, &alt, || format!("a proof changed everywhere ({} {})", op, kind))
                        })
                        .policies(few(t)),
                    );
                }
            }
        }
    }
    o
}

pub fn other_statement(prop: &str, t: Tier, protos: &[Proto], sizes: &[usize], variants: u32) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in protos.iter().cloned() {
        for n in sizes.iter().cloned() {
            if proto == Alm && n < 2 || matches!(proto, Inner | Zk) && n < 4 || proto == Proto::Copy && n < 8 {
                continue;
            }
            // vectors with zeros do not notice some generators: the claim stays true
            let variants = if matches!(proto, Ipa | Alm) { 1 } else { variants };
            for v in 0..variants {
                for mode in 0..modes() {
                    let tag = format!("{:?}/n{}v{}m{}", proto, n, v, mode);
                    o.push(
                        Scenario::new(format!("{}/statement/{}", prop, tag), move || {
                            let i = standard(proto, n, v);
                            let sc = Sc::new(mode == 1);
                            let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                                Some(p) => p,
                                None => return V::Skip,
                            };
                            let ls = statement_leaves(proto, &i.st);
                            let l = &ls[tam(ls.len() as u32) as usize];
                            let leaf = i.st.get(l);
                            let op = tam(t.pick(1, op_count(leaf).min(3), op_count(leaf)));
                            let new = match perturb(leaf, op, &gens(proto, &i.st), &all_leaves(&i.st)) {
                                Some(x) => x,
                                None => return V::Skip,
                            };
                            let st2 = i.st.with(l, new);
                            must_reject(&sc, proto, 0, &st2, &pf, || format!("a proof for a statement differing at {:?} (operation {})", l, op))
                        })
                        .policies(few(t)),
                    );
                }
                // without a round nothing depends on a challenge: valid after any history
                if n < 2 && matches!(proto, Ipa | Lmpa | LmpaK) {
                    continue;
                }
                // another history
                o.push(
                    Scenario::new(format!("{}/context/{:?}/n{}v{}", prop, proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let (c1, c2) = (inp(CONTEXTS), inp(CONTEXTS));
                        let pf = match try_prove(&None, proto, c1, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Skip,
                        };
                        if c1 == c2 {
                            return V::Skip;
                        }
                        must_reject(&None, proto, c2, &i.st, &pf, || format!("a proof made after history {} with history {}", c1, c2))
                    })
                    .policies(few(t)),
                );
            }
        }
    }
    o
}

/// changes of whole lists of the statement (equations, commitments, rows)
fn list_changes(prop: &str, t: Tier, proto: Proto, n: usize, v: u32, list: usize, script_ok: bool) -> Scenario {
    Scenario::new(format!("{}/list{}/{:?}/n{}v{}{}", prop, list, proto, n, v, script_ok as u8), move || {
        let i = standard(proto, n, v);
        let sc = Sc::new(script_ok);
        let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
            Some(p) => p,
            None => return V::Skip,
        };
        let l = i.st.at(list).list().clone();
        let mut m = l.clone();
        let what = tam(5);
        let a = tam(l.len() as u32) as usize;
        match what {
            0 => {
                m.remove(a);
            }
            1 => m.push(l[a].clone()),
            2 => m.swap(0, a),
            3 => m.reverse(),
            _ => m.insert(0, l[a].clone()),
        }
        if m == l || m.is_empty() {
            return V::Skip;
        }
        let st2 = i.st.with(&[list], L(m));
        must_reject(&sc, proto, 0, &st2, &pf, || format!("a proof for a statement with list {} changed ({} at {})", list, what, a))
    })
    .policies(few(t))
}

// ---- Q02 ---------------------------------------------------------------------------

fn positions(d: usize) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0), (d - 1, d - 1), (0, d - 1), (d - 1, 0), (1, 1)];
    v.dedup();
    v
}
fn q_delta(k: u32) -> Scalar {
    match k {
        0 => Scalar::one(),
        1 => gsc(404),
        _ => -Scalar::one(),
    }
}
fn q_setup(n: usize, k: usize, kind: u32) -> (Crs, Vec<Vec<Vec<Scalar>>>, Vec<Scalar>) {
    let mut wd = World::new(mix(n as u64 ^ 0x33));
    let c = crs(&mut wd, n);
    let mut w = pattern(0, n - 2, 21);
    w[0] = Scalar::one();
    let g = (0..k).map(|i| equation((kind + i as u32) % EQUATIONS, &w, i as u64)).collect();
    (c, g, w)
}

pub fn q02(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        return o;
    }
    for n in t.pick(vec![4usize], vec![4, 8, 16], vec![4, 8, 16, 32]) {
        for proto in [Inner, Zk] {
            if proto == Zk && n > 8 {
                continue;
            }
            for mode in 0..modes() {
                // one or several violated equations, wherever they are
                o.push(
                    Scenario::new(format!("Q02/equations/{:?}/n{}m{}", proto, n, mode), move || {
                        let counts = if t == Tier::Conf {
                            vec![1, 3, n + 1]
                        } else if n >= 16 && t == Tier::Quick {
                            vec![2, n + 1]
                        } else {
                            eq_counts(n)
                        };
                        let k = counts[inp(counts.len() as u32) as usize];
                        let kind = inp(t.pick(1, if n < 16 { 3 } else { 1 }, EQUATIONS)) * 2 % EQUATIONS;
                        let (c, mut g, w) = q_setup(n, k, kind);
                        let ps = positions(n - 2);
                        let (a, b) = ps[inp(t.pick(1, if n < 16 { ps.len() as u32 } else { 2 }, ps.len() as u32)) as usize];
                        let d = q_delta(inp(t.pick(1, if n < 8 { 3 } else { 1 }, 3)));
                        let i = tam(k as u32) as usize;
                        let how = tam(t.pick(2, 4, 4));
                        g[i][a][b] = g[i][a][b] + d;
                        let desc = match how {
                            0 => format!("with equation {} of {} violated", i, k),
                            1 | 2 => {
                                let j = tam(k as u32) as usize;
                                if i == j || n > 8 && k > 4 && (j > i + 1 || i % 4 != 0) {
                                    return V::Skip;
                                }
                                g[j][a][b] = g[j][a][b] + if how == 1 { -d } else { d };
                                format!("with equations {} and {} of {} violated", i, j, k)
                            }
                            _ => {
                                if k < 2 || i > 0 {
                                    return V::Skip;
                                }
                                for m in g.iter_mut().skip(1) {
                                    m[a][b] = m[a][b] + d;
                                }
                                format!("with all {} equations violated", k)
                            }
                        };
                        let inst = qesa_inst(proto, &c, &g, &w, &r_pattern(0));
                        let sc = Sc::new(mode == 1);
                        match try_prove(&sc, proto, 0, &inst.st, &inst.wit) {
                            Some(pf) => must_reject(&sc, proto, 0, &inst.st, &pf, || desc.clone()),
                            None => V::Ok,
                        }
                    })
                    .policies(few(t)),
                );
                // first entry not one, all equations satisfied
                o.push(
                    Scenario::new(format!("Q02/first-entry/{:?}/n{}m{}", proto, n, mode), move || {
                        let k = [1usize, 3, n + 1][inp(3) as usize];
                        let (c, mut g, mut w) = q_setup(n, k, inp(2));
                        let v = [Scalar::zero(), fe(2), -Scalar::one(), gsc(88)][inp(4) as usize];
                        match inp(3) {
                            // scaled: satisfies every homogeneous quadratic equation
                            0 => w = w.iter().map(|x| x * v).collect(),
                            // only the first entry differs; equations adjusted to it
                            1 => {
                                w[0] = v;
                                for m in g.iter_mut() {
                                    let r = quad(m, &w);
                                    let l = w.len() - 1;
                                    m[l][l] = m[l][l] - r * (w[l] * w[l]).invert();
                                }
                            }
                            // equations that do not involve the first entry
                            _ => {
                                w[0] = v;
                                for m in g.iter_mut() {
                                    for j in 0..w.len() {
                                        m[0][j] = Scalar::zero();
                                        m[j][0] = Scalar::zero();
                                    }
                                    let r = quad(m, &w);
                                    let l = w.len() - 1;
                                    m[l][l] = m[l][l] - r * (w[l] * w[l]).invert();
                                }
                            }
                        }
                        if g.iter().any(|m| quad(m, &w) != Scalar::zero()) {
                            return V::Fail("harness: equations not satisfied".into());
                        }
                        let inst = qesa_inst(proto, &c, &g, &w, &r_pattern(0));
                        let sc = Sc::new(mode == 1);
                        match try_prove(&sc, proto, 0, &inst.st, &inst.wit) {
                            Some(pf) => must_reject(&sc, proto, 0, &inst.st, &pf, || format!("a witness starting with {:?}", w[0].to_bytes()[0])),
                            None => V::Ok,
                        }
                    })
                    .policies(few(t)),
                );
                if n > 8 || mode == 0 {
                    continue;
                }
                // a prover that uses fewer, other or reordered equations
                o.push(
                    Scenario::new(format!("Q02/other-equations/{:?}/n{}", proto, n), move || {
                        let k = [1usize, 2, 3, n, n + 1][inp(5) as usize];
                        let (c, g, w) = q_setup(n, k, 0);
                        let i = tam(k as u32) as usize;
                        let mut bad = g.clone();
                        bad[i][0][1] = bad[i][0][1] + gsc(404);
                        let mut mine = g.clone();
                        match tam(6) {
                            0 => {
                                mine.remove(i);
                            }
                            1 => mine[i] = vec![vec![Scalar::zero(); n - 2]; n - 2],
                            2 => mine.truncate(i),
                            3 => {
                                mine.drain(..=i);
                            }
                            4 => mine.reverse(),
                            // satisfies its own version of the equation
                            _ => (),
                        }
                        if mine.is_empty() {
                            mine.push(vec![vec![Scalar::zero(); n - 2]; n - 2]);
                        }
                        let honest = qesa_inst(proto, &c, &mine, &w, &r_pattern(0));
                        let claim = qesa_inst(proto, &c, &bad, &w, &r_pattern(0));
                        let sc = Sc::new(true);
                        match try_prove(&sc, proto, 0, &honest.st, &honest.wit) {
                            Some(pf) => must_reject(&sc, proto, 0, &claim.st, &pf, || format!("a proof that ignores equation {} of {}", i, k)),
                            None => V::Ok,
                        }
                    })
                    .policies(few(t)),
                );
            }
        }
        // a violated equation under every value of every challenge
        if n <= 8 {
            o.push(
                Scenario::new(format!("Q02/challenges/n{}", n), move || {
                    let k = [1usize, 2, n + 1][inp(3) as usize];
                    let (c, mut g, mut w) = q_setup(n, k, 0);
                    match tam(3) {
                        0 => g[k - 1][1][0] = g[k - 1][1][0] + Scalar::one(),
                        1 => {
                            g[0][1][0] = g[0][1][0] + Scalar::one();
                            g[k - 1][1][0] = g[k - 1][1][0] - Scalar::one();
                            if k == 1 {
                                return V::Skip;
                            }
                        }
                        _ => w = w.iter().map(|x| x + x).collect(),
                    }
                    let inst = qesa_inst(Inner, &c, &g, &w, &r_pattern(0));
                    match try_prove(&None, Inner, 0, &inst.st, &inst.wit) {
                        Some(pf) => must_reject(&None, Inner, 0, &inst.st, &pf, || format!("a false statement with {} equations", k)),
                        None => V::Ok,
                    }
                })
                .policies(all_challenges(t)),
            );
        }
    }
    if t != Tier::Conf && BIG {
        for n in t.pick(vec![], vec![32usize, 64, 128], vec![32, 64, 128, 256]) {
            for (k, fi) in [1usize, 5, 9].iter().flat_map(|k| (0..3usize).map(move |f| (*k, f))) {
            o.push(
                Scenario::new(format!("Q02/large/n{}k{}f{}", n, k, fi), move || {
                    // (equations, pairs of them that are violated)
                    let es = super::large::edges(n - 2);
                    let ei = tam(es.len() as u32) as usize;
                    let (e, f) = (es[ei], [es[ei], 0, n - 3][fi]);
                    let (i, j) = match k {
                        1 => (0, 0),
                        5 => ((ei + fi) % 5, tam(5) as usize),
                        _ => [(0, 8), (3, 7), (8, 8)][(ei + fi) % 3],
                    };
                    let (c, mut g, w) = q_setup(n, k, 0);
                    let d = gsc(404);
                    g[i][e][f] = g[i][e][f] + d;
                    if i != j {
                        g[j][e][f] = g[j][e][f] - d;
                    }
                    let sc = Sc::new(true);
                    let inst = qesa_inst(Inner, &c, &g, &w, &r_pattern(0));
                    match try_prove(&sc, Inner, 0, &inst.st, &inst.wit) {
                        Some(pf) => must_reject(&sc, Inner, 0, &inst.st, &pf, || format!("entry ({}, {}) of equations {} and {} of {} violated", e, f, i, j, k)),
                        None => V::Ok,
                    }
                })
                .policy(fixed()),
            );
            }
        }
    }
    // many equations: where a count crosses a power of two or the width of something
    if t != Tier::Conf {
        let ks = t.pick(vec![], vec![17usize, 33, 70, 300], vec![16, 17, 31, 32, 33, 40, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 300, 600]);
        for (k, proto) in ks.iter().flat_map(|k| [(*k, Inner), (*k, Zk)]) {
            o.push(
                Scenario::new(format!("Q02/count/{:?}/k{}", proto, k), move || {
                    let es = super::large::edges(k);
                    let i = es[tam(es.len() as u32) as usize];
                    // alone, or cancelled by another equation in the plain sum
                    let j = match tam(es.len() as u32 + 1) {
                        0 => i,
                        x => es[x as usize - 1],
                    };
                    if j < i || t == Tier::Quick && j > i && j != i + 1 && j + 1 != k {
                        return V::Skip;
                    }
                    let n = 4;
                    let (c, mut g, w) = q_setup(n, k, 0);
                    let d = gsc(404);
                    g[i][1][0] = g[i][1][0] + d;
                    if i != j {
                        g[j][1][0] = g[j][1][0] - d;
                    }
                    let sc = Sc::new(true);
                    let inst = qesa_inst(proto, &c, &g, &w, &r_pattern(0));
                    match try_prove(&sc, proto, 0, &inst.st, &inst.wit) {
                        Some(pf) => must_reject(&sc, proto, 0, &inst.st, &pf, || format!("equations {} and {} of {} violated", i, j, k)),
                        None => V::Ok,
                    }
                })
                .policy(fixed()),
            );
        }
    }
    o.extend(moving_scenarios(t));
    o.extend(super::late::late("Q02", t, &[Inner, Zk]));
    o.extend(super::late::late_witness(t));
    o.extend(super::late::late_second_commitment("Q02", t));
    o.extend(super::late::split("Q02", t));
    o.extend(super::bent::systems("Q02", t));
    o
}

pub fn q03(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        return o;
    }
    let ns = t.pick(vec![4usize], vec![4, 8, 16], vec![4, 8, 16, 32]);
    o.extend(super::large::reject_large("Q03", t, &[Inner, Zk]));
    o.extend(super::late::late("Q03", t, &[Inner, Zk]));
    o.extend(super::late::late_second_commitment("Q03", t));
    o.extend(tamper("Q03", t, &[Inner, Zk], &ns, t.pick(1, 2, 3)));
    o.extend(other_statement("Q03", t, &[Inner, Zk], &ns[..ns.len().min(2)], t.pick(1, 2, 3)));
    for proto in [Inner, Zk] {
        for n in [4usize, 8] {
            for v in 0..t.pick(1, 3, 3) {
                for list in [0, 1, 3] {
                    o.push(list_changes("Q03", t, proto, n, v, list, false));
                }
            }
        }
    }
    // the two kinds of generators exchanged, and two generators exchanged
    o.push(
        Scenario::new("Q03/generators", move || {
            let proto = [Inner, Zk][inp(2) as usize];
            let n = [4usize, 8][inp(2) as usize];
            let i = standard(proto, n, 0);
            let sc = Sc::new(!REAL && inp(2) == 1);
            let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                Some(p) => p,
                None => return V::Skip,
            };
            let mut st = i.st.clone();
            let a = tam(n as u32) as usize;
            let b = tam(n as u32) as usize;
            match tam(4) {
                0 => {
                    st.set(&[0], i.st.at(1).clone());
                    st.set(&[1], i.st.at(0).clone());
                }
                1 => {
                    if a >= b {
                        return V::Skip;
                    }
                    st = swapped(&st, &[0, a], &[0, b]).unwrap();
                }
                2 => {
                    if a >= b {
                        return V::Skip;
                    }
                    st = swapped(&st, &[1, a], &[1, b]).unwrap();
                }
                _ => st = swapped(&st, &[0, a], &[1, b]).unwrap(),
            }
            must_reject(&sc, proto, 0, &st, &pf, || "a proof under other generators".into())
        })
        .policies(few(t)),
    );
    o
}

// ---- a first entry that moves with the challenge -----------------------------------------

/// As the library's prover of quadratic systems, except that it commits to a first entry
/// 1 + delta and goes on with the entry the verifier then works with, 1 + delta * beta,
/// where beta is taken to be x^e.
fn moving_one(tr: &mut Transcript, i: &Inst, w: &[Scalar], delta: Scalar, e: usize, scaled: bool) -> Node {
    let (mut g, mut h, q) = (i.st.at(0).vp(), i.st.at(1).vp(), i.st.at(2).p());
    let n = g.len();
    let gamma_i = block(i.st.at(3));
    let r = [gsc(701), gsc(702)];
    let mut wp = w.to_vec();
    wp.extend(r);
    wp[0] = Scalar::one() + delta;
    let c1 = lin(&wp, &g);
    tr.append_message(b"c_prime_w", c1.compress().as_bytes());
    let x = vandemonde_challenge(tr.challenge_scalar(b"x"), n.max(gamma_i.block.len()).max(e));
    let beta = x[e - 1];
    let gamma = gamma_i.block_matrix_batch(&x);
    g[0] = g[0] * beta.invert();
    wp[0] = Scalar::one() + delta * beta;
    let mut wpp: Vec<Scalar> = gamma.iter().map(|row| ip(row, &wp[..n - 2])).collect();
    wpp.push(-r[1]);
    wpp.push(r[0]);
    let c2 = lin(&wpp, &h);
    tr.append_message(b"c_prime_prime_w", c2.compress().as_bytes());
    let s = vandemonde_challenge(tr.challenge_scalar(b"s"), n - 2);
    let b = vandemonde_challenge(tr.challenge_scalar(b"b"), 2);
    if scaled {
        let by = tr.challenge_scalar(b"delta");
        h.iter_mut().for_each(|p| *p = *p * by);
    }
    let mut gs: Vec<Scalar> = (0..n - 2).map(|c| (0..n - 2).fold(Scalar::zero(), |a, r| a + gamma[r][c] * s[r])).collect();
    gs.push(b[1]);
    gs.push(-b[0]);
    let sp = [&s[..], &b[..]].concat();
    let va: Vec<Scalar> = wp.iter().zip(&sp).map(|(a, b)| a - b).collect();
    let vb: Vec<Scalar> = wpp.iter().zip(&gs).map(|(a, b)| a + b).collect();
    let cw = lin(&va, &g) + lin(&vb, &h);
    tr.append_message(b"c_w", cw.compress().as_bytes());
    let t = ip(&va, &vb);
    let alm = alm_zk::create(tr, g, h, &q, cw, va, vb, t);
    inner_node(&qesa_inner::Inner::verif_from(c1.compress(), c2.compress(), alm))
}
fn moving_scenarios(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if t == Tier::Conf || REAL {
        return o;
    }
    for n in t.pick(vec![], vec![4usize, 8], vec![4, 8, 16]) {
        for k in t.pick(vec![], vec![2usize, 3, 5, 9], vec![2, 3, 4, 5, 7, 9, 17]) {
            o.push(
                Scenario::new(format!("Q02/moving-one/n{}k{}", n, k), move || {
                    let proto = [Inner, Zk][inp(2) as usize];
                    // which equation involves the first entry, which one is violated, and the power
                    // of the challenge the first entry is thought to be scaled with
                    let i = tam(k as u32) as usize;
                    let j = tam(k as u32) as usize;
                    let e = 1 + tam(k as u32 + 2) as usize;
                    let second = tam(2) == 1;
                    let lie = tam(2) == 1;
                    let scaled = tam(2) == 0;
                    if i == j {
                        return V::Skip;
                    }
                    let mut wd = World::new(mix(n as u64));
                    let c = crs(&mut wd, n);
                    let d = n - 2;
                    let l = d - 1;
                    let mut w: Vec<Scalar> = (0..d).map(|x| gsc_nz(3100 + x as u64)).collect();
                    w[0] = Scalar::one();
                    let delta = gsc_nz(3200);
                    let z = Scalar::zero();
                    let wl2 = (w[l] * w[l]).invert();
                    let g: Vec<Vec<Vec<Scalar>>> = (0..k)
                        .map(|x| {
                            let mut m = vec![vec![z; d]; d];
                            if x == i {
                                if second {
                                    m[0][0] = Scalar::one();
                                    m[0][1] = -fe(2) * w[1].invert();
                                    m[l][l] = m[l][l] + wl2;
                                } else {
                                    m[0][1] = w[1].invert();
                                    m[l][l] = m[l][l] - wl2;
                                }
                            } else if x == j {
                                // what this leaves is what the other equation gives
                                m[l][l] = -(if second { delta * delta } else { delta }) * wl2;
                            } else if d > 2 {
                                m[1][l] = (w[1] * w[l]).invert();
                                m[l][l] = -wl2;
                            }
                            m
                        })
                        .collect();
                    if (quad(&g[j], &w) == z) || (0..k).any(|x| x != j && quad(&g[x], &w) != z) {
                        return V::Fail("harness: wrong equations".into());
                    }
                    let inst = qesa_inst(proto, &c, &g, &w, &r_pattern(0));
                    let sc = Sc::new(true);
                    rewind(&sc);
                    match guarded(|| moving_one(&mut transcript(0), &inst, &w, if lie { delta } else { z }, e, scaled)) {
                        Ok(pf) => must_reject(&sc, proto, 0, &inst.st, &pf, || {
                            format!("equation {} of {} violated by a prover whose first entry moves with the challenge (equation {}, power {})", j, k, i, e)
                        }),
                        Err(_) => V::Ok,
                    }
                })
                .policies(few(t)),
            );
        }
    }
    // the truth, by the same prover: reported, not judged
    o.push(
        Scenario::new("Q02/moving-one/control", move || {
            let i = standard(Inner, 8, 2);
            let sc = Sc::new(true);
            let e = 1 + inp(6) as usize;
            rewind(&sc);
            match guarded(|| moving_one(&mut transcript(0), &i, &i.wit.at(0).vs(), Scalar::zero(), e, true)) {
                Ok(pf) => control(&format!("moving-one power {}", e), accepted(&sc, Inner, 0, &i.st, &pf)),
                Err(_) => control(&format!("moving-one power {}", e), false),
            }
        })
        .policy(fixed()),
    );
    o
}

// ---- K02 ---------------------------------------------------------------------------

fn copy_layouts(n: usize) -> Vec<Vec<BTreeSet<u16>>> {
    let mut v: Vec<Vec<BTreeSet<u16>>> = vec![
        vec![[2u16].into()],
        vec![[2u16].into(), [2u16].into()],
        vec![[2u16, 3].into()],
        // the first and the last place there is
        vec![[1u16].into()],
        vec![[n as u16 - 3].into()],
        vec![[1u16].into(), [1u16, n as u16 - 3].into()],
    ];
    if n >= 16 {
        v.push(vec![[n as u16 - 3].into(), [1u16, 2].into(), [n as u16 - 4].into()]);
        v.push(vec![[2u16].into(), [2u16].into(), [2u16].into()]);
        v.push(vec![[2u16, 5].into(), [2u16, 6].into(), [5u16].into()]);
        v.push(vec![[3u16].into(), [4u16].into(), [12u16, 13].into()]);
        v.push(vec![[2u16, 3].into(), [2u16, 3].into()]);
    }
    v
}
fn copy_setup(n: usize, f: &[BTreeSet<u16>], kinds: &[u32]) -> Inst {
    let ws = if f.iter().any(|s| s.contains(&1)) { 1 } else { 2 };
    layout_inst(n, ws, f, 0, kinds).expect("harness: layout")
}

/// What a dishonest copy prover does.
#[derive(Clone, Default)]
struct Lie {
    /// added to the value in the slot of message j (but not to its share in the aggregate)
    slots: Vec<(usize, Scalar)>,
    /// added to the aggregate at an index
    aggregate: Vec<(usize, Scalar)>,
    /// added to the aggregated blinding value
    blinding: Option<Scalar>,
    /// copy equations left out of (true) or zeroed in (false) the system proved
    skip: Option<(usize, bool)>,
    /// replaces the values committed in C_w at an index
    cw: Vec<(usize, Scalar)>,
    /// components of commitments besides their messages: (commitment, index, value)
    extra: Vec<(usize, usize, Scalar)>,
    /// the commitments are combined with the powers of a challenge from this one on
    lo: Option<usize>,
}
impl Lie {
    fn alphas(&self, alpha: Scalar, count: usize) -> Vec<Scalar> {
        let lo = self.lo.unwrap_or(count + 1);
        vandemonde_challenge(alpha, lo - 1 + count).split_off(lo - 1)
    }
}
/// As the library's prover, except for the lie.  Returns the proof.
fn lying_copy(tr: &mut Transcript, i: &Inst, lie: &Lie) -> Node {
    let (g, h, q) = (i.st.at(0).vp(), i.st.at(1).vp(), i.st.at(2).p());
    let n = g.len();
    let map = i.st.at(4).at(1).list().clone();
    let openings: Vec<(Vec<Scalar>, Scalar)> = i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
    let msgs: Vec<Scalar> = openings.iter().flat_map(|o| o.0.clone()).collect();
    let mut w = i.wit.at(0).vs();
    w.resize(n - 2, Scalar::zero());
    w.push(gsc(601));
    w.push(gsc(602));
    for (m, v) in map.iter().zip(&msgs) {
        w[m.at(3).u()] = *v;
    }
    for (j, d) in &lie.slots {
        let s = map[*j].at(3).u();
        w[s] = w[s] + d;
    }
    let mut cwv = w.clone();
    for (k, d) in &lie.cw {
        cwv[*k] = cwv[*k] + d;
    }
    let cw = lin(&cwv, &g);
    tr.append_message(b"c_w", cw.compress().as_bytes());
    let alpha = lie.alphas(tr.challenge_scalar(b"alpha"), openings.len());
    for (k, o) in openings.iter().enumerate() {
        w[n - 1] = w[n - 1] + o.1 * alpha[k];
    }
    for (k, at, v) in &lie.extra {
        w[*at] = w[*at] + alpha[*k] * v;
    }
    if let Some(b) = lie.blinding {
        w[n - 1] = w[n - 1] + b;
    }
    for (m, v) in map.iter().zip(&msgs) {
        let idx = m.at(1).u();
        w[idx] = w[idx] + *v * alpha[m.at(2).u()];
    }
    for (k, d) in &lie.aggregate {
        w[*k] = w[*k] + d;
    }
    let mut gamma = block(i.st.at(3));
    for (e, idx) in i.st.at(4).at(2).list().iter().map(|x| x.u()).enumerate() {
        if idx >= n - 2 {
            // no equation over the witness can speak about this position
            continue;
        }
        let mut eqn = vec![vec![Scalar::zero(); n - 2]; n - 2];
        eqn[0][idx] = -Scalar::one();
        for m in map.iter().filter(|m| m.at(1).u() == idx) {
            eqn[0][m.at(3).u()] = alpha[m.at(2).u()];
        }
        match lie.skip {
            Some((k, true)) if k == e => continue,
            Some((k, false)) if k == e => eqn = vec![vec![Scalar::zero(); n - 2]; n - 2],
            _ => (),
        }
        gamma.push(eqn);
    }
    if gamma.block.is_empty() {
        gamma.push(vec![vec![Scalar::zero(); n - 2]; n - 2]);
    }
    let r = w.split_off(n - 2);
    let inner = qesa_inner::create(tr, g, h, &q, &gamma, w, r);
    L(vec![C(cw.compress()), inner_node(&inner)])
}

/// layouts with long lists of something
pub fn crowds(t: Tier) -> Vec<(String, usize, Vec<BTreeSet<u16>>)> {
    let mut o: Vec<(String, usize, Vec<BTreeSet<u16>>)> = vec![];
    for m in t.pick(vec![], vec![5u16, 9, 17, 33], vec![5, 9, 17, 33, 65]) {
        let n = (2 * m as usize + 8).next_power_of_two();
        let hi = n as u16 - 3;
        // one long commitment, and a short one before or after
        o.push((format!("long{}", m), n, vec![(hi - m + 1..=hi).collect(), [2u16].into()]));
        o.push((format!("after-long{}", m), n, vec![[2u16].into(), (hi - m + 1..=hi).collect()]));
        // as many commitments, of one index, two indices, all different indices
        o.push((format!("many{}", m), n, (0..m).map(|_| [hi].into()).collect()));
        o.push((format!("two{}", m), n, (0..m).map(|i| [2 + i % 2].into()).collect()));
        o.push((format!("each{}", m), n, (0..m).map(|i| [hi - i].into()).collect()));
        if m <= t.pick(0, 9, 17) {
            // many long ones
            let n = ((m as usize) * (m as usize) + 2 * m as usize + 8).next_power_of_two();
            let hi = n as u16 - 3;
            o.push((format!("square{}", m), n, (0..m).map(|i| (hi - m + 1 - i % 2..=hi - i % 2).collect()).collect()));
        }
    }
    // longer ones, of which only two kinds
    for (m, each) in t.pick(vec![], vec![(65u16, false), (129, true)], vec![(129, false), (257, true)]) {
        let n = (2 * m as usize + 8).next_power_of_two();
        let hi = n as u16 - 3;
        o.push(if each {
            (format!("many{}", m), (2 * m as usize).next_power_of_two(), (0..m).map(|_| [(2 * m as usize).next_power_of_two() as u16 - 3].into()).collect())
        } else {
            (format!("long{}", m), n, vec![[2u16].into(), (hi - m + 1..=hi).collect()])
        });
    }
    o
}
pub fn k02(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        return o;
    }
    let ns = t.pick(vec![8usize], vec![8, 16], vec![8, 16, 32]);
    for n in ns.iter().cloned() {
        for (li, f) in copy_layouts(n).into_iter().enumerate() {
            if t == Tier::Conf && li > 1 {
                continue;
            }
            for mode in 0..modes() {
                // the library's prover with other openings
                let f2 = f.clone();
                o.push(
                    Scenario::new(format!("K02/openings/n{}l{}m{}", n, li, mode), move || {
                        let i = copy_setup(n, &f2, &[3]);
                        let sc = Sc::new(mode == 1);
                        let total: usize = f2.iter().map(|s| s.len()).sum();
                        let mut op: Vec<(Vec<Scalar>, Scalar)> =
                            i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
                        // (commitment, position) of each message, then the blinding values
                        let mut places: Vec<(usize, usize)> = vec![];
                        for (c, s) in f2.iter().enumerate() {
                            for k in 0..s.len() {
                                places.push((c, k));
                            }
                        }
                        for c in 0..f2.len() {
                            places.push((c, usize::MAX));
                        }
                        let d = [gsc(77), Scalar::one(), -Scalar::one()][tam(t.pick(1, 3, 3)) as usize];
                        let add = |op: &mut Vec<(Vec<Scalar>, Scalar)>, (c, k): (usize, usize), d: Scalar| {
                            if k == usize::MAX {
                                op[c].1 = op[c].1 + d
                            } else {
                                op[c].0[k] = op[c].0[k] + d
                            }
                        };
                        let a = tam(places.len() as u32) as usize;
                        let b = tam(places.len() as u32) as usize;
                        let what = tam(3);
                        match what {
                            0 => {
                                if b != a {
                                    return V::Skip;
                                }
                                add(&mut op, places[a], d);
                            }
                            // compensating
                            1 => {
                                if a >= b {
                                    return V::Skip;
                                }
                                add(&mut op, places[a], d);
                                add(&mut op, places[b], -d);
                            }
                            _ => {
                                // exchanged messages
                                if a >= b || b >= total {
                                    return V::Skip;
                                }
                                let (pa, pb) = (places[a], places[b]);
                                let (x, y) = (op[pa.0].0[pa.1], op[pb.0].0[pb.1]);
                                op[pa.0].0[pa.1] = y;
                                op[pb.0].0[pb.1] = x;
                            }
                        }
                        let wit = i.wit.with(&[1], openings_node(&op));
                        match try_prove(&sc, Proto::Copy, 0, &i.st, &wit) {
                            Some(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || {
                                format!("other openings than those of the commitments ({} at {:?} {:?})", what, places[a], places[b])
                            }),
                            None => V::Ok,
                        }
                    })
                    .policies(few(t)),
                );
                // base equation violated, witness at a reserved place, first entry
                let f2 = f.clone();
                o.push(
                    Scenario::new(format!("K02/base/n{}l{}m{}", n, li, mode), move || {
                        let mut i = copy_setup(n, &f2, &[3, 0][..1 + inp(2) as usize]);
                        let sc = Sc::new(mode == 1);
                        let what = tam(4);
                        match what {
                            0 => {
                                let e = tam(i.st.at(3).list().len() as u32) as usize;
                                let v = i.st.get(&[3, e, 0, 0]).s() + gsc(5);
                                i.st.set(&[3, e, 0, 0], S(v));
                            }
                            // depends on the slot of a message
                            1 => {
                                let k = tam(i.st.at(4).at(1).list().len() as u32) as usize;
                                let s = i.st.get(&[4, 1, k, 3]).u();
                                let v = i.st.get(&[3, 0, 0, s]).s() + gsc(5);
                                i.st.set(&[3, 0, 0, s], S(v));
                            }
                            2 => {
                                // user's witness changed: the product equation fails
                                if i.wit.at(0).list().len() < 2 {
                                    return V::Skip;
                                }
                                let v = i.wit.get(&[0, 1]).s() + gsc(5);
                                i.wit.set(&[0, 1], S(v));
                                if i.st.get(&[3, 0, 1, n - 3]).s() == Scalar::zero() || {
                                    let mut w = i.wit.at(0).vs();
                                    w.resize(n - 2, Scalar::zero());
                                    for (m, v) in i.st.at(4).at(1).list().iter().zip(i.wit.at(1).list().iter().flat_map(|o| o.at(0).vs())) {
                                        w[m.at(3).u()] = v;
                                    }
                                    i.st.at(3).list().iter().all(|m| quad(&m.ms(), &w) == Scalar::zero())
                                } {
                                    return V::Skip;
                                }
                            }
                            _ => {
                                // something already at the place reserved for an aggregate
                                let idx = f2[0].iter().next().unwrap().clone() as usize;
                                let mut w = i.wit.at(0).vs();
                                w.resize(idx + 1, Scalar::zero());
                                w[idx] = gsc(6);
                                i.wit.set(&[0], Node::scs(&w));
                            }
                        }
                        match try_prove(&sc, Proto::Copy, 0, &i.st, &i.wit) {
                            Some(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || format!("a violated base system ({})", what)),
                            None => V::Ok,
                        }
                    })
                    .policies(few(t)),
                );
                // other statements
                let f2 = f.clone();
                o.push(
                    Scenario::new(format!("K02/commitments/n{}l{}m{}", n, li, mode), move || {
                        let i = copy_setup(n, &f2, &[3]);
                        let sc = Sc::new(mode == 1);
                        let pf = match try_prove(&sc, Proto::Copy, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Skip,
                        };
                        let mut c = i.st.at(5).vp();
                        let k = c.len();
                        let a = tam(k as u32) as usize;
                        let b = tam(k as u32) as usize;
                        let g = i.st.at(0).vp();
                        let what = tam(7);
                        match what {
                            0 => {
                                if a >= b {
                                    return V::Skip;
                                }
                                c.swap(a, b)
                            }
                            1 => {
                                c.remove(a);
                            }
                            2 => c.push(c[a]),
                            3 => c.push(RistrettoPoint::identity()),
                            4 => c.push(g[2]),
                            5 => {
                                // differences cancel in the plain sum
                                if a >= b {
                                    return V::Skip;
                                }
                                c[a] = c[a] + g[2];
                                c[b] = c[b] - g[2];
                            }
                            _ => c[a] = c[a] + g[[0, 1, 2, n - 3, n - 2, n - 1][tam(6) as usize]],
                        }
                        let st = i.st.with(&[5], Node::pts(&c));
                        must_reject(&sc, Proto::Copy, 0, &st, &pf, || format!("other commitments ({})", what))
                    })
                    .policies(few(t)),
                );
                let f2 = f.clone();
                o.push(
                    Scenario::new(format!("K02/mapping/n{}l{}m{}", n, li, mode), move || {
                        let i = copy_setup(n, &f2, &[3]);
                        let sc = Sc::new(mode == 1);
                        let pf = match try_prove(&sc, Proto::Copy, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Skip,
                        };
                        let mut sets = f2.clone();
                        let mut ws = 2;
                        let mut m = i.st.at(4).clone();
                        let nm = m.at(1).list().len();
                        match tam(6) {
                            0 => ws = 1,
                            1 => ws = 3,
                            2 => sets.reverse(),
                            3 => {
                                let k = tam(sets.len() as u32) as usize;
                                sets[k] = sets[k].iter().map(|x| x + 1).collect();
                            }
                            4 => {
                                // slots exchanged
                                let (a, b) = (tam(nm as u32) as usize, tam(nm as u32) as usize);
                                if a >= b {
                                    return V::Skip;
                                }
                                m = swapped(&m, &[1, a, 3], &[1, b, 3]).unwrap();
                            }
                            _ => {
                                let (a, b) = (tam(nm as u32) as usize, tam(nm as u32) as usize);
                                if a >= b {
                                    return V::Skip;
                                }
                                m = match swapped(&m, &[1, a, 2], &[1, b, 2]) {
                                    Some(m) => m,
                                    None => return V::Skip,
                                };
                                if m.get(&[1, a, 1]) == m.get(&[1, b, 1]) && mode == 0 {
                                    // still a different statement
                                }
                            }
                        }
                        if m == *i.st.at(4) {
                            if slots_ref(n, ws, &sets).is_none() {
                                return V::Skip;
                            }
                            m = map_node(&copy::compute_mapping(n, ws, &sets));
                        }
                        if m == *i.st.at(4) {
                            return V::Skip;
                        }
                        // the same placement up to names is the same statement
                        must_reject(&sc, Proto::Copy, 0, &i.st.with(&[4], m), &pf, || "another mapping".into())
                    })
                    .policies(few(t)),
                );
            }
            if t == Tier::Conf || REAL {
                continue;
            }
            // a prover that lies in the witness only
            let f2 = f.clone();
            o.push(
                Scenario::new(format!("K02/liar/n{}l{}", n, li), move || {
                    let i = copy_setup(n, &f2, &[3]);
                    let sc = Sc::new(true);
                    let msgs = i.st.at(4).at(1).list().len();
                    let uniq: Vec<usize> = i.st.at(4).at(2).list().iter().map(|x| x.u()).collect();
                    let d = gsc(31);
                    let a = tam(msgs as u32) as usize;
                    let b = tam(msgs as u32) as usize;
                    let mut lie = Lie::default();
                    let what = tam(7);
                    match what {
                        0 => lie.slots = vec![(a, d)],
                        1 => {
                            if a >= b {
                                return V::Skip;
                            }
                            lie.slots = vec![(a, d), (b, -d)]
                        }
                        2 => lie.aggregate = vec![(uniq[a % uniq.len()], d)],
                        3 => lie.blinding = Some(d),
                        4 => lie.cw = vec![(uniq[a % uniq.len()], d)],
                        5 => {
                            lie.cw = vec![(n - 1, d)];
                        }
                        _ => {
                            // slot and aggregate consistent with each other
                            lie.slots = vec![(a, d)];
                            lie.aggregate = vec![(i.st.get(&[4, 1, a, 1]).u(), d)];
                        }
                    }
                    let sk = tam(1 + 2 * uniq.len() as u32);
                    if sk > 0 {
                        lie.skip = Some(((sk as usize - 1) / 2, sk % 2 == 1));
                    }
                    rewind(&sc);
                    let mut pf = match guarded(|| lying_copy(&mut transcript(0), &i, &lie)) {
                        Ok(p) => p,
                        Err(_) => return V::Ok,
                    };
                    if tam(2) == 1 {
                        // present the commitment the verifier computes
                        rewind(&sc);
                        let mut tr = transcript(0);
                        let alpha = lie.alphas(tr.challenge_scalar(b"alpha"), f2.len());
                        let agg = lin(&alpha, &i.st.at(5).vp()) + pf.at(0).c().decompress().unwrap();
                        pf.set(&[1, 0], C(agg.compress()));
                    }
                    must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || format!("a proof by a prover lying about slot {} (case {})", a, what))
                })
                .policies(few(t)),
            );
        }
    }
    // a commitment under the generator that blinds the witness: whatever the mapping and the verifier make
    // of it, they must not accept a slot that holds something else than the message
    if t != Tier::Conf && !REAL {
        for n in ns.iter().cloned() {
            o.push(
                Scenario::new(format!("K02/reserved/n{}", n), move || {
                    let b = n as u16 - 2;
                    let sets: Vec<BTreeSet<u16>> = match inp(5) {
                        0 => vec![[b].into()],
                        1 => vec![[2u16].into(), [b].into()],
                        2 => vec![[b].into(), [2u16].into()],
                        3 => vec![[2u16, b].into()],
                        _ => vec![[b].into(), [b].into()],
                    };
                    let i = match guarded(|| layout_inst(n, 2, &sets, 0, &[3])) {
                        Ok(Some(i)) => i,
                        _ => return V::Skip,
                    };
                    let sc = Sc::new(inp(2) == 1);
                    let msgs = i.st.at(4).at(1).list().clone();
                    let j = tam(msgs.len() as u32) as usize;
                    let mut lie = Lie { slots: vec![(j, gsc(31))], ..Lie::default() };
                    if tam(2) == 1 {
                        // and the aggregate agrees with the lie
                        lie.aggregate = vec![(msgs[j].at(1).u(), gsc(31))];
                    }
                    rewind(&sc);
                    match guarded(|| lying_copy(&mut transcript(0), &i, &lie)) {
                        Ok(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || {
                            format!("a slot that does not hold message {} of a commitment under the generators {:?}", j, sets)
                        }),
                        Err(_) => V::Ok,
                    }
                })
                .policies(few(t)),
            );
        }
    }
    // a commitment with a component where another's message goes: what the combination makes of
    // it must not make up for a slot that holds something else than its message
    if t != Tier::Conf && !REAL {
        for n in ns.iter().cloned() {
            let mut layouts: Vec<Vec<BTreeSet<u16>>> = vec![vec![[2u16].into()], vec![[2u16].into(), [2u16].into()]];
            if n > 8 {
                layouts.push(vec![[2u16].into(), [2u16].into(), [2u16].into()]);
                layouts.push(vec![[2u16, 3].into(), [2u16, 3].into()]);
                layouts.push((0..5).map(|_| [2u16].into()).collect());
            }
            for (li, f) in layouts.into_iter().enumerate() {
                o.push(
                    Scenario::new(format!("K02/crossed/n{}l{}", n, li), move || {
                        let mut i = copy_setup(n, &f, &[3]);
                        let sc = Sc::new(true);
                        let map = i.st.at(4).at(1).list().clone();
                        let (a, b) = (tam(map.len() as u32) as usize, tam(map.len() as u32) as usize);
                        let c = tam(f.len() as u32) as usize;
                        let e = gsc(31);
                        let factor = [Scalar::one(), fe(2), -Scalar::one()][tam(3) as usize];
                        let lo = [f.len() + 1, 1, 2, f.len()][tam(4) as usize];
                        let (sa, sb) = (map[a].at(3).u(), map[b].at(3).u());
                        let g = i.st.at(0).vp();
                        i.st.set(&[5, c], P(i.st.at(5).vp()[c] + g[sa] * e));
                        let msgs: Vec<Scalar> = i.wit.at(1).list().iter().flat_map(|o| o.at(0).vs()).collect();
                        // the one equation: what slot b is said to hold
                        let d = n - 2;
                        let mut m = vec![vec![Scalar::zero(); d]; d];
                        m[0][sb] = Scalar::one();
                        m[0][0] = e * factor - msgs[b];
                        i.st.set(&[3], L(vec![Node::smat(&m)]));
                        let lie = Lie { slots: vec![(b, -e * factor)], extra: vec![(c, sa, e)], lo: Some(lo), ..Lie::default() };
                        rewind(&sc);
                        match guarded(|| lying_copy(&mut transcript(0), &i, &lie)) {
                            Ok(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || {
                                format!("a wrong value for message {}, made up for by a component of commitment {} at the slot of message {}", b, c, a)
                            }),
                            Err(_) => V::Ok,
                        }
                    })
                    .policies(few(t)),
                );
            }
        }
    }
    // many commitments: every single change, every cancelling pair, every exchange
    if t != Tier::Conf && BIG {
        for n in [16usize, 32] {
            for count in 4..=t.pick(4usize, 8, 11) {
                for shape in 0..4 {
                    o.push(
                        Scenario::new(format!("K02/many/n{}c{}s{}", n, count, shape), move || {
                            let hi = n as u16 - 3;
                            let sets: Vec<BTreeSet<u16>> = (0..count as u16)
                                .map(|i| match shape {
                                    0 => [2u16].into(),
                                    1 => [hi].into(),
                                    2 => [2, hi - i % 2].into(),
                                    _ => (hi - i % 3..=hi).collect(),
                                })
                                .collect();
                            let i = match layout_inst(n, 2, &sets, 0, &[3]) {
                                Some(i) => i,
                                None => return V::Skip,
                            };
                            let sc = Sc::new(inp(2) == 1);
                            let mut op: Vec<(Vec<Scalar>, Scalar)> =
                                i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
                            let (a, b) = (tam(count as u32) as usize, tam(count as u32) as usize);
                            let d = gsc(77);
                            let (la, lb) = (op[a].0.len() - 1, op[b].0.len() - 1);
                            let what = tam(4);
                            if what > 0 && a >= b || what == 0 && a != b {
                                return V::Skip;
                            }
                            match what {
                                0 => op[a].0[la] = op[a].0[la] + d,
                                1 => {
                                    op[a].0[la] = op[a].0[la] + d;
                                    op[b].0[lb] = op[b].0[lb] - d;
                                }
                                2 => {
                                    op[a].1 = op[a].1 + d;
                                    op[b].1 = op[b].1 - d;
                                }
                                _ => {
                                    // whole openings exchanged
                                    if op[a].0.len() != op[b].0.len() {
                                        return V::Skip;
                                    }
                                    op.swap(a, b);
                                }
                            }
                            let wit = i.wit.with(&[1], openings_node(&op));
                            match try_prove(&sc, Proto::Copy, 0, &i.st, &wit) {
                                Some(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || {
                                    format!("other openings than those of the {} commitments ({} at {} and {})", count, what, a, b)
                                }),
                                None => V::Ok,
                            }
                        })
                        .policy(fixed()),
                    );
                }
            }
        }
    }
    // long commitments, many commitments, many indices: boundary positions
    if t != Tier::Conf && BIG {
        for (name, n, sets) in crowds(t) {
            let f = sets.clone();
            o.push(
                Scenario::new(format!("K02/crowd/{}", name), move || {
                    let i = match layout_inst(n, 2, &f, 0, &[3]) {
                        Some(i) => i,
                        None => return V::Fail("no mapping".into()),
                    };
                    let sc = Sc::new(true);
                    let mut op: Vec<(Vec<Scalar>, Scalar)> = i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
                    let places: Vec<(usize, usize)> = super::large::edges(f.len())
                        .into_iter()
                        .flat_map(|c| super::large::edges(f[c].len()).into_iter().map(move |k| (c, k)))
                        .collect();
                    let few = if n > 64 { t.pick(5, 9, 20) } else { 30 };
                    let long = f.iter().map(|s| s.len()).max().unwrap().max(f.len()) > 64;
                    let places: Vec<_> = places
                        .iter()
                        .enumerate()
                        .filter(|(q, p)| match long {
                            // the distances that are powers of two
                            true => [p.0, p.1].iter().any(|x| *x > 8 && x.is_power_of_two()) || p.0 < 2 && p.1 == 0,
                            false => q % (1 + places.len() / few) == 0 || q + 2 > places.len(),
                        })
                        .map(|(_, p)| *p)
                        .collect();
                    let (a, b) = (tam(places.len() as u32) as usize, tam(places.len() as u32) as usize);
                    let what = tam(3);
                    if a > b || a == b && what == 2 || long && (a > 1 || a == b) {
                        return V::Skip;
                    }
                    let (x, y, d) = (places[a], places[b], gsc(77));
                    let j = |p: (usize, usize)| f[..p.0].iter().map(|s| s.len()).sum::<usize>() + p.1;
                    let pf = if what == 0 {
                        // other slots, by the liar
                        let mut slots = vec![(j(x), d)];
                        if a < b {
                            slots.push((j(y), -d));
                        }
                        rewind(&sc);
                        guarded(|| lying_copy(&mut transcript(0), &i, &Lie { slots, ..Lie::default() })).ok()
                    } else {
                        // other openings, by the library
                        op[x.0].0[x.1] = op[x.0].0[x.1] + d;
                        if a < b {
                            op[y.0].0[y.1] = op[y.0].0[y.1] - d;
                        }
                        if what == 2 {
                            op[x.0].1 = op[x.0].1 + d;
                            op[y.0].1 = op[y.0].1 - d;
                        }
                        try_prove(&sc, Proto::Copy, 0, &i.st, &i.wit.with(&[1], openings_node(&op)))
                    };
                    match pf {
                        Some(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || format!("other openings ({} at {:?} and {:?})", what, x, y)),
                        None => V::Ok,
                    }
                })
                .policy(fixed()),
            );
        }
    }
    // the truth, by the same prover: reported, not judged (it says whether the liar speaks the protocol)
    if !REAL {
        o.push(
            Scenario::new("K02/liar/control", move || {
                let i = copy_setup(8, &[[2u16].into(), [2u16].into()], &[3]);
                let sc = Sc::new(true);
                let lie = Lie { lo: [None, Some(1)][inp(2) as usize], ..Lie::default() };
                rewind(&sc);
                match guarded(|| lying_copy(&mut transcript(0), &i, &lie)) {
                    Ok(pf) => control(&format!("liar, commitments from {:?}", lie.lo), accepted(&sc, Proto::Copy, 0, &i.st, &pf)),
                    Err(_) => control(&format!("liar, commitments from {:?}", lie.lo), false),
                }
            })
            .policy(fixed()),
        );
    }
    o.extend(super::large::reject_large("K02", t, &[Proto::Copy]));
    o.extend(super::late::late("K02", t, &[Proto::Copy]));
    o.extend(super::late::late_commitments(t));
    o.extend(super::late::split_copy(t));
    o.extend(super::bent::copies(t));
    o.extend(tamper("K02", t, &[Proto::Copy], &ns, t.pick(1, 3, 6)));
    o.extend(other_statement("K02", t, &[Proto::Copy], &ns[..1], t.pick(1, 3, 6)));
    for v in 0..t.pick(1, 6, 6) {
        for list in [0, 1, 3, 5] {
            o.push(list_changes("K02", t, Proto::Copy, 8, v, list, false));
        }
    }
    // a message changed, under every value of every challenge
    o.push(
        Scenario::new("K02/challenges", move || {
            let f: Vec<BTreeSet<u16>> = vec![[2u16].into(), [2u16].into()];
            let i = copy_setup(8, &f, &[3]);
            let mut op: Vec<(Vec<Scalar>, Scalar)> = i.wit.at(1).list().iter().map(|o| (o.at(0).vs(), o.at(1).s())).collect();
            op[0].0[0] = op[0].0[0] + Scalar::one();
            if tam(2) == 1 {
                op[1].0[0] = op[1].0[0] - Scalar::one();
            }
            let sc = None;
            match try_prove(&sc, Proto::Copy, 0, &i.st, &i.wit.with(&[1], openings_node(&op))) {
                Some(pf) => must_reject(&sc, Proto::Copy, 0, &i.st, &pf, || "other openings".into()),
                None => V::Ok,
            }
        })
        .policies(all_challenges(t)),
    );
    o
}

// ---- I02 ---------------------------------------------------------------------------

pub fn i02(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        o.extend(ipa_games(t));
        return o;
    }
    let ns = t.pick(vec![2usize, 4], vec![1, 2, 4, 8, 16], vec![1, 2, 4, 8, 16, 32, 64]);
    for proto in [Ipa, Alm] {
        for n in ns.iter().cloned() {
            if proto == Alm && n < 2 {
                continue;
            }
            for mode in 0..modes() {
                let body = move |all: bool| {
                    let mut wd = World::new(n as u64 ^ 0x55);
                    let c = crs(&mut wd, n);
                    let pa = if all { 0 } else { inp(t.pick(1, PATTERNS, PATTERNS)) };
                    let (a, b) = (pattern(pa, n, 1), pattern(0, n, 2));
                    let i = if proto == Ipa { ipa_inst(&c, &a, &b) } else { alm_inst(&c, &a, &b) };
                    let d = [gsc(9), Scalar::one(), -Scalar::one()][if all { 0 } else { tam(t.pick(1, 3, 3)) as usize }];
                    let sc = Sc::new(mode == 1);
                    let k = tam(n as u32) as usize;
                    let what = tam(8);
                    let mut st = i.st.clone(); // what the verifier is asked
                    let mut pst = i.st.clone(); // what the prover is told
                    let mut wit = i.wit.clone();
                    if k > 0 && !matches!(what, 2 | 3 | 6 | 7) {
                        return V::Skip;
                    }
                    let (p, tt) = (i.st.at(4).p(), i.st.at(5).s());
                    match what {
                        // wrong claim only
                        0 => st.set(&[5], S(tt + d)),
                        // wrong claim, commitment to match it
                        1 => {
                            st.set(&[5], S(tt + d));
                            if proto == Ipa {
                                st.set(&[4], P(p + c.q * d));
                            }
                            pst = st.clone();
                        }
                        2 => st.set(&[4], P(p + c.g[k] * d)),
                        3 => {
                            st.set(&[4], P(p + c.h[k] * d));
                            pst = st.clone();
                        }
                        4 => {
                            if proto == Alm {
                                return V::Skip;
                            }
                            st.set(&[4], P(p + c.q * d))
                        }
                        5 => {
                            st.set(&[4], P(p + c.q * d));
                            pst = st.clone();
                        }
                        // the prover uses other vectors
                        6 => {
                            let v = i.wit.get(&[0, k]).s() + d;
                            wit.set(&[0, k], S(v));
                        }
                        _ => {
                            let v = i.wit.get(&[1, k]).s() + d;
                            wit.set(&[1, k], S(v));
                        }
                    }
                    match try_prove(&sc, proto, 0, &pst, &wit) {
                        Some(pf) => must_reject(&sc, proto, 0, &st, &pf, || format!("a false claim ({} at {})", what, k)),
                        None => V::Ok,
                    }
                };
                o.push(Scenario::new(format!("I02/claims/{:?}/n{}m{}", proto, n, mode), move || body(false)).policies(few(t)));
                if n <= t.pick(4, 4, 8) && mode == 0 {
                    o.push(Scenario::new(format!("I02/challenges/{:?}/n{}m{}", proto, n, mode), move || body(true)).policies(all_challenges(t)));
                }
            }
            // wrong length, wrong generators
            o.push(
                Scenario::new(format!("I02/shape/{:?}/n{}", proto, n), move || {
                    let mut wd = World::new(n as u64 ^ 0x55);
                    let c = crs(&mut wd, n);
                    let (a, b) = (pattern(0, n, 1), pattern(0, n, 2));
                    let i = if proto == Ipa { ipa_inst(&c, &a, &b) } else { alm_inst(&c, &a, &b) };
                    let sc = Sc::new(!REAL && inp(2) == 1);
                    let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                        Some(p) => p,
                        None => return V::Skip,
                    };
                    let mut st = i.st.clone();
                    let half = |x: &Node| L(x.list()[..n / 2].to_vec());
                    let twice = |x: &Node| L([x.list().clone(), x.list().clone()].concat());
                    let what = tam(10);
                    match what {
                        0 => st.set(&[3], U(n as u64 / 2)),
                        1 => st.set(&[3], U(2 * n as u64)),
                        2 => st.set(&[3], U(n as u64 + 1)),
                        3 => st.set(&[3], U(0)),
                        4 => {
                            if n < 2 {
                                return V::Skip;
                            }
                            st.set(&[3], U(n as u64 / 2));
                            st.set(&[0], half(i.st.at(0)));
                            st.set(&[1], half(i.st.at(1)));
                        }
                        5 => {
                            st.set(&[3], U(2 * n as u64));
                            st.set(&[0], twice(i.st.at(0)));
                            st.set(&[1], twice(i.st.at(1)));
                        }
                        6 => {
                            st.set(&[0], i.st.at(1).clone());
                            st.set(&[1], i.st.at(0).clone());
                        }
                        7 => {
                            if n < 2 {
                                return V::Skip;
                            }
                            st = swapped(&st, &[0, 0], &[0, n - 1]).unwrap();
                        }
                        8 => {
                            if n < 2 {
                                return V::Skip;
                            }
                            st = swapped(&st, &[1, 0], &[1, n - 1]).unwrap();
                        }
                        _ => st.set(&[2], P(i.st.get(&[0, 0]).p())),
                    }
                    must_reject(&sc, proto, 0, &st, &pf, || format!("a proof under other generators or lengths ({})", what))
                })
                .policies(few(t)),
            );
        }
    }
    o.extend(super::large::reject_large("I02", t, &[Ipa, Alm]));
    o.extend(super::late::late("I02", t, &[Ipa, Alm]));
    o.extend(super::late::simulated("I02", t, &[Alm]));
    o.extend(tamper("I02", t, &[Ipa, Alm], &ns, t.pick(1, 2, 8)));
    o.extend(other_statement("I02", t, &[Ipa, Alm], &ns, t.pick(1, 2, 4)));
    o
}

/// All statements and all proofs over a small field: how many challenges does the best proof answer?
fn ipa_games(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    // length one: commitment = all combinations of G, H, Q; claim; final scalars may depend on the challenge
    for p in t.pick(vec![], vec![5u32, 7], vec![5, 7, 11]) {
        for pg in 0..p {
            o.push(
                Scenario::new(format!("I02/game/n1/p{}/{}", p, pg), move || {
                    let mut wd = World::new(1);
                    let c = crs(&mut wd, 1);
                    let (ph, pq, claim) = (inp(p), inp(p), inp(p));
                    let pt = lin(&[fe(pg as u64), fe(ph as u64), fe(pq as u64)], &[c.g[0], c.h[0], c.q]);
                    let st = L(vec![Node::pts(&c.g), Node::pts(&c.h), P(c.q), U(1), P(pt), S(fe(claim as u64))]);
                    let is_true = claim == pq && pq == pg * ph % p;
                    let mut answered = 0;
                    for alpha in 1..p {
                        'found: for a in 0..p {
                            for b in 0..p {
                                mcrt::oracle_script(&[alpha]);
                                let pf = L(vec![L(vec![]), L(vec![]), S(fe(a as u64)), S(fe(b as u64))]);
                                if accepts(Ipa, 0, &st, &pf) {
                                    answered += 1;
                                    break 'found;
                                }
                            }
                        }
                    }
                    if !is_true && answered > 2 {
                        V::Fail(format!(
                            "false claim ({} G + {} H + {} Q, claimed {}) accepted for {} of {} challenges",
                            pg,
                            ph,
                            pq,
                            claim,
                            answered,
                            p - 1
                        ))
                    } else {
                        V::Ok
                    }
                })
                .field(p, 3),
            );
        }
    }
    // length two, false statements; round messages right except for their product part, which is
    // any; any final scalars.  An answerable challenge is a root of a polynomial of degree at most four.
    for (p, case, off) in t.pick(vec![], vec![(11u32, 0u32, 1u64), (11, 1, 1)], vec![(11, 0, 1), (11, 0, 2), (11, 1, 1), (13, 0, 1), (13, 1, 3)]) {
        for l0 in 0..p {
            let name = format!("I02/game/n2/p{}/{}+{}/{}", p, case, off, l0);
            o.push(
                Scenario::new(name, move || {
                    let mut wd = World::new(1);
                    let c = crs(&mut wd, 2);
                    let (a, b) = ([fe(1), fe(2)], [fe(3), fe(1)]);
                    let tt = ip(&a, &b);
                    let claim = tt + fe(off);
                    let pt = lin(&a, &c.g) + lin(&b, &c.h) + c.q * if case == 0 { claim } else { tt };
                    let st = L(vec![Node::pts(&c.g), Node::pts(&c.h), P(c.q), U(2), P(pt), S(claim)]);
                    let alpha = inp(p - 1) + 1;
                    let r0 = inp(p);
                    let l = c.g[1] * a[0] + c.h[0] * b[1] + c.q * fe(l0 as u64);
                    let r = c.g[0] * a[1] + c.h[1] * b[0] + c.q * fe(r0 as u64);
                    let mut answered = 0;
                    for x in 1..p {
                        'found: for fa in 0..p {
                            for fb in 0..p {
                                mcrt::oracle_script(&[alpha, x]);
                                let pf = L(vec![L(vec![C(l.compress())]), L(vec![C(r.compress())]), S(fe(fa as u64)), S(fe(fb as u64))]);
                                if accepts(Ipa, 0, &st, &pf) {
                                    answered += 1;
                                    break 'found;
                                }
                            }
                        }
                    }
                    V::Tally(format!("false claim, messages {} {}", l0, r0), answered > 4)
                })
                .field(p, 5)
                // when commitment and claim disagree, one value of the first challenge makes them agree
                .max_acc(if case == 0 { 0.0 } else { 1.5 / (p - 1) as f64 }),
            );
        }
    }
    o
}

// ---- L02, L04 ------------------------------------------------------------------------

fn false_images(prop: &str, t: Tier, protos: &[Proto], sizes: &[(usize, usize)]) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in protos.iter().cloned() {
        for (n, k) in sizes.iter().cloned() {
            for mode in 0..modes() {
                let body = move |all: bool| {
                    let m = if all { 2 } else { inp(t.pick(2, 4, 5)) as usize + 1 };
                    let kind = if all { 0 } else { inp(t.pick(1, MATS, MATS)) };
                    let mut wd = World::new(n as u64 ^ 0x88);
                    let a = pmatrix(&mut wd, kind, m, n);
                    let wp = if all { 0 } else { inp(t.pick(1, 3, PATTERNS)) };
                    let w = pattern(wp, n, 3);
                    let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
                    let i = lmpa_inst(proto, &a, &w, k, &aux);
                    let sc = Sc::new(mode == 1);
                    let d = wd.pt();
                    let mut tv = i.st.at(1).vp();
                    let r = tam(m as u32) as usize;
                    let r2 = tam(m as u32) as usize;
                    let what = tam(5);
                    match what {
                        0 => {
                            if r2 > 0 {
                                return V::Skip;
                            }
                            tv[r] = tv[r] + d
                        }
                        1 => {
                            if r >= r2 {
                                return V::Skip;
                            }
                            tv[r] = tv[r] + d;
                            tv[r2] = tv[r2] - d;
                        }
                        2 => {
                            if r >= r2 || tv[r] == tv[r2] {
                                return V::Skip;
                            }
                            tv.swap(r, r2)
                        }
                        3 => {
                            if r2 > 0 || tv[r] == RistrettoPoint::identity() {
                                return V::Skip;
                            }
                            tv[r] = RistrettoPoint::identity()
                        }
                        _ => {
                            // the image of another vector in one row
                            if r2 > 0 || n < 2 {
                                return V::Skip;
                            }
                            let v = lin(&pattern(0, n, 4), &a[r]);
                            if v == tv[r] || m == 1 {
                                return V::Skip;
                            }
                            tv[r] = v;
                        }
                    }
                    let st = i.st.with(&[1], Node::pts(&tv));
                    // the k-ary provers are given the image: true or false
                    let told = if matches!(proto, LmpaK | SimpleK) && tam(2) == 1 { &i.st } else { &st };
                    match try_prove(&sc, proto, 0, told, &i.wit) {
                        Some(pf) => must_reject(&sc, proto, 0, &st, &pf, || format!("a wrong image in row {} of {} ({})", r, m, what)),
                        None => V::Ok,
                    }
                };
                o.push(Scenario::new(format!("{}/images/{:?}/n{}k{}m{}", prop, proto, n, k, mode), move || body(false)).policies(few(t)));
                if n <= 4 && mode == 0 {
                    o.push(
                        Scenario::new(format!("{}/challenges/{:?}/n{}k{}m{}", prop, proto, n, k, mode), move || body(true))
                            .policies(all_challenges(t)),
                    );
                }
            }
        }
    }
    o
}
/// rows, columns and sizes of the statement
fn row_changes(prop: &str, t: Tier, protos: &[Proto]) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in protos.iter().cloned() {
        for v in 0..t.pick(2, 6, 6) {
            for list in [0, 1] {
                o.push(list_changes(prop, t, proto, 4, v, list, false));
                if !REAL {
                    // with fixed challenges, only the algebra can tell: rows are checked one by one
                    o.push(rows_scripted(prop, t, proto, v, list));
                }
            }
        }
    }
    o
}
fn rows_scripted(prop: &str, t: Tier, proto: Proto, v: u32, list: usize) -> Scenario {
    Scenario::new(format!("{}/rows{}/{:?}/v{}", prop, list, proto, v), move || {
        let i = standard(proto, 4, v);
        let sc = Sc::new(true);
        let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
            Some(p) => p,
            None => return V::Skip,
        };
        let l = i.st.at(list).list().clone();
        let mut m = l.clone();
        let a = tam(l.len() as u32) as usize;
        match tam(3) {
            0 => m.swap(0, a),
            1 => m[a] = m[0].clone(),
            _ => m.reverse(),
        }
        if m == l {
            return V::Skip;
        }
        must_reject(&sc, proto, 0, &i.st.with(&[list], L(m)), &pf, || format!("exchanged rows of list {}", list))
    })
    .policies(few(t))
}

/// A prover that owns the pre-image of every row but not a common one, and fixes up derived values.
fn kary_forgeries(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in [LmpaK, SimpleK] {
        for (n, k) in [(2usize, 2usize), (4, 2), (3, 3), (9, 3), (6, 3), (1, 2)] {
            for mode in 0..modes() {
                o.push(
                    Scenario::new(format!("L04/forged/{:?}/n{}k{}m{}", proto, n, k, mode), move || {
                        let m = inp(3) as usize + 1;
                        let mut wd = World::new(n as u64 ^ 0x99);
                        let a = pmatrix(&mut wd, 0, m, n);
                        let w = pattern(0, n, 3);
                        let aux = Crs { g: vec![], h: vec![], q: wd.pt() };
                        let i = lmpa_inst(proto, &a, &w, k, &aux);
                        let r = tam(m as u32) as usize;
                        let mut tv = i.st.at(1).vp();
                        tv[r] = tv[r] + wd.pt();
                        let st = i.st.with(&[1], Node::pts(&tv));
                        let sc = Sc::new(mode == 1);
                        let told = if tam(2) == 1 { &i.st } else { &st };
                        let pf = match try_prove(&sc, proto, 0, told, &i.wit) {
                            Some(p) => p,
                            None => return V::Ok,
                        };
                        // [A, t, w, u] inside
                        let pre: Vec<usize> = if proto == LmpaK { vec![] } else { vec![1] };
                        let at = |x: usize| [pre.clone(), vec![x]].concat();
                        let (fa, ft, fw) = (pf.get(&at(0)).mp(), pf.get(&at(1)).vp(), pf.get(&at(2)).vs());
                        let mut forged = pf.clone();
                        let what = tam(5);
                        match what {
                            // final matrix adjusted to the final image
                            0 => {
                                let mut fa2 = fa.clone();
                                for q in 0..m {
                                    let miss = ft[q] - lin(&fw, &fa[q]);
                                    fa2[q][0] = fa2[q][0] + miss * fw[0].invert();
                                }
                                forged.set(&at(0), Node::pmat(&fa2));
                            }
                            // final image adjusted to the final matrix
                            1 => {
                                let t2: Vec<RistrettoPoint> = fa.iter().map(|row| lin(&fw, row)).collect();
                                forged.set(&at(1), Node::pts(&t2));
                            }
                            // everything final is trivial
                            2 => {
                                let id = RistrettoPoint::identity();
                                forged.set(&at(0), Node::pmat(&vec![vec![id; fw.len()]; m]));
                                forged.set(&at(1), Node::pts(&vec![id; m]));
                                forged.set(&at(2), Node::scs(&vec![Scalar::zero(); fw.len()]));
                            }
                            // the true image in the middle of some round
                            3 => {
                                let rounds = pf.get(&at(3)).list().len();
                                if rounds == 0 {
                                    return V::Skip;
                                }
                                let q = tam(rounds as u32) as usize;
                                let mut path = at(3);
                                path.extend([q, k - 1]);
                                forged.set(&path, i.st.at(1).clone());
                                if forged == pf {
                                    return V::Skip;
                                }
                            }
                            // no rounds, no rows
                            _ => {
                                forged.set(&at(0), L(vec![]));
                                forged.set(&at(1), L(vec![]));
                            }
                        }
                        must_reject(&sc, proto, 0, &st, &forged, || format!("a forged proof for a wrong image in row {} ({})", r, what))
                    })
                    .policies(few(t)),
                );
            }
        }
    }
    o
}

/// Two-way protocol, one row over A0, A1 plus a component outside their span:
/// for every pair of round messages count the challenges that can be answered.
fn lmpa_games(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    for p in t.pick(vec![], vec![5u32], vec![5, 7]) {
        for out in 1..p {
            for l0 in 0..p {
                o.push(
                    Scenario::new(format!("L02/game/p{}/out{}/{}", p, out, l0), move || {
                        let mut wd = World::new(1);
                        let a = vec![wd.pts(2)];
                        let z = wd.pt();
                        let tv = a[0][0] * fe(2) + a[0][1] * fe(3) + z * fe(out as u64);
                        let c = |k: &[u64]| a[0][0] * fe(k[0]) + a[0][1] * fe(k[1]) + z * fe(k[2]);
                        let l = c(&[l0 as u64, inp(p) as u64, inp(p) as u64]);
                        let r = c(&[inp(p) as u64, inp(p) as u64, inp(p) as u64]);
                        let st = L(vec![Node::pmat(&a), Node::pts(&[tv]), Node::pts(&a[0]), Node::pts(&a[0]), P(z), U(2)]);
                        let mut answered = 0;
                        for x in 1..p {
                            for w in 0..p {
                                mcrt::oracle_script(&[x]);
                                let pf = L(vec![Node::pmat(&[vec![l]]), Node::pmat(&[vec![r]]), S(fe(w as u64))]);
                                if accepts(Lmpa, 0, &st, &pf) {
                                    answered += 1;
                                    break;
                                }
                            }
                        }
                        if answered > 2 {
                            V::Fail(format!("messages {:?} {:?} answer {} of {} challenges for an image outside the span", l, r, answered, p - 1))
                        } else {
                            V::Ok
                        }
                    })
                    .field(p, 3),
                );
            }
        }
    }
    o
}

pub fn l02(t: Tier) -> Vec<Scenario> {
    if SMALL {
        return lmpa_games(t);
    }
    let ns = t.pick(vec![1usize, 2, 4], vec![1, 2, 4, 8, 16], vec![1, 2, 4, 8, 16, 32, 64]);
    let mut o = false_images("L02", t, &[Lmpa, Simple], &ns.iter().map(|n| (*n, 2)).collect::<Vec<_>>());
    o.extend(super::large::reject_large("L02", t, &[Lmpa, Simple]));
    o.extend(super::late::late("L02", t, &[Lmpa, Simple]));
    o.extend(super::late::simulated("L02", t, &[Simple]));
    o.extend(tamper("L02", t, &[Lmpa, Simple], &ns, t.pick(1, 3, 3)));
    o.extend(other_statement("L02", t, &[Lmpa, Simple], &ns[..ns.len().min(4)], t.pick(1, 3, 3)));
    o.extend(row_changes("L02", t, &[Lmpa, Simple]));
    o
}
/// k-ary: one row, splitting into k, image outside the span; all round messages along one direction
fn kary_games(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    for (p, k) in t.pick(vec![], vec![(5u32, 2usize), (7, 2)], vec![(5, 2), (7, 2), (11, 2)]) {
        for out in 1..p {
            o.push(
                Scenario::new(format!("L04/game/p{}k{}/out{}", p, k, out), move || {
                    let mut wd = World::new(1);
                    let a = vec![wd.pts(k)];
                    let z = wd.pt();
                    let tv = a[0][0] * fe(2) + a[0][1] * fe(3) + z * fe(out as u64);
                    // u_{-1} = A_1 w_0 .. plus any multiple of z
                    let lo = a[0][1] * fe(2) + z * fe(inp(p) as u64);
                    let hi = a[0][0] * fe(3) + z * fe(inp(p) as u64);
                    let (e0, e1) = if inp(2) == 0 { (lo, hi) } else { (hi, lo) };
                    let st = L(vec![Node::pmat(&a), Node::pts(&[tv]), U(2), U(1), U(2), S(Scalar::one()), P(RistrettoPoint::identity())]);
                    let mut answered = 0;
                    for x in 1..p {
                        'f: for w in 0..p {
                            for fa0 in 0..p {
                                for fa1 in 0..p {
                                    // final matrix and image: as the verifier computes them
                                    let _ = (fa0, fa1);
                                    let (xs, xi) = (fe(x as u64), fe(x as u64).invert());
                                    let fa = a[0][0] + a[0][1] * xs;
                                    for (zl, zh) in [(xs, xi), (xi, xs)] {
                                        let ft = e0 * zl + tv + e1 * zh;
                                        mcrt::oracle_script(&[x]);
                                        let pf = L(vec![
                                            Node::pmat(&[vec![fa]]),
                                            Node::pts(&[ft]),
                                            Node::scs(&[fe(w as u64)]),
                                            L(vec![Node::pmat(&[vec![e0], vec![tv], vec![e1]])]),
                                        ]);
                                        if accepts(LmpaK, 0, &st, &pf) {
                                            answered += 1;
                                            break 'f;
                                        }
                                    }
                                    break;
                                }
                                break;
                            }
                        }
                    }
                    if answered > 2 {
                        V::Fail(format!("an image outside the span is accepted for {} of {} challenges", answered, p - 1))
                    } else {
                        V::Ok
                    }
                })
                .field(p, 3),
            );
        }
    }
    o
}
pub fn l04(t: Tier) -> Vec<Scenario> {
    if SMALL {
        return kary_games(t);
    }
    let sizes = t.pick(
        vec![(2usize, 2usize), (4, 2), (3, 3)],
        vec![(1, 2), (2, 2), (4, 2), (8, 2), (3, 3), (6, 3), (9, 3), (4, 4), (5, 5), (2, 3), (16, 4)],
        kary_sizes(6, 36),
    );
    let mut o = false_images("L04", t, &[LmpaK, SimpleK], &sizes);
    let ns = t.pick(vec![2usize, 4], vec![2, 4, 8], vec![2, 4, 8, 16]);
    o.extend(super::large::reject_large("L04", t, &[LmpaK, SimpleK]));
    o.extend(super::late::late("L04", t, &[LmpaK, SimpleK]));
    o.extend(super::late::simulated("L04", t, &[SimpleK]));
    o.extend(tamper("L04", t, &[LmpaK, SimpleK], &ns, t.pick(2, 6, 6)));
    o.extend(other_statement("L04", t, &[LmpaK, SimpleK], &ns, t.pick(2, 6, 6)));
    o.extend(row_changes("L04", t, &[LmpaK, SimpleK]));
    o.extend(kary_forgeries(t));
    o
}
