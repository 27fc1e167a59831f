//! Larger sizes: the places where a size, an index or a count crosses a power of two, a
//! byte, or the width of something else.  Boundary positions instead of all of them.
use super::sound::*;
use super::Tier;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;

/// Boundary positions in a list of this length.
pub fn edges(len: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128];
    for k in [4, 2] {
        v.extend([len / k, (len / k).wrapping_sub(1), len - len / k]);
    }
    v.extend((1..=4).map(|k| len.wrapping_sub(k)));
    v.retain(|x| *x < len);
    v.sort();
    v.dedup();
    v
}
pub fn edge_leaf(n: &Node, q: &[usize]) -> bool {
    let mut cur = n;
    let mut lens = vec![];
    for x in q {
        let len = cur.list().len();
        if !edges(len).contains(x) {
            return false;
        }
        lens.push((*x, len));
        cur = cur.at(*x);
    }
    // of square matrices the diagonal, the border and the middle
    if lens.len() == 4 && lens[2].1 > 8 {
        let ((i, m), (j, n)) = (lens[2], lens[3]);
        let b = |x: usize, n: usize| x == 0 || x + 1 == n;
        return i == j && i % 2 == 1 || b(i, m) && b(j, n) || i == m / 2 && b(j, n) || b(i, m) && j == n / 2;
    }
    true
}
pub fn fits(p: Proto, n: usize) -> bool {
    !(p == Alm && n < 2 || matches!(p, Inner | Zk) && n < 4 || p == Proto::Copy && n < 8)
}
/// (size, variant): large, or many equations, rows, commitments
fn shapes(p: Proto, t: Tier, honest: bool, variants: impl Fn(usize) -> u32) -> Vec<(usize, u32)> {
    let mut o = vec![];
    for n in t.pick(vec![], vec![64, 128], vec![64, 128, 256]) {
        o.extend((0..variants(n)).map(|v| (n, v)));
    }
    let square = matches!(p, Inner | Zk | Proto::Copy);
    o.extend(match (t, honest) {
        (Tier::Conf, _) => vec![],
        (Tier::Quick, true) if square => vec![(256, 0), (256, 1), (512, 2)],
        (Tier::Quick, true) => vec![(256, 0), (256, 1), (512, 0), (512, 1), (1024, 0), (1024, 1), (2048, 0), (4096, 0)],
        (Tier::Quick, false) if p == Proto::Copy => vec![(256, 1)],
        (Tier::Quick, false) if square => vec![],
        (Tier::Quick, false) => vec![(256, 0), (512, 0), (1024, 0)],
        (_, true) if square => vec![(512, 0), (512, 1), (1024, 1)],
        (_, true) => vec![(512, 0), (512, 1), (512, 2), (1024, 0), (1024, 1), (2048, 0), (4096, 0), (8192, 0), (65536, 0)],
        (_, false) if square => vec![(256, 1), (512, 0)],
        (_, false) => vec![(512, 0), (1024, 0), (2048, 0)],
    });
    if !matches!(p, Ipa | Alm) && t != Tier::Conf {
        o.extend(MANY.iter().map(|v| (4, *v)));
        o.extend(MORE.iter().filter(|v| p != Proto::Copy || many(**v).unwrap() < t.pick(0, 40, 80)).map(|v| (4, *v)));
        if matches!(p, LmpaK | SimpleK) {
            o.extend(WIDE_K.iter().map(|x| (4, x.0)));
        }
        o.extend(t.pick(vec![], vec![(16, 17)], vec![(16, 16), (16, 17), (16, 18), (64, 17)]));
    }
    o
}

/// honest proofs are accepted
pub fn honest_large(prop: &str, t: Tier, protos: &[Proto]) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG {
        return o;
    }
    for proto in protos.iter().cloned() {
        {
            for (n, v) in shapes(proto, t, true, |_| t.pick(1, 3, 6)) {
                o.push(
                    Scenario::new(format!("{}/large/{:?}/n{}v{}", prop, proto, n, v), move || complete(&standard(proto, n, v), inp(2)))
                        .policy(fixed()),
                );
            }
        }
    }
    o
}
/// changed proofs and other statements are rejected
pub fn reject_large(prop: &str, t: Tier, protos: &[Proto]) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG {
        return o;
    }
    for proto in protos.iter().cloned() {
        {
            for (n, v) in shapes(proto, t, false, |n| t.pick(1, if n > 64 { 1 } else { 2 }, 3)) {
                if v == 21 && matches!(proto, LmpaK | SimpleK) && t == Tier::Quick {
                    continue;
                }
                o.push(
                    Scenario::new(format!("{}/large-element/{:?}/n{}v{}", prop, proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let sc = Sc::new(inp(2) == 1);
                        let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Skip,
                        };
                        let ls: Vec<_> = pf.leaves().into_iter().filter(|q| edge_leaf(&pf, q)).collect();
                        let l = &ls[tam(ls.len() as u32) as usize];
                        match perturb(pf.get(l), tam(t.pick(1, 1, 4)), &gens(proto, &i.st), &all_leaves(&pf)) {
                            Some(new) => must_reject(&sc, proto, 0, &i.st, &pf.with(l, new), || format!("a proof changed at {:?}", l)),
                            None => V::Skip,
                        }
                    })
                    .policy(fixed()),
                );
                // vectors with zeros do not notice some generators: the claim stays true
                if v > 0 && matches!(proto, Ipa | Alm) {
                    continue;
                }
                o.push(
                    Scenario::new(format!("{}/large-statement/{:?}/n{}v{}", prop, proto, n, v), move || {
                        let i = standard(proto, n, v);
                        let sc = Sc::new(true);
                        let pf = match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                            Some(p) => p,
                            None => return V::Skip,
                        };
                        let ls: Vec<_> = statement_leaves(proto, &i.st).into_iter().filter(|q| edge_leaf(&i.st, q)).collect();
                        let l = &ls[tam(ls.len() as u32) as usize];
                        match perturb(i.st.get(l), 0, &gens(proto, &i.st), &[]) {
                            Some(new) => must_reject(&sc, proto, 0, &i.st.with(l, new), &pf, || format!("a proof for a statement differing at {:?}", l)),
                            None => V::Skip,
                        }
                    })
                    .policy(fixed()),
                );
            }
        }
    }
    o
}
/// a child that does all of this, to listen to
pub fn child() {
    for proto in ALL {
        let mut sizes = vec![(64usize, 1u32), (128, 1), (256, 1)];
        if !matches!(proto, Ipa | Alm) {
            sizes.extend(MANY.iter().chain(&MORE).map(|v| (8, *v)).filter(|x| proto != Proto::Copy || many(x.1).unwrap() < 40));
        }
        if matches!(proto, LmpaK | SimpleK) {
            sizes.extend(WIDE_K.iter().map(|x| (4, x.0)));
        }
        for (n, v) in sizes {
            let i = standard(proto, n, v);
            let pf = match guarded(|| prove(proto, &mut transcript(0), &i.st, &i.wit)) {
                Ok(p) => p,
                Err(_) => continue,
            };
            accepts(proto, 0, &i.st, &pf);
            accepts(proto, 1, &i.st, &pf);
            let ls = pf.leaves();
            for l in [&ls[0], &ls[ls.len() - 1]] {
                if let Some(x) = perturb(pf.get(l), 0, &gens(proto, &i.st), &[]) {
                    accepts(proto, 0, &i.st, &pf.with(l, x));
                }
            }
        }
    }
}
