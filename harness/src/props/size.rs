//! Proof sizes: what the protocols promise, and a function of the public sizes only.
use super::complete::{layout_inst, r_pattern, subsets};
use super::sound::{try_prove, Sc};
use super::Tier;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use mcrt::mix;

/// numbers of group elements and of scalars
fn count(n: &Node) -> (usize, usize) {
    match n {
        P(_) | C(_) => (1, 0),
        S(_) => (0, 1),
        U(_) => (0, 0),
        L(v) => v.iter().map(count).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
    }
}
/// the nesting and the kinds of elements
fn shape(n: &Node, o: &mut String) {
    match n {
        P(_) | C(_) => o.push('g'),
        S(_) => o.push('s'),
        U(_) => o.push('u'),
        L(v) => {
            o.push('(');
            v.iter().for_each(|x| shape(x, o));
            o.push(')');
        }
    }
}
fn log2(n: usize) -> usize {
    n.trailing_zeros() as usize
}
/// what the protocol promises for a statement of these sizes
fn promised(p: Proto, st: &Node) -> (usize, usize) {
    match p {
        Ipa => (2 * log2(st.at(0).list().len()), 2),
        Alm => (2 * log2(st.at(0).list().len()) + 1, 2),
        Inner | Zk => (2 * log2(st.at(0).list().len()) + 3, 2),
        Proto::Copy => (2 * log2(st.at(0).list().len()) + 4, 2),
        Lmpa | Simple => {
            let (m, n) = (st.at(0).list().len(), st.at(0).at(0).list().len());
            (2 * m * log2(n) + if p == Simple { m } else { 0 }, 1)
        }
        LmpaK | SimpleK => {
            let (m, mut n) = (st.at(0).list().len(), st.at(0).at(0).list().len());
            let k = st.at(4).u();
            let mut rounds = 0;
            while n >= k {
                n /= k;
                rounds += 1;
            }
            // the last matrix and image travel along
            ((2 * k - 1) * m * rounds + m * n + m + if p == SimpleK { m } else { 0 }, n)
        }
    }
}
/// The proof of `i` is no larger than promised and has the form of the proof of `like`,
/// a statement with the same public sizes.
fn judge(i: &Inst, like: &Inst, scripted: bool) -> V {
    let sc = Sc::new(scripted);
    let a = match try_prove(&sc, i.proto, 0, &i.st, &i.wit) {
        Some(a) => a,
        None => return V::Skip,
    };
    // under some fixed challenges
    if !REAL {
        mcrt::oracle_script(&[1; 48]);
    }
    let b = match guarded(|| prove(like.proto, &mut transcript(0), &like.st, &like.wit)) {
        Ok(b) => b,
        Err(_) => return V::Skip,
    };
    let (c, p) = (count(&a), promised(i.proto, &i.st));
    if c.0 > p.0 || c.1 > p.1 {
        return V::Fail(format!("{:?}: a proof of {} group elements and {} scalars, promised are {} and {}", i.proto, c.0, c.1, p.0, p.1));
    }
    let (mut x, mut y) = (String::new(), String::new());
    shape(&a, &mut x);
    shape(&b, &mut y);
    if x != y {
        return V::Fail(format!("{:?}: the form of the proof depends on more than the sizes: {} and {} ({:?} and {:?} elements)", i.proto, x, y, c, count(&b)));
    }
    V::Ok
}
fn vecs(k: u32, n: usize, tag: u64) -> Vec<Scalar> {
    pattern(k, n, tag)
}
/// generators: independent; all equal; some the identity
fn gens_kind(w: &mut World, kind: u32, n: usize) -> Vec<RistrettoPoint> {
    let g = w.pts(n);
    (0..n)
        .map(|i| match kind {
            0 => g[i],
            1 => g[0],
            2 if i >= n / 2 => base_mul(&Scalar::zero()),
            3 if i % 2 == 1 => base_mul(&Scalar::zero()),
            _ => g[i],
        })
        .collect()
}

pub fn s01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        // all vectors, all challenges: rounds whose messages vanish are rounds like any other
        for (n, p) in t.pick(vec![], vec![(2usize, 3u32), (4, 3)], vec![(2, 5), (4, 3), (8, 3)]) {
            for proto in [Ipa, Alm, Lmpa, Simple] {
                o.push(
                    Scenario::new(format!("S01/all/{:?}/n{}/p{}", proto, n, p), move || {
                        mcrt::set_chal_domain(0, p);
                        let mut wd = World::new(n as u64);
                        let c = crs(&mut wd, n);
                        let a: Vec<Scalar> = (0..n).map(|_| fe(inp(p) as u64)).collect();
                        let bs: u32 = if n > 4 || n == 4 && proto == Alm && t != Tier::Thorough { 2 } else { p };
                        let mut make = |a: &[Scalar], b: &[Scalar]| match proto {
                            Ipa => ipa_inst(&c, a, b),
                            Alm => alm_inst(&c, a, b),
                            _ => lmpa_inst(proto, &[c.g.clone(), c.h.clone()], a, 2, &c),
                        };
                        let b: Vec<Scalar> = if matches!(proto, Lmpa | Simple) { a.clone() } else { (0..n).map(|_| fe(inp(bs) as u64)).collect() };
                        let like = make(&vec![Scalar::one(); n], &(0..n).map(|i| fe(i as u64)).collect::<Vec<_>>());
                        judge(&make(&a, &b), &like, false)
                    })
                    .field(p, if proto == Alm { 1 } else { 2 * n + 1 })
                    .policies((0..t.pick(1, 2, 4)).map(|b| pol(mcrt::Mode::Fixed, mcrt::Mode::Full, 0, 1 + b)).collect()),
                );
            }
        }
        return o;
    }
    let ns = t.pick(vec![4usize, 8], vec![1, 2, 4, 8, 16, 32, 64, 128, 256], vec![1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]);
    for n in ns.iter().cloned() {
        for proto in [Ipa, Alm, Lmpa, Simple, LmpaK, SimpleK] {
            if !fits_n(proto, n) {
                continue;
            }
            o.push(
                Scenario::new(format!("S01/menu/{:?}/n{}", proto, n), move || {
                    let big = n > 64;
                    let ap = inp(t.pick(2, PATTERNS, PATTERNS));
                    let scripted = !REAL && inp(2) == 1;
                    let mut wd = World::new(mix(n as u64));
                    let gk = inp(if big { 2 } else { t.pick(2, 4, 4) });
                    if matches!(proto, Ipa | Alm) {
                        let bp = if big { [0, 1, 6][inp(3) as usize] } else { inp(t.pick(2, PATTERNS, PATTERNS)) };
                        let c = Crs { g: gens_kind(&mut wd, gk, n), h: gens_kind(&mut wd, gk, n), q: wd.pt() };
                        let make = |a: &[Scalar], b: &[Scalar]| if proto == Ipa { ipa_inst(&c, a, b) } else { alm_inst(&c, a, b) };
                        judge(&make(&vecs(ap, n, 3), &vecs(bp, n, 4)), &make(&vecs(0, n, 5), &vecs(0, n, 6)), scripted)
                    } else {
                        let ms: &[usize] = if big { &[1, 3] } else { t.pick(&[1, 2], &[1, 2, 3, 9], &[1, 2, 3, 9, 33]) };
                        let m = ms[inp(ms.len() as u32) as usize];
                        let a: Vec<Vec<RistrettoPoint>> = (0..m).map(|_| gens_kind(&mut wd, gk, n)).collect();
                        let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
                        let ks: Vec<usize> = if matches!(proto, Lmpa | Simple) {
                            vec![2]
                        } else {
                            [2usize, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32]
                                .iter()
                                .cloned()
                                .filter(|k| {
                                    let mut x = n;
                                    while x >= *k && x % k == 0 {
                                        x /= k;
                                    }
                                    x < *k
                                })
                                .collect()
                        };
                        let k = ks[inp(ks.len() as u32) as usize];
                        let make = |w: &[Scalar]| lmpa_inst(proto, &a, w, k, &aux);
                        judge(&make(&vecs(ap, n, 3)), &make(&vecs(0, n, 5)), scripted)
                    }
                })
                .policy(fixed()),
            );
        }
    }
    // splitting into other parts than powers of two
    for (k, ns) in [(3usize, vec![3usize, 6, 9, 18, 27, 54, 81, 162]), (5, vec![5, 10, 20, 25, 50, 100, 125]), (6, vec![6, 12, 36, 180]), (7, vec![7, 42, 49]), (10, vec![10, 90, 100])] {
        for n in ns.into_iter().filter(|n| *n < t.pick(10, 130, 200)) {
            for proto in [LmpaK, SimpleK] {
                o.push(
                    Scenario::new(format!("S01/kary/{:?}/k{}n{}", proto, k, n), move || {
                        let wp = inp(PATTERNS);
                        let gk = inp(t.pick(1, 4, 4));
                        let m = [1usize, 2, 5][inp(t.pick(2, 3, 3)) as usize];
                        let scripted = !REAL && inp(2) == 1;
                        let mut wd = World::new(mix(n as u64));
                        let a: Vec<Vec<RistrettoPoint>> = (0..m).map(|_| gens_kind(&mut wd, gk, n)).collect();
                        let aux = Crs { g: vec![], h: vec![], q: wd.pt() };
                        let make = |w: &[Scalar]| lmpa_inst(proto, &a, w, k, &aux);
                        judge(&make(&vecs(wp, n, 3)), &make(&vecs(0, n, 5)), scripted)
                    })
                    .policy(fixed()),
                );
            }
        }
    }
    // systems: neither the number of equations, nor their kind, nor the witness shows in the size
    for n in t.pick(vec![4usize], vec![4, 8, 16, 32, 64], vec![4, 8, 16, 32, 64, 128]) {
        for proto in [Inner, Zk] {
            o.push(
                Scenario::new(format!("S01/system/{:?}/n{}", proto, n), move || {
                    let big = n > 8;
                    let wp = inp(t.pick(2, PATTERNS, PATTERNS));
                    let k = if big { [1usize, 5][inp(2) as usize] } else { [1usize, 2, n - 1, 2 * n + 1, 17][inp(t.pick(2, 5, 5)) as usize] };
                    let kind = inp(if big { 3 } else { t.pick(2, EQUATIONS, EQUATIONS) });
                    let rp = if proto == Inner { inp(if big { 2 } else { 5 }) } else { 0 };
                    let scripted = !REAL && inp(2) == 1;
                    let mut wd = World::new(mix(n as u64));
                    let c = crs(&mut wd, n);
                    let make = |w: &[Scalar], k: usize, kind: u32, rp: u32| {
                        let g: Vec<_> = (0..k).map(|i| equation((kind + i as u32) % EQUATIONS, w, i as u64)).collect();
                        qesa_inst(proto, &c, &g, w, &r_pattern(rp))
                    };
                    let mut w = vecs(wp, n - 2, 21);
                    w[0] = Scalar::one();
                    let mut w0 = vecs(0, n - 2, 22);
                    w0[0] = Scalar::one();
                    judge(&make(&w, k, kind, rp), &make(&w0, 1, 0, 0), scripted)
                })
                .policy(fixed()),
            );
        }
    }
    // copy proofs: neither the number of commitments nor their layout shows in the size
    for n in t.pick(vec![8usize], vec![8, 16, 32, 64], vec![8, 16, 32, 64, 128]) {
        o.push(
            Scenario::new(format!("S01/copy/n{}", n), move || {
                let hi = n as u16 - 3;
                let f: Vec<std::collections::BTreeSet<u16>> = match inp(t.pick(2, 6, 6)) {
                    0 => vec![[2u16].into()],
                    1 => vec![[2u16].into(), [2u16].into()],
                    2 => vec![[2u16, 3].into()],
                    3 => (0..n / 2).map(|_| [hi].into()).collect(),
                    4 => vec![[hi].into(), [2u16].into(), [2u16, hi].into()],
                    _ => subsets(&[2, 3, hi], 2, 1),
                };
                let mp = inp(6);
                let kinds: &[u32] = [&[3u32][..], &[], &[0, 3, 4], &[1]][inp(4) as usize];
                let scripted = !REAL && inp(2) == 1;
                let like = layout_inst(n, 2, &[[2u16].into()], 0, &[3]).expect("harness: layout");
                match layout_inst(n, 2, &f, mp, kinds) {
                    Some(i) => judge(&i, &like, scripted),
                    None => V::Skip,
                }
            })
            .policy(fixed()),
        );
    }
    o
}
fn fits_n(p: Proto, n: usize) -> bool {
    super::large::fits(p, n)
}
