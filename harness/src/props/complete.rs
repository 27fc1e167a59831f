//! Completeness: the honest prover is accepted.
use super::Tier;
use crate::engine::*;
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::scalar::Scalar;
use mcrt::{mix, Mode};
use qesa::verif::inner_product;
use std::collections::BTreeSet;

/// all menus: how many default coin/challenge assignments
fn nbases(t: Tier) -> u64 {
    t.pick(1, 2, 6)
}
fn std_policies(t: Tier) -> Vec<mcrt::Policy> {
    bases(Mode::Fixed, Mode::Fixed, 0, nbases(t))
}

/// every value of every challenge and coin in turn, over the real order
fn deviations(prop: &str, t: Tier, protos: &[Proto], sizes: &[usize]) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG {
        return o;
    }
    for proto in protos.iter().cloned() {
        for n in sizes.iter().cloned() {
            if proto == Alm && n < 2 {
                continue;
            }
            for v in 0..t.pick(1, 2, 6) {
                o.push(
                    Scenario::new(format!("{}/dev/{:?}/n{}v{}", prop, proto, n, v), move || complete(&standard(proto, n, v), 0))
                        .policies(bases(ALLD, ALLD, 1, t.pick(1, 1, 2))),
                );
            }
        }
    }
    o
}

// ---- quadratic systems --------------------------------------------------------

pub fn r_pattern(k: u32) -> Vec<Scalar> {
    match k {
        0 => vec![gsc(71), gsc(72)],
        1 => vec![Scalar::zero(), Scalar::zero()],
        2 => vec![Scalar::one(), Scalar::zero()],
        3 => vec![Scalar::zero(), Scalar::one()],
        _ => vec![gsc(73), gsc(73)],
    }
}
pub fn eq_counts(n: usize) -> Vec<usize> {
    let mut v = vec![1, 2, 3, n - 2, n - 1, n, n + 1, 2 * n + 1];
    v.sort();
    v.dedup();
    v
}

pub fn q01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        // every value of every challenge and coin around several defaults
        for p in t.pick(vec![], vec![7u32, 31], vec![7, 11, 31, 103]) {
            for n in [4usize, 8] {
                if n == 8 && (p > 31 || t != Tier::Thorough && p > 7) {
                    continue;
                }
                let mut s = Scenario::new(format!("Q01/small/p{}/n{}", p, n), move || {
                    mcrt::set_chal_domain(0, p);
                    let c = {
                        let mut w = World::new(3);
                        crs(&mut w, n)
                    };
                    let wp = inp(3);
                    let k = [1usize, 2, n + 1][inp(3) as usize];
                    let k0 = inp(2) * 3;
                    let mut w = pattern([0, 3, 2][wp as usize], n - 2, 21);
                    w[0] = Scalar::one();
                    let g: Vec<_> = (0..k).map(|i| equation((k0 + i as u32) % EQUATIONS, &w, i as u64)).collect();
                    let proto = if inp(2) == 0 { Inner } else { Zk };
                    complete(&qesa_inst(proto, &c, &g, &w, &r_pattern(0)), 0)
                })
                .field(p, 1);
                let budget = if t == Tier::Thorough && p <= 7 && n == 4 { 2 } else { 1 };
                s = s.policies(bases(ALLD, ALLD, budget, t.pick(1, 2, 3)));
                o.push(s);
            }
        }
        return o;
    }
    for n in t.pick(vec![4usize, 8], vec![4, 8, 16, 32], vec![4, 8, 16, 32, 64]) {
        for proto in [Inner, Zk] {
            for wp in 0..t.pick(2, PATTERNS, PATTERNS) {
                o.push(
                    Scenario::new(format!("Q01/menu/{:?}/n{}/w{}", proto, n, wp), move || {
                        let counts = if n > 32 { vec![1, 3, n + 1] } else { eq_counts(n) };
                        let counts = if t == Tier::Conf { vec![1, 3, n + 1] } else { counts };
                        let k = counts[inp(counts.len() as u32) as usize];
                        let k0 = inp(t.pick(1, if n > 16 { 2 } else { EQUATIONS }, EQUATIONS));
                        let ctx = inp(t.pick(2, if n > 8 { 2 } else { CONTEXTS }, CONTEXTS));
                        let rp = if proto == Inner { inp(t.pick(2, if n > 8 { 2 } else { 5 }, 5)) } else { 0 };
                        let mut wd = World::new(mix(n as u64));
                        let c = crs(&mut wd, n);
                        let mut w = pattern(wp, n - 2, 21);
                        w[0] = Scalar::one();
                        let g: Vec<_> = (0..k).map(|i| equation((k0 + i as u32) % EQUATIONS, &w, i as u64)).collect();
                        complete(&qesa_inst(proto, &c, &g, &w, &r_pattern(rp)), ctx)
                    })
                    .policies(std_policies(t)),
                );
            }
        }
    }
    o.extend(deviations("Q01", t, &[Inner, Zk], &[4, 8]));
    o.extend(super::large::honest_large("Q01", t, &[Inner, Zk]));
    // degenerate generators: the statement is still true
    o.push(
        Scenario::new("Q01/equal-generators", move || {
            let n = 8;
            let mut wd = World::new(9);
            let mut c = crs(&mut wd, n);
            match inp(3) {
                0 => c.h = c.g.clone(),
                1 => c.g[3] = c.g[2],
                _ => c.q = c.g[0],
            }
            let mut w = pattern(0, n - 2, 21);
            w[0] = Scalar::one();
            let g = vec![equation(0, &w, 4)];
            complete(&qesa_inst(Zk, &c, &g, &w, &[]), 0)
        })
        .policy(fixed()),
    );
    o
}

// ---- copy -----------------------------------------------------------------------

/// all subsets of `of` (as index sets) with at most `max` elements, smallest first
pub fn subsets(of: &[u16], max: usize, min: usize) -> Vec<BTreeSet<u16>> {
    let mut v: Vec<BTreeSet<u16>> = (0u64..1 << of.len())
        .filter(|m| (m.count_ones() as usize) <= max && m.count_ones() as usize >= min)
        .map(|m| of.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect())
        .collect();
    v.sort_by_key(|s: &BTreeSet<u16>| (s.len(), s.iter().cloned().collect::<Vec<_>>()));
    v
}
/// a satisfiable copy instance for this layout, if a mapping exists
pub fn layout_inst(n: usize, ws: usize, sets: &[BTreeSet<u16>], mp: u32, kinds: &[u32]) -> Option<Inst> {
    let total: usize = sets.iter().map(|s| s.len()).sum();
    if total == 0 || slots_ref(n, ws, sets).is_none() {
        return None;
    }
    let mut wd = World::new(mix(n as u64 ^ 0xc0));
    let c = crs(&mut wd, n);
    let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
    let mut w = pattern(0, ws, 61);
    w[0] = Scalar::one();
    for i in 1..ws {
        if used.contains(&(i as u16)) {
            w[i] = Scalar::zero();
        }
    }
    let openings = sets
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let m = match mp {
                0 => pattern(0, s.len(), 100 + i as u64),
                1 => pattern(1, s.len(), 0),
                2 => pattern(2, s.len(), 0),
                3 => pattern(0, s.len(), 100),
                // commitments that are the identity: all, or the last
                4 => pattern(1, s.len(), 0),
                _ if i + 1 == sets.len() => pattern(1, s.len(), 0),
                _ => pattern(0, s.len(), 100 + i as u64),
            };
            let r = match mp {
                0 => gsc(200 + i as u64),
                1 => gsc(200),
                2 | 4 => Scalar::zero(),
                3 => Scalar::one(),
                _ if i + 1 == sets.len() => Scalar::zero(),
                _ => gsc(200 + i as u64),
            };
            (m, r)
        })
        .collect();
    Some(copy_inst(&c, &CopySpec { n, w, sets: sets.to_vec(), openings }, kinds))
}

pub fn k01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        for p in t.pick(vec![], vec![7u32], vec![7, 31]) {
            o.push(
                Scenario::new(format!("K01/small/p{}", p), move || {
                    mcrt::set_chal_domain(0, p);
                    let fams: Vec<Vec<BTreeSet<u16>>> = vec![
                        vec![[2u16].into()],
                        vec![[2u16].into(), [2u16].into()],
                        vec![[2u16, 3].into()],
                    ];
                    let f = &fams[inp(3) as usize];
                    match layout_inst(8, 2, f, [0, 1, 2, 4][inp(4) as usize], &[3]) {
                        Some(i) => complete(&i, 0),
                        None => V::Skip,
                    }
                })
                .field(p, 1)
                .policies(bases(ALLD, ALLD, 1, t.pick(1, 2, 4))),
            );
        }
        return o;
    }
    // n = 8: every family of up to three index sets, every witness size
    for ws in 1..t.pick(2usize, 4, 5) {
        let subs = subsets(&[1, 2, 3, 4, 5], 4, 0);
        let ns = subs.len();
        for first in 0..t.pick(4, ns, ns) {
            let subs = subs.clone();
            o.push(
                Scenario::new(format!("K01/n8/ws{}/f{}", ws, first), move || {
                    let a = subs[first].clone();
                    let mut sets = vec![a];
                    for _ in 1..t.pick(2, 3, 4) {
                        let b = inp(ns as u32 + 1);
                        if b == 0 {
                            break;
                        }
                        sets.push(subs[b as usize - 1].clone());
                        // prune: no mapping can exist any more
                        if slots_ref(8, ws, &sets).is_none() {
                            return V::Skip;
                        }
                    }
                    if slots_ref(8, ws, &sets).is_none() {
                        return V::Skip;
                    }
                    let mp = [0, 4, 3, 5, 1, 2][inp(t.pick(1, 4, 6)) as usize];
                    match layout_inst(8, ws, &sets, mp, &[3]) {
                        Some(i) => complete(&i, 0),
                        None => V::Skip,
                    }
                })
                .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 1, 3))),
            );
        }
    }
    // more commitments than generators in one of them, larger sizes, base systems, contexts
    for n in t.pick(vec![8usize], vec![16, 32], vec![16, 32, 64]) {
        o.push(
            Scenario::new(format!("K01/many/n{}", n), move || {
                let kc = inp(t.pick(2, 6, 12)) as usize + 1;
                let shape = inp(5);
                let ws = [2usize, 3, 5][inp(t.pick(1, 3, 3)) as usize];
                let hi = (n - 3) as u16;
                let sets: Vec<BTreeSet<u16>> = (0..kc)
                    .map(|i| match shape {
                        0 => [hi].into(),
                        1 => [hi - i as u16 % 3].into(),
                        2 => [2u16, hi].into(),
                        3 => ((hi - (i % 3) as u16)..=hi).collect(),
                        _ => [ws as u16 + 1].into(),
                    })
                    .collect();
                let kinds: &[u32] = [&[3u32][..], &[0, 3, 4], &[1]][inp(t.pick(1, 3, 3)) as usize];
                let ctx = inp(t.pick(1, if n > 16 { 1 } else { 2 }, CONTEXTS));
                match layout_inst(n, ws, &sets, [0, 4, 3, 5, 1, 2][inp(t.pick(1, 6, 6)) as usize], kinds) {
                    Some(i) => complete(&i, ctx),
                    None => V::Skip,
                }
            })
            .policies(std_policies(t)),
        );
    }
    o.extend(deviations("K01", t, &[Proto::Copy], &[8, 16]));
    if BIG {
        for (name, n, sets) in super::sound::crowds(t) {
            o.push(
                Scenario::new(format!("K01/crowd/{}", name), move || {
                    match layout_inst(n, 2, &sets, [0, 4, 3, 5, 1, 2][inp(t.pick(1, 3, 6)) as usize], &[&[3u32][..], &[0, 3, 4]][inp(2) as usize]) {
                        Some(i) => complete(&i, inp(2)),
                        None => V::Fail("no mapping".into()),
                    }
                })
                .policy(fixed()),
            );
        }
    }
    o.extend(super::large::honest_large("K01", t, &[Proto::Copy]));
    if t != Tier::Conf {
        // more than 256 commitments, and indices beyond 8 bits
        for (k, n, idx) in [(257usize, 512usize, 1u16), (3, 512, 300), (300, 512, 508)] {
            o.push(
                Scenario::new(format!("K01/wide/{}x{}@{}", k, n, idx), move || {
                    let sets: Vec<BTreeSet<u16>> = (0..k).map(|i| [idx - (i % 2) as u16 * (idx > 1) as u16].into()).collect();
                    match layout_inst(n, 2, &sets, 0, &[4]) {
                        Some(i) => complete(&i, 0),
                        None => V::Fail("no mapping".into()),
                    }
                })
                .policy(fixed()),
            );
        }
    }
    o
}

// ---- inner products --------------------------------------------------------------

pub fn i01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    let vecp = |n: usize, p: u32| -> Vec<Scalar> { (0..n).map(|_| fe(inp(p) as u64)).collect() };
    if SMALL {
        // everything: all vectors, all challenges (zero included)
        for (n, p) in t.pick(vec![], vec![(1usize, 7u32), (2, 3), (2, 5), (4, 3)], vec![(1, 13), (2, 3), (2, 5), (2, 7), (4, 3), (8, 2)]) {
            if p == 2 {
                continue;
            }
            o.push(
                Scenario::new(format!("I01/all/Ipa/n{}/p{}", n, p), move || {
                    mcrt::set_chal_domain(0, p);
                    let mut wd = World::new(n as u64);
                    let c = crs(&mut wd, n);
                    let (a, b) = (vecp(n, p), vecp(n, p));
                    complete(&ipa_inst(&c, &a, &b), 0)
                })
                .field(p, 2 * n + 1),
            );
        }
        // every value of every coin and challenge in turn, all inputs of length two
        for p in t.pick(vec![], vec![3u32, 7], vec![3, 7, 11]) {
            for lead in 0..p {
                o.push(
                    Scenario::new(format!("I01/all/Alm/n2/p{}/a{}", p, lead), move || {
                        let mut wd = World::new(5);
                        let c = crs(&mut wd, 2);
                        let a = vec![fe(lead as u64), fe(inp(p) as u64)];
                        let b = vecp(2, p);
                        // over these fields no nonzero vector of length two is orthogonal to itself,
                        // and challenges are nonzero: no exemption
                        match honest(&alm_inst(&c, &a, &b), 0) {
                            Ok(_) => V::Ok,
                            Err(m) => V::Fail(m),
                        }
                    })
                    .field(p, 5)
                    .policies(bases(ALLD, ALLD, t.pick(1, if p == 3 { 2 } else { 1 }, if p < 10 { 2 } else { 1 }), 2)),
                );
            }
        }
        // longer vectors, deviations
        for n in t.pick(vec![], vec![4usize, 8], vec![4, 8, 16]) {
            o.push(
                Scenario::new(format!("I01/dev/n{}", n), move || {
                    mcrt::set_chal_domain(0, 31);
                    let proto = inp(2);
                    let mut wd = World::new(5);
                    let c = crs(&mut wd, n);
                    let a = pattern(inp(PATTERNS), n, 1);
                    let b = pattern(inp(PATTERNS), n, 2);
                    complete(&if proto == 0 { ipa_inst(&c, &a, &b) } else { alm_inst(&c, &a, &b) }, 0)
                })
                .field(31, 2 * n + 1)
                .policies(bases(ALLD, ALLD, 1, 1)),
            );
        }
        return o;
    }
    for proto in [Ipa, Alm] {
        for n in t.pick(vec![1usize, 2, 4, 8], vec![1, 2, 4, 8, 16, 32, 64], vec![1, 2, 4, 8, 16, 32, 64, 128, 256]) {
            if proto == Alm && n < 2 {
                continue;
            }
            o.push(
                Scenario::new(format!("I01/menu/{:?}/n{}", proto, n), move || {
                    let mut wd = World::new(n as u64 ^ 0x10);
                    let mut c = crs(&mut wd, n);
                    let np = t.pick(3, PATTERNS, PATTERNS);
                    let pa = inp(np + 3);
                    let pb = inp(np + 2);
                    let ctx = inp(t.pick(1, CONTEXTS, CONTEXTS));
                    let mut a = pattern(pa.min(np - 1), n, 1);
                    let mut b = pattern(pb.min(np - 1), n, 2);
                    if pa == np {
                        b = pattern(pb.min(np - 1), n, 2);
                        a = b.clone();
                    } else if pa == np + 1 && n >= 2 {
                        // orthogonal to b
                        a = pattern(0, n, 3);
                        let x = inner_product(&a, &b);
                        let (last, bl) = (n - 1, b[n - 1]);
                        if bl == Scalar::zero() {
                            return V::Skip;
                        }
                        a[last] = a[last] - x * bl.invert();
                    } else if pa == np + 2 {
                        c.h = c.g.clone();
                        c.q = c.g[0];
                    }
                    if pb == np {
                        b = a.iter().map(|x| -x).collect();
                    } else if pb == np + 1 {
                        b = a.iter().map(|x| x * gsc(5)).collect();
                    }
                    complete(&if proto == Ipa { ipa_inst(&c, &a, &b) } else { alm_inst(&c, &a, &b) }, ctx)
                })
                .policies(std_policies(t)),
            );
        }
    }
    o.extend(deviations("I01", t, &[Ipa, Alm], &[1, 2, 4, 8, 16]));
    o.extend(super::large::honest_large("I01", t, &[Ipa, Alm]));
    o.push(Scenario::new("I01/isotropic", isotropic).policy(fixed()));
    o
}

/// the square root of -1
pub fn sqrt_m1() -> Option<Scalar> {
    if SMALL {
        return None;
    }
    // 2^((l-1)/4): 2 is a non-residue modulo the group order
    let hex = "d3d4b1c1f7b5c3e0";
    let _ = hex;
    let l_minus_1 = -Scalar::one();
    let mut e = l_minus_1.to_bytes();
    // (l-1)/4
    let mut carry = 0u8;
    for b in e.iter_mut().rev() {
        let nb = (*b >> 2) | (carry << 6);
        carry = *b & 3;
        *b = nb;
    }
    for base in 2u64..20 {
        let mut r = Scalar::one();
        for i in (0..256).rev() {
            r = r * r;
            if e[i / 8] >> (i % 8) & 1 == 1 {
                r = r * fe(base);
            }
        }
        if r * r == -Scalar::one() {
            return Some(r);
        }
    }
    None
}
/// nonzero vectors orthogonal to themselves (needs an adversarially chosen input: known finding)
fn isotropic() -> V {
    let i = match sqrt_m1() {
        Some(i) => i,
        None => return V::Fail("harness: no square root of -1".into()),
    };
    let n = 4;
    let mut wd = World::new(1);
    let c = crs(&mut wd, n);
    let mut iso = vec![Scalar::zero(); n];
    iso[0] = Scalar::one();
    iso[1] = i;
    let gen = pattern(0, n, 7);
    let which = inp(3);
    let (a, b) = match which {
        0 => (iso.clone(), gen),
        1 => (gen, iso.clone()),
        _ => (iso.clone(), iso),
    };
    match honest(&alm_inst(&c, &a, &b), 0) {
        Ok(_) => V::Ok,
        Err(_) => V::Known(format!("self-orthogonal nonzero vector as {}", ["a", "b", "a and b"][which as usize])),
    }
}

// ---- linear maps -----------------------------------------------------------------

fn lmpa_menu(t: Tier, protos: [Proto; 2], prop: &str, sizes: Vec<(usize, usize)>) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in protos {
        for (n, k) in sizes.iter().cloned() {
            o.push(
                Scenario::new(format!("{}/menu/{:?}/n{}k{}", prop, proto, n, k), move || {
                    let m = inp(t.pick(2, 4, 6)) as usize + 1;
                    let kind = inp(t.pick(2, MATS, MATS));
                    let wp = inp(t.pick(2, if n > 16 { 3 } else { PATTERNS }, PATTERNS));
                    let ctx = inp(t.pick(1, if n > 8 { 2 } else { CONTEXTS }, CONTEXTS));
                    let mut wd = World::new(n as u64 ^ 0x77);
                    let a = pmatrix(&mut wd, kind, m, n);
                    let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
                    complete(&lmpa_inst(proto, &a, &pattern(wp, n, 3), k, &aux), ctx)
                })
                .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 1, 3))),
            );
        }
    }
    o
}
fn lmpa_small(t: Tier, protos: [Proto; 2], prop: &str, sizes: Vec<(usize, usize, u32)>) -> Vec<Scenario> {
    let mut o = vec![];
    for proto in protos {
        for (n, k, p) in sizes.iter().cloned() {
            // all matrices of one row, all pre-images, all challenges, all coins
            let zk = matches!(proto, Simple | SimpleK);
            for lead in 0..p * p {
            o.push(
                Scenario::new(format!("{}/all/{:?}/n{}k{}p{}/{}", prop, proto, n, k, p, lead), move || {
                    mcrt::set_chal_domain(0, p);
                    let a = vec![(0..n).map(|i| base_mul(&fe(if i == 0 { lead % p } else { inp(p) } as u64))).collect::<Vec<_>>()];
                    let w: Vec<Scalar> = (0..n).map(|i| fe(if i == 0 { lead / p } else { inp(p) } as u64)).collect();
                    let mut wd = World::new(2);
                    let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
                    complete(&lmpa_inst(proto, &a, &w, k, &aux), 0)
                })
                .field(p, 1)
                .policy(if zk && n > 2 { pol(ALLD, Mode::Full, 1, 1) } else { mcrt::Policy::full() }),
            );
            }
            // formal generators, several rows
            let d = 2 * n;
            o.push(
                Scenario::new(format!("{}/formal/{:?}/n{}k{}", prop, proto, n, k), move || {
                    mcrt::set_chal_domain(0, 31);
                    let mut wd = World::new(1);
                    let a = pmatrix(&mut wd, 0, 2, n);
                    let w = pattern(inp(PATTERNS), n, 3);
                    let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
                    complete(&lmpa_inst(proto, &a, &w, k, &aux), 0)
                })
                .field(31, d)
                .policies(bases(ALLD, ALLD, t.pick(1, 1, 2), 2)),
            );
        }
    }
    o
}

pub fn l01(t: Tier) -> Vec<Scenario> {
    if SMALL {
        return lmpa_small(t, [Lmpa, Simple], "L01", t.pick(vec![], vec![(1, 2, 7), (2, 2, 3), (4, 2, 3)], vec![(1, 2, 13), (2, 2, 5), (4, 2, 3)]));
    }
    let ns = t.pick(vec![1usize, 2, 4, 8], vec![1, 2, 4, 8, 16, 32, 64], vec![1, 2, 4, 8, 16, 32, 64, 128, 256]);
    let mut o = lmpa_menu(t, [Lmpa, Simple], "L01", ns.into_iter().map(|n| (n, 2)).collect());
    o.extend(deviations("L01", t, &[Lmpa, Simple], &[2, 4, 8]));
    o.extend(super::large::honest_large("L01", t, &[Lmpa, Simple]));
    o
}

/// sizes k divides down to less than k
pub fn kary_sizes(kmax: usize, nmax: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for k in 2..=kmax {
        for r in 1..k {
            let mut n = r;
            while n <= nmax {
                v.push((n, k));
                n *= k;
            }
        }
    }
    v
}
pub fn l03(t: Tier) -> Vec<Scenario> {
    if SMALL {
        return lmpa_small(t, [LmpaK, SimpleK], "L03", t.pick(vec![], vec![(1, 2, 7), (2, 2, 3), (3, 3, 3), (2, 3, 3)], vec![(1, 2, 13), (2, 2, 5), (3, 3, 3), (4, 2, 3)]));
    }
    let sizes = t.pick(
        vec![(1, 2), (2, 2), (4, 2), (8, 2), (3, 3), (6, 3), (9, 3), (5, 5), (2, 3)],
        kary_sizes(7, 36),
        kary_sizes(10, 130),
    );
    let mut o = lmpa_menu(t, [LmpaK, SimpleK], "L03", sizes);
    o.extend(deviations("L03", t, &[LmpaK, SimpleK], &[2, 4, 8]));
    o.extend(super::large::honest_large("L03", t, &[LmpaK, SimpleK]));
    o
}
