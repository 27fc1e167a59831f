//! Zero knowledge: exact distributions over all coins for small fields, ranks for the real order.
use super::complete::sqrt_m1;
use super::sound::*;
use super::Tier;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use mcrt::{mix, Mode, Policy};
use qesa::verif::gramschmidt::{sample_gram_schmidt, sample_gram_schmidt_twice};

fn hash(parts: &[u64]) -> u64 {
    parts.iter().fold(3, |h, x| mix(h ^ *x))
}
fn hs(v: &[Scalar]) -> u64 {
    Node::scs(v).digest()
}
fn hp(v: &[RistrettoPoint]) -> u64 {
    Node::pts(v).digest()
}
/// values of the challenges drawn so far
fn drawn() -> u64 {
    hash(&mcrt::take_draws().iter().map(|d| d.val as u64).collect::<Vec<_>>())
}
/// all coins and challenges, inputs in full
fn everything() -> Policy {
    Policy::full()
}

pub fn rank(mut m: Vec<Vec<Scalar>>) -> usize {
    let z = Scalar::zero();
    let cols = m.iter().map(|r| r.len()).max().unwrap_or(0);
    let mut r = 0;
    for c in 0..cols {
        let piv = match (r..m.len()).find(|i| m[*i][c] != z) {
            Some(p) => p,
            None => continue,
        };
        m.swap(r, piv);
        let inv = m[r][c].invert();
        for i in r + 1..m.len() {
            if m[i][c] != z {
                let f = m[i][c] * inv;
                for j in c..cols {
                    let x = m[r][j] * f;
                    m[i][j] = m[i][j] - x;
                }
            }
        }
        r += 1;
    }
    r
}
fn sub(a: &[Scalar], b: &[Scalar]) -> Vec<Scalar> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
fn nonzero(v: &[Scalar]) -> bool {
    v.iter().any(|x| *x != Scalar::zero())
}

/// Run with the default coins, some of them shifted; also the number of coins drawn.
fn with_coins<T>(shift: &[(u32, u32)], f: impl FnOnce() -> T) -> (T, u32) {
    mcrt::quiet_coins(Some(shift));
    let r = f();
    let n = mcrt::coins_drawn();
    mcrt::quiet_coins(None);
    (r, n)
}

// ---- Z01 -----------------------------------------------------------------------------

/// matrices over one generator, given by small factors
fn factors(kind: u32, m: usize, n: usize) -> Vec<Vec<RistrettoPoint>> {
    (0..m)
        .map(|i| {
            (0..n)
                .map(|j| {
                    base_mul(&fe(match kind {
                        0 => 1 + i + j * j + i * j,
                        // proportional rows
                        1 => (i + 1) * (j + 1),
                        // a column the image does not depend on
                        2 => {
                            if j == 0 {
                                0
                            } else {
                                j + i
                            }
                        }
                        _ => (i * n + j) % 2,
                    } as u64))
                })
                .collect()
        })
        .collect()
}

/// The proof as a function of the coins, for every member of every fibre of the matrix.
fn fibre(proto: Proto, m: usize, n: usize, k: usize, kind: u32, w: &[Scalar]) -> V {
    let a = factors(kind, m, n);
    let mut wd = World::new(5);
    let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
    let i = lmpa_inst(proto, &a, w, k, &aux);
    mcrt::oracle_script(&[]);
    let pf = match guarded(|| prove(proto, &mut transcript(0), &i.st, &i.wit)) {
        Ok(p) => p,
        Err(e) => return V::Fail(format!("prover aborted: {}", e)),
    };
    V::Hist(hash(&[drawn(), hp(&i.st.at(1).vp())]), hs(w), pf.digest())
}

pub fn z01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        // all witnesses, coins and challenges
        let mut cases = vec![
            (Simple, 1usize, 2usize, 2usize, 5u32),
            (SimpleK, 1, 2, 2, 5),
            (SimpleK, 1, 3, 3, 3),
            (SimpleK, 2, 3, 3, 3),
            (Simple, 2, 2, 2, 5),
            (SimpleK, 2, 2, 2, 5),
            (Simple, 1, 1, 2, 7),
            (SimpleK, 1, 1, 2, 7),
        ];
        if t != Tier::Conf {
            cases.push((Simple, 1, 4, 2, 3));
            cases.push((Simple, 2, 4, 2, 3));
            cases.push((SimpleK, 2, 4, 2, 3));
            cases.push((SimpleK, 1, 4, 4, 3));
            cases.push((SimpleK, 1, 3, 3, 5));
            cases.push((Simple, 1, 2, 2, 7));
        }
        if t == Tier::Thorough {
            cases.push((Simple, 3, 4, 2, 3));
            cases.push((SimpleK, 3, 4, 2, 3));
            cases.push((SimpleK, 2, 3, 3, 5));
            cases.push((Simple, 1, 2, 2, 11));
            cases.push((SimpleK, 1, 2, 2, 11));
            cases.push((Simple, 1, 2, 2, 13));
        }
        for (proto, m, n, k, p) in cases {
            for kind in 0..4u32 {
                if kind > 0 && p.pow(n as u32) > 125 && t != Tier::Thorough && m == 1 {
                    continue;
                }
                o.push(
                    Scenario::new(format!("Z01/fibres/{:?}/m{}n{}k{}p{}/{}", proto, m, n, k, p, kind), move || {
                        let w: Vec<Scalar> = (0..n).map(|_| fe(inp(p) as u64)).collect();
                        fibre(proto, m, n, k, kind, &w)
                    })
                    .field(p, 1)
                    .policy(everything()),
                );
            }
        }
        // longer ones: some members of a fibre
        let mut long = vec![];
        if t != Tier::Conf {
            long.push((Simple, 1usize, 4usize, 2usize, 5u32));
            long.push((SimpleK, 1, 4, 2, 5));
        }
        if t == Tier::Thorough {
            long.push((Simple, 1, 8, 2, 3));
            long.push((SimpleK, 1, 8, 2, 3));
            long.push((SimpleK, 2, 6, 3, 3));
        }
        for (proto, m, n, k, p) in long {
            o.push(
                Scenario::new(format!("Z01/some/{:?}/m{}n{}k{}p{}", proto, m, n, k, p), move || {
                    // the null space of the first row of factors of kind 1: (j+1)
                    let mut w: Vec<Scalar> = (0..n).map(|i| fe(2 * i as u64 + 1)).collect();
                    let mem = inp(3);
                    if mem == 1 {
                        w[0] = w[0] + fe(2);
                        w[1] = w[1] - fe(1);
                    } else if mem == 2 {
                        // w -> 0 as far as possible: image carried by the first entry only
                        let s: Scalar = (0..n).map(|j| w[j] * fe(j as u64 + 1)).fold(Scalar::zero(), |x, y| x + y);
                        w = vec![Scalar::zero(); n];
                        w[0] = s;
                    }
                    fibre(proto, m, n, k, 1, &w)
                })
                .field(p, 1)
                .policy(pol(Mode::Full, if n >= 8 { Mode::Fixed } else { Mode::Dev { alts: 0 } }, 1, 1)),
            );
        }
        // two proofs in a row: all pairs of coin vectors, equally often
        for (proto, n, k, p) in [(Simple, 2usize, 2usize, 3u32), (SimpleK, 2, 2, 3), (Simple, 1, 2, 7), (SimpleK, 1, 2, 7)] {
            o.push(
                Scenario::new(format!("Z01/fresh/{:?}/n{}p{}", proto, n, p), move || {
                    // an injective map: the commitment shows all coins
                    let a: Vec<Vec<RistrettoPoint>> =
                        (0..n).map(|i| (0..n).map(|j| base_mul(&fe((i == j || i == 0) as u64))).collect()).collect();
                    let w: Vec<Scalar> = (0..n).map(|_| fe(inp(p) as u64)).collect();
                    let mut wd = World::new(5);
                    let aux = Crs { g: wd.pts(n), h: wd.pts(n), q: wd.pt() };
                    let i = lmpa_inst(proto, &a, &w, k, &aux);
                    let ch = [inp(p - 1) + 1, inp(p - 1) + 1, 1, 1, 1, 1, 1, 1];
                    mcrt::oracle_script(&ch);
                    let one = guarded(|| prove(proto, &mut transcript(0), &i.st, &i.wit));
                    mcrt::oracle_script(&ch);
                    let two = guarded(|| prove(proto, &mut transcript(0), &i.st, &i.wit));
                    match (one, two) {
                        (Ok(x), Ok(y)) => V::Uni(
                            hash(&[hs(&w), ch[0] as u64, ch[1] as u64]),
                            (p as u64).pow(2 * n as u32),
                            hash(&[x.digest(), y.digest()]),
                        ),
                        _ => V::Fail("prover aborted".into()),
                    }
                })
                .field(p, 1)
                .policy(everything()),
            );
        }
        return o;
    }
    if !BIG {
        return o;
    }
    // the masking vector has as many degrees of freedom as entries, also in a second proof
    for proto in [Simple, SimpleK] {
        for (n, k) in t.pick(vec![], vec![(1usize, 2usize), (2, 2), (4, 2), (8, 2), (3, 3), (9, 3), (16, 4), (32, 2)], vec![(1, 2), (2, 2), (4, 2), (8, 2), (16, 2), (3, 3), (9, 3), (27, 3), (16, 4), (25, 5), (6, 3), (2, 3), (32, 2), (36, 6)]) {
            if proto == Simple && !n.is_power_of_two() {
                continue;
            }
            let d = n.max(2);
            o.push(
                Scenario::new(format!("Z01/rank/{:?}/n{}k{}", proto, n, k), move || {
                    let mut wd = World::new(5);
                    let a = vec![wd.pts(n)];
                    let wp = inp(if n > 16 { 2 } else { PATTERNS });
                    let w = pattern(wp, n, 3);
                    let aux = Crs { g: a[0].clone(), h: a[0].clone(), q: a[0][0] };
                    let i = lmpa_inst(proto, &a, &w, k, &aux);
                    let sc = Sc::new(true);
                    let run = |shift: &[(u32, u32)]| {
                        with_coins(shift, || {
                            let x = try_prove(&sc, proto, 0, &i.st, &i.wit);
                            let c = mcrt::coins_drawn();
                            let y = try_prove(&sc, proto, 0, &i.st, &i.wit);
                            match (x, y) {
                                (Some(x), Some(y)) => Some((x, y, c)),
                                _ => None,
                            }
                        })
                    };
                    let (base, total) = run(&[]);
                    let (x0, y0, first) = match base {
                        Some(b) => b,
                        None => return V::Fail("prover aborted".into()),
                    };
                    let mask = |p: &Node| coeffs(&p.get(&[0, 0]).p());
                    let (mut d1, mut d2) = (vec![], vec![]);
                    for j in 0..total {
                        if let (Some((x, y, _)), _) = run(&[(j, 1)]) {
                            if j < first {
                                d1.push(sub(&mask(&x), &mask(&x0)));
                            } else {
                                d2.push(sub(&mask(&y), &mask(&y0)));
                            }
                        }
                    }
                    let (r1, r2) = (rank(d1), rank(d2));
                    let all: Vec<Vec<Scalar>> = shifts(total).filter_map(|s| run(&s).0.map(|r| mask(&r.0))).collect();
                    for i in 0..n {
                        if let Some(b) = stuck_bit(&all.iter().map(|m| m[i]).collect::<Vec<_>>()) {
                            return V::Fail(format!("bit {} of entry {} of the mask of a pre-image of length {} never changes", b, i, n));
                        }
                    }
                    if r1 < n || r2 < n {
                        return V::Fail(format!("the mask of a pre-image of length {} has {} and in a second proof {} degrees of freedom", n, r1, r2));
                    }
                    V::Ok
                })
                .field(251, d)
                .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 2, 8))),
            );
        }
    }
    // longer ones: at least as many coins as entries, no two with the same effect
    for proto in [Simple, SimpleK] {
        for (n, k) in t.pick(vec![], vec![(64usize, 2usize), (128, 2), (256, 2), (512, 2), (81, 3), (243, 3), (100, 10), (289, 17)], vec![(64, 2), (128, 2), (256, 2), (512, 2), (81, 3), (243, 3), (256, 4), (100, 10), (289, 17)]) {
            if proto == Simple && k > 2 {
                continue;
            }
            o.push(
                Scenario::new(format!("Z01/count/{:?}/n{}k{}", proto, n, k), move || {
                    let _e = embed(usize::MAX);
                    let mut wd = World::new(5);
                    let a = vec![wd.pts(n)];
                    let w = pattern(0, n, 3);
                    let aux = Crs { g: a[0].clone(), h: a[0].clone(), q: a[0][0] };
                    let i = lmpa_inst(proto, &a, &w, k, &aux);
                    let sc = Sc::new(true);
                    let run = |shift: &[(u32, u32)]| with_coins(shift, || try_prove(&sc, proto, 0, &i.st, &i.wit));
                    let (base, total) = run(&[]);
                    let mask = |p: &Node| coeffs(&p.get(&[0, 0]).p());
                    let m0 = match base {
                        Some(b) => mask(&b),
                        None => return V::Fail("prover aborted".into()),
                    };
                    let mut seen = std::collections::BTreeSet::new();
                    for j in 0..total {
                        if let Some(x) = run(&[(j, 1)]).0 {
                            let d = sub(&mask(&x), &m0);
                            if d[0] != Scalar::zero() {
                                // the direction
                                seen.insert((d[1] * d[0].invert()).to_bytes());
                            }
                        }
                    }
                    if seen.len() < n {
                        return V::Fail(format!("the mask of a pre-image of length {} has at most {} degrees of freedom", n, seen.len()));
                    }
                    V::Ok
                })
                .field(251, 4)
                .policy(fixed()),
            );
        }
    }
    o
}

#[cfg(any(feature = "model", feature = "big"))]
pub fn coeffs(p: &RistrettoPoint) -> Vec<Scalar> {
    curve25519_dalek::model::coeffs(p)
}
#[cfg(any(feature = "mixed", feature = "real"))]
pub fn coeffs(_p: &RistrettoPoint) -> Vec<Scalar> {
    vec![]
}

/// The first bit (of those a scalar has) that all of these values share: none, if they are
/// full-size random values.  (64 values: one in 2^55 false.)
fn stuck_bit(v: &[Scalar]) -> Option<usize> {
    let (mut or, mut and) = ([0u8; 32], [0xffu8; 32]);
    for s in v {
        for (i, b) in s.to_bytes().iter().enumerate() {
            or[i] |= b;
            and[i] &= b;
        }
    }
    (0..252).find(|k| or[k / 8] >> (k % 8) & 1 == 0 || and[k / 8] >> (k % 8) & 1 == 1)
}
/// every coin at 64 of its values
fn shifts(total: u32) -> impl Iterator<Item = Vec<(u32, u32)>> {
    (0..64u32).map(move |s| (0..total).map(|j| (j, s)).collect())
}

// ---- Z02 -----------------------------------------------------------------------------

/// number of positions of a raw sample that are drawn
fn drawn_positions(n: usize) -> usize {
    prescribed(n).len()
}
/// 0, 1, (2^k, 2^k+1) up to half the length, and the last two
fn prescribed(n: usize) -> std::collections::BTreeSet<usize> {
    let mut s: std::collections::BTreeSet<usize> = [0, 1, n - 2, n - 1].into();
    let mut i = 2;
    while i <= n / 2 {
        s.insert(i);
        s.insert(i + 1);
        i *= 2;
    }
    s
}
/// (first commitment, second commitment, C_r, final a, final b)
fn parts(proto: Proto, pf: &Node) -> (Vec<RistrettoPoint>, RistrettoPoint, Scalar, Scalar) {
    let dec = |n: &Node| n.c().decompress().expect("harness: own commitment");
    match proto {
        Alm => (vec![], dec(pf.at(0)), pf.at(1).at(2).s(), pf.at(1).at(3).s()),
        Inner => (vec![], dec(pf.at(2).at(0)), pf.get(&[2, 1, 2]).s(), pf.get(&[2, 1, 3]).s()),
        Zk => (vec![dec(pf.at(0)), dec(pf.at(1))], dec(pf.at(2).at(0)), pf.get(&[2, 1, 2]).s(), pf.get(&[2, 1, 3]).s()),
        Proto::Copy => (
            vec![dec(pf.at(0)), dec(pf.get(&[1, 1]))],
            dec(pf.get(&[1, 2, 0])),
            pf.get(&[1, 2, 1, 2]).s(),
            pf.get(&[1, 2, 1, 3]).s(),
        ),
        _ => panic!("harness"),
    }
}
/// one group element as seen in a group with known (generic) discrete logarithms
fn collapse(p: &RistrettoPoint) -> Scalar {
    coeffs(p).iter().enumerate().fold(Scalar::zero(), |s, (i, c)| s + *c * gsc_nz(0xf00d + i as u64))
}

fn blinding(proto: Proto, n: usize, inst: &Inst) -> V {
    let n = if proto == Proto::Copy { n.max(8) } else { n };
    // coordinates of the elements of each kind
    let half = if 2 * n < mcrt::dim() { n } else { mcrt::dim() / 2 };
    let sc = Sc::new(true);
    let run = |shift: &[(u32, u32)]| {
        with_coins(shift, || {
            let x = try_prove(&sc, proto, 0, &inst.st, &inst.wit);
            let c = mcrt::coins_drawn();
            let y = try_prove(&sc, proto, 0, &inst.st, &inst.wit);
            match (x, y) {
                (Some(x), Some(y)) => Some((x, y, c)),
                _ => None,
            }
        })
    };
    let (base, total) = run(&[]);
    let (x0, y0, first) = match base {
        Some(b) => b,
        None => return V::Fail("prover aborted".into()),
    };
    let view = |p: &Node| {
        let (c, cr, a, b) = parts(proto, p);
        let cs: Vec<Scalar> = c.iter().map(collapse).collect();
        let cr = coeffs(&cr);
        (cs, cr[..half].to_vec(), cr[half..2 * half].to_vec(), vec![a, b])
    };
    // the blinding values in the commitments to the witness are full-size
    if half == n && matches!(proto, Zk | Proto::Copy) {
        let all: Vec<_> = shifts(total).filter_map(|s| run(&s).0.map(|r| parts(proto, &r.0).0)).collect();
        let places = [(0usize, n - 2), (0, n - 1), (1, n + n - 2), (1, n + n - 1)];
        for (c, i) in places {
            if let Some(b) = stuck_bit(&all.iter().map(|m| coeffs(&m[c])[i]).collect::<Vec<_>>()) {
                return V::Fail(format!("{:?}: bit {} of blinding value {} in commitment {} never changes", proto, b, i, c));
            }
        }
    }
    for second in [false, true] {
        let v0 = view(if second { &y0 } else { &x0 });
        let range = if second { first..total } else { 0..first };
        let mut jc = vec![]; // commitments
        let mut jg = vec![]; // r'
        let mut jh = vec![]; // r'' for fixed r'
        let mut fin = vec![];
        let (mut fg, mut fh) = (vec![], vec![]);
        for j in range {
            let v = match run(&[(j, 1)]).0 {
                Some((x, y, _)) => view(if second { &y } else { &x }),
                None => return V::Fail("prover aborted".into()),
            };
            let (dc, dg, dh, df) = (sub(&v.0, &v0.0), sub(&v.1, &v0.1), sub(&v.2, &v0.2), sub(&v.3, &v0.3));
            fin.push([&dc[..], &df[..]].concat());
            if nonzero(&dc) {
                jc.push(dc);
            } else if nonzero(&dg) {
                jg.push(dg);
                fg.push(df);
            } else if nonzero(&dh) {
                jh.push(dh);
                fh.push(df);
            }
        }
        let which = if second { " (second proof)" } else { "" };
        let pos = drawn_positions(n);
        let (want_g, want_h) = if proto == Alm {
            // exactly: the projections of the drawn positions
            let (a, b) = (inst.wit.at(0).vs(), inst.wit.at(1).vs());
            let r1 = v0.1.clone();
            let r = |dirs: &[&[Scalar]]| {
                rank(
                    prescribed(n)
                        .iter()
                        .filter_map(|i| project(&(0..n).map(|j| fe((j == *i) as u64)).collect::<Vec<_>>(), dirs))
                        .collect(),
                )
            };
            (r(&[&b]), r(&[&a, &r1]))
        } else {
            (pos.min(n - 1), pos.min(n.saturating_sub(2)))
        };
        let (rc, rg, rh) = (rank(jc), rank(jg), rank(jh));
        note(format!("{} coins: ranks {} {} {}", total, rc, rg, rh));
        if rc < v0.0.len() {
            return V::Fail(format!("{:?}: the commitments to the witness have {} degrees of freedom, not {}{}", proto, rc, v0.0.len(), which));
        }
        if rg < want_g {
            return V::Fail(format!("{:?}: the first masking vector has {} degrees of freedom, not {}{}", proto, rg, want_g, which));
        }
        if rh < want_h {
            return V::Fail(format!("{:?}: the second masking vector has {} degrees of freedom, not {}{}", proto, rh, want_h, which));
        }
        if n >= 4 {
            if !fg.iter().any(|d| d[0] != Scalar::zero()) || !fh.iter().any(|d| d[1] != Scalar::zero()) {
                return V::Fail(format!("{:?}: a final scalar is not masked{}", proto, which));
            }
            let rf = rank(fin);
            if rf < v0.0.len() + 2 {
                return V::Fail(format!("{:?}: commitments and final scalars have {} degrees of freedom together{}", proto, rf, which));
            }
        }
    }
    V::Ok
}

pub fn z02(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if BIG {
        let ns = t.pick(vec![], vec![2usize, 4, 8, 16, 32, 64, 128], vec![2, 4, 8, 16, 32, 64, 128, 256]);
        for proto in [Alm, Inner, Zk, Proto::Copy] {
            for n in ns.iter().cloned() {
                if proto != Alm && n < 4 || proto == Proto::Copy && n < 8 || proto == Alm && n > 16 {
                    continue;
                }
                for v in 0..t.pick(1, if n > 16 { 1 } else { 6 }, if n > 32 { 1 } else { 8 }) {
                    o.push(
                        Scenario::new(format!("Z02/ranks/{:?}/n{}v{}", proto, n, v), move || {
                            let _e = if n > 16 { Some(embed(n)) } else { None };
                            let i = standard(proto, n, v);
                            if proto == Alm && !nonzero(&i.wit.at(0).vs()) {
                                return V::Skip;
                            }
                            blinding(proto, n, &i)
                        })
                        .field(251, if n > 16 { 40 } else { 2 * n + 1 })
                        .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 2, 12))),
                    );
                }
            }
        }
    }
    if SMALL {
        // the pair of commitments: every value equally often over all coins it depends on
        for (proto, n, p) in t.pick(
            vec![(Zk, 4usize, 5u32)],
            vec![(Zk, 4usize, 5u32), (Zk, 4, 7), (Zk, 8, 5), (Proto::Copy, 8, 5), (Proto::Copy, 8, 7), (Zk, 4, 13)],
            vec![(Zk, 4, 5), (Zk, 4, 7), (Zk, 4, 31), (Zk, 4, 61), (Zk, 8, 5), (Zk, 8, 13), (Zk, 16, 7), (Proto::Copy, 8, 5), (Proto::Copy, 8, 7), (Proto::Copy, 8, 31), (Proto::Copy, 16, 13)],
        ) {
            for v in 0..t.pick(1, 3, 6) {
                o.push(
                    Scenario::new(format!("Z02/pair/{:?}/n{}p{}v{}", proto, n, p, v), move || {
                        let mut i = standard(proto, n, v);
                        // another witness value: equations stay as they are, the prover does not look
                        let w1 = inp(p);
                        i.wit.set(&[0, 1], S(fe(w1 as u64)));
                        let (g, h) = (i.st.at(0).vp(), i.st.at(1).vp());
                        let c1 = |x: &RistrettoPoint| coeffs(x)[0];
                        if c1(&g[n - 2]) * c1(&h[n - 2]) + c1(&g[n - 1]) * c1(&h[n - 1]) == Scalar::zero() {
                            return V::Skip;
                        }
                        let sc = Sc::new(true);
                        let look = |pf: &Node| parts(proto, pf).0;
                        let run = |s: &[(u32, u32)]| with_coins(s, || try_prove(&sc, proto, 0, &i.st, &i.wit).map(|p| look(&p)));
                        let (base, total) = run(&[]);
                        let mask: Vec<bool> = (0..total).map(|j| run(&[(j, 1)]).0 != base).collect();
                        mcrt::set_coin_mask(Some(mask));
                        match try_prove(&sc, proto, 0, &i.st, &i.wit) {
                            Some(pf) => V::Uni(hash(&[w1 as u64, drawn()]), (p as u64).pow(2), hp(&look(&pf))),
                            None => V::Fail("prover aborted".into()),
                        }
                    })
                    .field(p, 1)
                    .policies(bases(Mode::Full, Mode::Fixed, 0, t.pick(1, 3, 6))),
                );
            }
        }
    }
    o
}

// ---- Z03 -----------------------------------------------------------------------------

/// the part of v orthogonal to the given vectors; None if a direction is orthogonal to itself
fn project(v: &[Scalar], dirs: &[&[Scalar]]) -> Option<Vec<Scalar>> {
    let mut basis: Vec<Vec<Scalar>> = vec![];
    for d in dirs {
        let mut x = d.to_vec();
        for b in basis.iter() {
            let f = ip(&x, b) * ip(b, b).invert();
            x = x.iter().zip(b).map(|(x, y)| x - f * y).collect();
        }
        if !nonzero(&x) {
            continue;
        }
        if ip(&x, &x) == Scalar::zero() {
            return None;
        }
        basis.push(x);
    }
    let mut x = v.to_vec();
    for b in basis.iter() {
        let f = ip(&x, b) * ip(b, b).invert();
        x = x.iter().zip(b).map(|(x, y)| x - f * y).collect();
    }
    Some(x)
}
fn dirs_pattern(k: u32, n: usize) -> Vec<Scalar> {
    match k {
        0..=7 => pattern(k, n, 900 + n as u64),
        // unit vector at a position the sampler does not draw (long vectors)
        8 => (0..n).map(|i| fe((i == n.saturating_sub(3)) as u64)).collect(),
        _ => pattern(0, n, 901 + n as u64),
    }
}
const DIRS: u32 = 10;

pub fn z03(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        // everything: all vectors, all coins
        for (n, p) in t.pick(vec![(2usize, 3u32)], vec![(2, 3), (2, 5), (2, 7), (4, 3)], vec![(2, 3), (2, 5), (2, 7), (4, 3), (4, 5)]) {
            for lead in 0..p * p {
                o.push(
                    Scenario::new(format!("Z03/one/n{}p{}/{}", n, p, lead), move || {
                        let a: Vec<Scalar> = (0..n)
                            .map(|i| fe(if i == 0 { lead % p } else if i == 1 { lead / p } else { inp(p) } as u64))
                            .collect();
                        let dim = if nonzero(&a) { n - 1 } else { n };
                        if nonzero(&a) && ip(&a, &a) == Scalar::zero() {
                            return V::Exempt;
                        }
                        let r = match guarded(|| sample_gram_schmidt(&a)) {
                            Ok(r) => r,
                            Err(e) => return V::Fail(format!("sampler aborted: {}", e)),
                        };
                        if r.len() != n || ip(&r, &a) != Scalar::zero() {
                            return V::Fail("sample not orthogonal".into());
                        }
                        V::Uni(hs(&a), (p as u64).pow(dim as u32), hs(&r))
                    })
                    .field(p, 1)
                    .policy(everything()),
                );
            }
        }
        for (n, p) in t.pick(vec![], vec![(2usize, 3u32), (2, 5), (4, 3)], vec![(2, 3), (2, 5), (2, 7), (4, 3)]) {
            for lead in 0..p * p {
                o.push(
                    Scenario::new(format!("Z03/two/n{}p{}/{}", n, p, lead), move || {
                        let v = |k: u32| -> Vec<Scalar> { (0..n).map(|i| fe(((k / 3u32.pow(i as u32)) % 3) as u64)).collect() };
                        let (a, b): (Vec<Scalar>, Vec<Scalar>) = if n == 2 {
                            (vec![fe((lead % p) as u64), fe((lead / p) as u64)], vec![fe(inp(p) as u64), fe(inp(p) as u64)])
                        } else {
                            // pairs of vectors of length four, spread over the scenarios
                            (v(lead * 9 + inp(9)), v(inp(t.pick(1, 9, 81)) * t.pick(1, 9, 1) + lead))
                        };
                        if project(&a, &[&a, &b]).is_none() {
                            return V::Exempt;
                        }
                        let dim = n - rank(vec![a.clone(), b.clone()]);
                        let r = match guarded(|| sample_gram_schmidt_twice(&a, &b)) {
                            Ok(r) => r,
                            Err(e) => return V::Fail(format!("sampler aborted: {}", e)),
                        };
                        if r.len() != n || ip(&r, &a) != Scalar::zero() || ip(&r, &b) != Scalar::zero() {
                            return V::Fail("sample not orthogonal to both".into());
                        }
                        V::Uni(hash(&[hs(&a), hs(&b)]), (p as u64).pow(dim as u32), hs(&r))
                    })
                    .field(p, 1)
                    .policy(everything()),
                );
            }
        }
        return o;
    }
    let ns = t.pick(vec![2usize, 4, 16], vec![2, 4, 8, 16, 32, 64, 128, 256, 512], vec![2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048]);
    for n in ns.iter().cloned() {
        if REAL {
            o.push(
                Scenario::new(format!("Z03/real/n{}", n), move || {
                    let (a, b) = (dirs_pattern(inp(DIRS), n), dirs_pattern(inp(DIRS), n));
                    let r = sample_gram_schmidt(&a);
                    let s = sample_gram_schmidt_twice(&a, &b);
                    let z = Scalar::zero();
                    if ip(&r, &a) != z || ip(&s, &a) != z || ip(&s, &b) != z {
                        return V::Fail("sample not orthogonal".into());
                    }
                    V::Ok
                })
                .policy(fixed()),
            );
            continue;
        }
        // raw samples: where they are not zero, and how many degrees of freedom they have
        o.push(
            Scenario::new(format!("Z03/raw/n{}", n), move || {
                let zero = vec![Scalar::zero(); n];
                let two = inp(2) == 1;
                let go = |s: &[(u32, u32)]| with_coins(s, || guarded(|| if two { sample_gram_schmidt_twice(&zero, &zero) } else { sample_gram_schmidt(&zero) }));
                let (base, total) = go(&[]);
                let base = match base {
                    Ok(b) => b,
                    Err(e) => return V::Fail(format!("sampler aborted on the zero vector: {}", e)),
                };
                let want = prescribed(n);
                let have: std::collections::BTreeSet<usize> = (0..n).filter(|i| base[*i] != Scalar::zero()).collect();
                if base.len() != n || !have.is_superset(&want) {
                    return V::Fail(format!("a sample of length {} is random at {:?}, not at {:?}", n, have, want));
                }
                let mut d = vec![];
                for j in 0..total {
                    for s in [1, 2, 100] {
                        let x = sub(&go(&[(j, s)]).0.unwrap_or(base.clone()), &base);
                        d.push(want.iter().map(|i| x[*i]).collect::<Vec<_>>());
                    }
                }
                let all: Vec<Vec<Scalar>> = shifts(total).filter_map(|s| go(&s).0.ok()).collect();
                for i in want.iter() {
                    if let Some(b) = stuck_bit(&all.iter().map(|m| m[*i]).collect::<Vec<_>>()) {
                        return V::Fail(format!("bit {} of entry {} of a sample of length {} never changes", b, i, n));
                    }
                }
                let r = rank(d);
                if r != want.len() {
                    return V::Fail(format!("a sample of length {} has {} degrees of freedom, not {}", n, r, want.len()));
                }
                V::Ok
            })
            .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 2, 8))),
        );
        // projections of the sample made from the same coins
        o.push(
            Scenario::new(format!("Z03/projection/n{}", n), move || {
                let (a, b) = (dirs_pattern(inp(DIRS), n), dirs_pattern(inp(DIRS), n));
                let zero = vec![Scalar::zero(); n];
                let two = inp(2) == 1;
                let r = match guarded(|| if two { sample_gram_schmidt_twice(&a, &b) } else { sample_gram_schmidt(&a) }) {
                    Ok(r) => r,
                    Err(e) => return V::Fail(format!("sampler aborted: {}", e)),
                };
                mcrt::restart();
                let s = if two { sample_gram_schmidt_twice(&zero, &zero) } else { sample_gram_schmidt(&zero) };
                let want = if two { project(&s, &[&a, &b]) } else { project(&s, &[&a]) };
                let want = want.expect("harness: self-orthogonal vector in the menu");
                let z = Scalar::zero();
                if ip(&r, &a) != z || two && ip(&r, &b) != z {
                    return V::Fail("sample not orthogonal".into());
                }
                if r != want {
                    return V::Fail("the sample is not the projection of the raw sample".into());
                }
                V::Ok
            })
            .policies(bases(Mode::Fixed, Mode::Fixed, 0, t.pick(1, 2, 8))),
        );
    }
    o.push(
        Scenario::new("Z03/isotropic", || {
            let i = sqrt_m1().expect("harness: no square root of -1");
            let mut iso = vec![Scalar::zero(); 4];
            iso[0] = Scalar::one();
            iso[1] = i;
            let gen = pattern(0, 4, 7);
            let (which, r, a, b) = match inp(3) {
                0 => ("the only vector", sample_gram_schmidt(&iso), iso.clone(), iso),
                1 => ("the first of two", sample_gram_schmidt_twice(&iso, &gen), iso, gen),
                _ => ("the second of two", sample_gram_schmidt_twice(&gen, &iso), gen, iso),
            };
            if ip(&r, &a) == Scalar::zero() && ip(&r, &b) == Scalar::zero() {
                V::Ok
            } else {
                V::Known(format!("self-orthogonal nonzero vector as {}", which))
            }
        })
        .policy(fixed()),
    );
    o
}
