//! A prover that can open anything, one message late.
//!
//! Knowing all challenges, a prover can open whatever the verifier of quadratic systems
//! ends up with: that vector is read off the verifier's own last comparison.  One of its
//! commitments is then moved in one direction so far that the claimed inner product is right.
//! This must not be possible without knowing the challenges after that commitment: the
//! attempt is repeated with the challenges the verifier really draws.
use super::late::*;
use super::sound::*;
use super::Tier;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use mcrt::mix;

/// positions in G, H, Q with factors
type Dir = Vec<(usize, Scalar)>;
/// what the verifier is left with: vectors, claim, and the generators (relative to those given)
struct Open {
    a: Vec<Scalar>,
    b: Vec<Scalar>,
    t: Scalar,
    scale: Vec<Scalar>,
}
impl Open {
    fn gap(&self) -> Scalar {
        self.t - ip(&self.a, &self.b)
    }
    /// between this (0) and another (1)
    fn between(&self, o: &Open, x: Scalar) -> Open {
        let v = |a: &[Scalar], b: &[Scalar]| a.iter().zip(b).map(|(a, b)| a + x * (b - a)).collect();
        Open { a: v(&self.a, &o.a), b: v(&self.b, &o.b), t: self.t + x * (o.t - self.t), scale: self.scale.clone() }
    }
}
fn all(c: &Crs) -> Vec<RistrettoPoint> {
    c.g.iter().chain(&c.h).chain(Some(&c.q)).cloned().collect()
}
fn moved(proto: Proto, pf: &Node, slot: usize, x: RistrettoPoint) -> Option<Node> {
    let places: Vec<Vec<usize>> = match (proto, slot) {
        (Proto::Copy, 0) => vec![vec![0], vec![1, 0]],
        (Proto::Copy, _) => vec![vec![1, 1]],
        (_, s) => vec![vec![s]],
    };
    let mut pf = pf.clone();
    for p in places {
        let y = pf.get(&p).c().decompress()?;
        pf = pf.with(&p, C((y + x).compress()));
    }
    Some(pf)
}
/// without the masks of the last part: what is opened is proportional to what was committed
fn bare(proto: Proto, pf: Node) -> Node {
    let mut at = sub(proto);
    *at.last_mut().unwrap() = 0;
    pf.with(&at, C(RistrettoPoint::identity().compress()))
}
fn sub(proto: Proto) -> Vec<usize> {
    if proto == Proto::Copy {
        vec![1, 2, 1]
    } else {
        vec![2, 1]
    }
}
#[cfg(feature = "big")]
fn unit(i: usize) -> RistrettoPoint {
    curve25519_dalek::model::basis(i)
}
#[cfg(not(feature = "big"))]
fn unit(_: usize) -> RistrettoPoint {
    RistrettoPoint::identity()
}
fn along(dir: &Dir, by: Scalar, g: &[RistrettoPoint]) -> RistrettoPoint {
    dir.iter().fold(RistrettoPoint::identity(), |x, (i, f)| x + g[*i] * (f * by))
}
fn product(xs: &[Scalar], i: usize, right: bool) -> Scalar {
    // the first challenge decides about the halves
    let k = xs.len();
    xs.iter().enumerate().fold(Scalar::one(), |p, (r, x)| if (i >> (k - 1 - r) & 1 == 1) == right { p * x } else { p })
}
/// ... of the proof as it is, and with the commitment moved
fn opened(vals: &[u32], draws: usize, make: &dyn Fn(&Crs) -> Inst, n: usize, slot: usize, dir: &Dir) -> Option<[Open; 2]> {
    let lg = n.trailing_zeros() as usize;
    let xs: Vec<Scalar> = vals[draws - lg..draws].iter().map(|v| drawn(*v)).collect();
    let all_x = xs.iter().fold(Scalar::one(), |p, x| p * x);
    let alpha = drawn(vals[draws - lg - 1]);
    if all_x == Scalar::zero() || alpha == Scalar::zero() {
        return None;
    }
    let id = RistrettoPoint::identity();
    let dim = mcrt::dim();
    let empty = || Open { a: vec![], b: vec![], t: Scalar::zero(), scale: vec![] };
    let mut o = [empty(), empty()];
    let mut from = 0;
    while from < 2 * n {
        let to = (from + dim - 1).min(2 * n);
        let mut g = vec![id; 2 * n + 1];
        for i in from..to {
            g[i] = unit(i - from);
        }
        g[2 * n] = unit(dim - 1);
        let c = Crs { g: g[..n].to_vec(), h: g[n..2 * n].to_vec(), q: g[2 * n] };
        let i = make(&c);
        let pf = bare(i.proto, prove_with(vals, i.proto, &i.st, &i.wit)?);
        let there = moved(i.proto, &pf, slot, along(dir, Scalar::one(), &g))?;
        let at = sub(i.proto);
        let none: Vec<CompressedRistretto> = vec![id.compress(); lg];
        let look = |pf: &Node, a: u64, b: u64| {
            mcrt::oracle_script(vals);
            let pf = pf.with(&at, L(vec![Node::cps(&none), Node::cps(&none), S(fe(a)), S(fe(b))]));
            misses(i.proto, &i.st, &pf).1.last().map(|d| coeffs(d))
        };
        let (d, da, db, dab) = (look(&pf, 0, 0)?, look(&pf, 1, 0)?, look(&pf, 0, 1)?, look(&pf, 1, 1)?);
        let d1 = look(&there, 0, 0)?;
        let e = (dab[dim - 1] - da[dim - 1] - db[dim - 1] + d[dim - 1]) * alpha;
        if e != Scalar::one() && e != -Scalar::one() {
            return None;
        }
        for k in from..to {
            let (one, right) = if k < n { (&da, true) } else { (&db, false) };
            let f = product(&xs, k % n, right);
            if f == Scalar::zero() {
                return None;
            }
            let scale = (one[k - from] - d[k - from]) * f.invert() * e;
            if scale == Scalar::zero() {
                return None;
            }
            let f = -e * (all_x * scale).invert();
            for (o, d) in o.iter_mut().zip([&d, &d1]) {
                o.scale.push(scale);
                let v = d[k - from] * f;
                if k < n {
                    o.a.push(v)
                } else {
                    o.b.push(v)
                }
            }
        }
        for (o, d) in o.iter_mut().zip([&d, &d1]) {
            o.t = -d[dim - 1] * e * all_x.invert() * alpha;
        }
        from = to;
    }
    Some(o)
}
fn attempt(vals: &[u32], draws: usize, c: &Crs, make: &dyn Fn(&Crs) -> Inst, slot: usize, dir: &Dir) -> Option<(Node, Node)> {
    let n = c.g.len();
    let lg = n.trailing_zeros() as usize;
    let [mut o, o1] = opened(vals, draws, make, n, slot, dir)?;
    let mut by = Scalar::zero();
    let g0 = o.gap();
    if g0 != Scalar::zero() {
        let slope = o1.gap() - g0;
        if slope == Scalar::zero() {
            return None;
        }
        by = -g0 * slope.invert();
        o = o.between(&o1, by);
        if o.gap() != Scalar::zero() {
            // not linear
            return None;
        }
    }
    let i = make(c);
    let pf = bare(i.proto, prove_with(vals, i.proto, &i.st, &i.wit)?);
    let pf = moved(i.proto, &pf, slot, along(dir, by, &all(c)))?;
    let g: Vec<_> = (0..n).map(|k| c.g[k] * o.scale[k]).collect();
    let h: Vec<_> = (0..n).map(|k| c.h[k] * o.scale[n + k]).collect();
    let st = L(vec![Node::pts(&g), Node::pts(&h), P(c.q), U(n as u64), P(RistrettoPoint::identity()), S(o.t)]);
    let last = prove_with(&vals[draws - lg - 1..], Ipa, &st, &L(vec![Node::scs(&o.a), Node::scs(&o.b)]))?;
    Some((i.st.clone(), pf.with(&sub(i.proto), last)))
}
fn dirs(n: usize, much: bool) -> Vec<Dir> {
    let one = Scalar::one();
    let mut v: Vec<Dir> = (0..2 * n + 1).map(|i| vec![(i, one)]).collect();
    let near = |i: usize, j: usize| much || (j - i).is_power_of_two() || (i % n) < 2 || j % n + 2 >= n;
    for i in 0..2 * n {
        for j in i + 1..2 * n {
            // in both places of a product the claim is not linear any more
            if j == i + n || !near(i, j) || !much && i / n != j / n {
                continue;
            }
            v.push(vec![(i, one), (j, -one)]);
            if much || j % n + 2 >= n {
                v.push(vec![(i, one), (j, one)]);
            }
        }
    }
    v
}
/// only what the second commitment is meant to hold
fn dirs_second(n: usize) -> Vec<Dir> {
    let one = Scalar::one();
    let mut v = vec![];
    for i in n..2 * n {
        for j in i + 1..2 * n {
            if n <= 32 && (j - i).is_power_of_two() || j - i == n / 2 || i == n && j + 3 >= 2 * n {
                v.push(vec![(i, one), (j, -one)]);
            }
        }
    }
    v
}
/// dense equations, so that no other vector fulfils them by changing two entries
fn dense(k: usize, w: &[Scalar]) -> Vec<Vec<Vec<Scalar>>> {
    (0..k).map(|i| equation(0, w, 1000 + i as u64)).collect()
}
fn run(prop: &str, name: String, make: impl Fn(u32) -> Option<(Crs, Box<dyn Fn(&Crs) -> Inst>, Dir, usize)> + Send + Sync + 'static, kinds: u32, t: Tier) -> Scenario {
    Scenario::new(format!("{}/bent/{}", prop, name), move || {
        let what = tam(kinds);
        let (c, make, dir, slot) = match make(what) {
            Some(x) => x,
            None => return V::Skip,
        };
        let i = make(&c);
        let pf = match try_prove(&None, i.proto, 0, &i.st, &i.wit) {
            Some(pf) => pf,
            None => return V::Skip,
        };
        mcrt::take_draws();
        accepted(&None, i.proto, 0, &i.st, &pf);
        let draws = mcrt::take_draws().len();
        if draws > 64 || draws <= c.g.len().trailing_zeros() as usize {
            return V::Skip;
        }
        let got = fixpoint(i.proto, |vals| attempt(vals, draws, &c, &*make, slot, &dir));
        match got {
            None if what == 0 => control("bent", false),
            Some((st, pf)) if what == 0 => control("bent", accepted(&None, i.proto, 0, &st, &pf)),
            None => V::Ok,
            Some((st, pf)) => must_reject(&None, i.proto, 0, &st, &pf, || {
                let place: Vec<usize> = dir.iter().map(|x| x.0).collect();
                format!("a false statement ({}), made up for in commitment {} along generators {:?}", what, slot, place)
            }),
        }
    })
    .field(251, 40)
    .wide()
    .policies(few1(t))
}
pub fn systems(prop: &str, t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for proto in [Inner, Zk] {
        for (n, k) in t.pick(vec![], vec![(4usize, 1usize), (4, 3), (8, 2), (16, 2), (32, 2), (64, 1)], vec![(4, 1), (4, 3), (4, 9), (8, 2), (16, 2), (16, 17), (32, 2), (64, 1), (128, 1)]) {
            let ds = if n > 16 { dirs_second(n) } else { dirs(n, n <= t.pick(4, 4, 8)) };
            let make = move |what: u32| -> Option<(Crs, Box<dyn Fn(&Crs) -> Inst>, Dir, usize)> {
                if proto == Zk && n > 8 {
                    return None;
                }
                let mut wd = World::new(mix(n as u64 ^ 0xbe47));
                let c = crs(&mut wd, n);
                let mut w = wd.scs(1, n - 2);
                w[0] = Scalar::one();
                let gamma = dense(k, &w);
                match what {
                    0 => (),
                    1 => w[n - 3] = w[n - 3] + gsc(77),
                    _ => w.iter_mut().for_each(|x| *x = *x * fe(3)),
                }
                let r = wd.scs(2, 2);
                let slot = if n > 16 { 1 } else { tam(2) as usize };
                let dir = if what == 0 { ds[0].clone() } else { ds[tam(ds.len() as u32) as usize].clone() };
                Some((c, Box::new(move |c: &Crs| qesa_inst(proto, c, &gamma, &w, &r)), dir, slot))
            };
            o.push(run(prop, format!("{:?}/n{}k{}", proto, n, k), make, if n > 8 { 2 } else { 3 }, t));
        }
    }
    o
}
/// Copy proofs: what is wrong is an equation or a message.
pub fn copies(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if !BIG || t == Tier::Conf {
        return o;
    }
    for (n, sets) in t.pick(vec![], vec![(8usize, vec![vec![2u16]]), (16, vec![vec![2, 5], vec![2]])], vec![(8, vec![vec![2u16]]), (8, vec![vec![3], vec![3]]), (16, vec![vec![2, 5], vec![2]]), (32, vec![vec![2, 29], vec![2], vec![4]])]) {
        let ds: Vec<Dir> = dirs(n, false).into_iter().filter(|d| d.iter().all(|x| x.0 >= n)).collect();
        let name = format!("Copy/n{}s{}", n, sets.len());
        let make = move |what: u32| -> Option<(Crs, Box<dyn Fn(&Crs) -> Inst>, Dir, usize)> {
            let mut wd = World::new(mix(n as u64 ^ 0xbe47c));
            let c = crs(&mut wd, n);
            let sets: Vec<std::collections::BTreeSet<u16>> = sets.iter().map(|s| s.iter().cloned().collect()).collect();
            let openings: Vec<(Vec<Scalar>, Scalar)> = sets.iter().enumerate().map(|(i, s)| (wd.scs(30 + i as u64, s.len()), wd.sc(900 + i as u64))).collect();
            let w = vec![Scalar::one(), wd.sc(7)];
            let slot = tam(2) as usize;
            let dir = if what == 0 { ds[0].clone() } else { ds[tam(ds.len() as u32) as usize].clone() };
            Some((
                c,
                Box::new(move |c: &Crs| {
                    let spec = CopySpec { n, w: w.clone(), sets: sets.clone(), openings: openings.clone() };
                    let mut i = copy_inst(c, &spec, &[0]);
                    match what {
                        0 => (),
                        1 => {
                            let x = i.wit.at(0).at(1).s() + gsc(77);
                            i.wit.set(&[0, 1], S(x));
                        }
                        _ => {
                            let x = i.wit.get(&[1, 0, 0, 0]).s() + gsc(78);
                            i.wit.set(&[1, 0, 0, 0], S(x));
                        }
                    }
                    i
                }),
                dir,
                slot,
            ))
        };
        o.push(run("K02", name, make, 3, t));
    }
    o
}
