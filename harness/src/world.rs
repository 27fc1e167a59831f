//! Values and instances.
use crate::node::Node::{self, *};
use crate::proto::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use mcrt::{mix, Kind};
use qesa::verif::copy;
use std::sync::atomic::{AtomicU64, Ordering};
use std::collections::BTreeSet;

static SEED: AtomicU64 = AtomicU64::new(1);
pub fn set_seed(s: u64) {
    SEED.store(s, Ordering::SeqCst);
}

/// A pseudo-random scalar: over the real order practically generic, over a small prime some value.
pub fn gsc(tag: u64) -> Scalar {
    let base = mix(SEED.load(Ordering::Relaxed) ^ mix(tag ^ 0x5eed));
    let mut b = [0u8; 64];
    for i in 0..8 {
        b[8 * i..8 * i + 8].copy_from_slice(&mix(base.wrapping_add(i as u64)).to_le_bytes());
    }
    Scalar::from_bytes_mod_order_wide(&b)
}
/// as gsc, never zero
pub fn gsc_nz(tag: u64) -> Scalar {
    for k in 0.. {
        let s = gsc(tag.wrapping_add(k << 48));
        if s != Scalar::zero() {
            return s;
        }
    }
    unreachable!()
}
pub fn fe(x: u64) -> Scalar {
    Scalar::from(x)
}
/// small signed integer
pub fn fi(x: i64) -> Scalar {
    if x >= 0 {
        fe(x as u64)
    } else {
        -fe((-x) as u64)
    }
}
#[cfg(any(feature = "model", feature = "big"))]
pub fn base_mul(s: &Scalar) -> RistrettoPoint {
    curve25519_dalek::model::point(&[*s])
}
#[cfg(any(feature = "mixed", feature = "real"))]
pub fn base_mul(s: &Scalar) -> RistrettoPoint {
    s * &curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE
}

/// Source of generators: independent formal generators when the group has several
/// dimensions, otherwise multiples of one generator by generic factors.
pub struct World {
    next: usize,
    pub tag: u64,
}
#[cfg(any(feature = "model", feature = "big"))]
thread_local! {
    static EMBED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Generators 0..n and n..2n are generic vectors in one and in the other half of the
/// dimensions while this lives.
#[cfg(any(feature = "model", feature = "big"))]
pub struct Embed;
#[cfg(any(feature = "model", feature = "big"))]
pub fn embed(n: usize) -> Embed {
    EMBED.with(|e| e.set(n));
    Embed
}
#[cfg(any(feature = "mixed", feature = "real"))]
pub fn embed(_n: usize) {}
#[cfg(any(feature = "model", feature = "big"))]
impl Drop for Embed {
    fn drop(&mut self) {
        EMBED.with(|e| e.set(0));
    }
}
impl World {
    pub fn new(tag: u64) -> World {
        World { next: 0, tag }
    }
    pub fn pt(&mut self) -> RistrettoPoint {
        let i = self.next;
        self.next += 1;
        #[cfg(any(feature = "model", feature = "big"))]
        if mcrt::dim() > 1 {
            let n = EMBED.with(|e| e.get());
            if n > 0 {
                let (d, hi) = (mcrt::dim(), i >= n);
                let v = |k: usize| if (k >= d / 2) == hi { gsc_nz(mix(0xe3bed ^ i as u64) ^ k as u64) } else { Scalar::zero() };
                return curve25519_dalek::model::point(&(0..d).map(v).collect::<Vec<_>>());
            }
            return curve25519_dalek::model::basis(i % mcrt::dim());
        }
        base_mul(&gsc_nz(mix(self.tag ^ 0x9e17) ^ i as u64))
    }
    pub fn pts(&mut self, n: usize) -> Vec<RistrettoPoint> {
        (0..n).map(|_| self.pt()).collect()
    }
    pub fn sc(&self, i: u64) -> Scalar {
        gsc(mix(self.tag ^ 0x5ca1) ^ i)
    }
    pub fn scs(&self, tag: u64, n: usize) -> Vec<Scalar> {
        (0..n).map(|i| self.sc((tag << 20) + i as u64)).collect()
    }
}

pub fn ip(a: &[Scalar], b: &[Scalar]) -> Scalar {
    assert_eq!(a.len(), b.len());
    let mut s = Scalar::zero();
    for i in 0..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn lin(s: &[Scalar], p: &[RistrettoPoint]) -> RistrettoPoint {
    assert_eq!(s.len(), p.len());
    let mut o = RistrettoPoint::identity();
    for i in 0..s.len() {
        o = o + p[i] * s[i];
    }
    o
}

/// Enumerated vector patterns, simplest first.
pub const PATTERNS: u32 = 8;
pub fn pattern(k: u32, n: usize, tag: u64) -> Vec<Scalar> {
    (0..n)
        .map(|i| match k {
            0 => gsc(mix(tag) ^ i as u64),
            1 => Scalar::zero(),
            2 => Scalar::one(),
            3 => fe((i == 0) as u64),
            4 => fe((i == n - 1) as u64),
            5 => {
                if i % 2 == 0 {
                    gsc(mix(tag) ^ i as u64)
                } else {
                    Scalar::zero()
                }
            }
            6 => {
                if i >= n / 2 {
                    gsc(mix(tag) ^ i as u64)
                } else {
                    Scalar::zero()
                }
            }
            _ => fi(-1 - i as i64),
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub proto: Proto,
    pub st: Node,
    pub wit: Node,
}

/// generators shared by an inner-product style statement
pub struct Crs {
    pub g: Vec<RistrettoPoint>,
    pub h: Vec<RistrettoPoint>,
    pub q: RistrettoPoint,
}
pub fn crs(w: &mut World, n: usize) -> Crs {
    Crs { g: w.pts(n), h: w.pts(n), q: w.pt() }
}

pub fn ipa_inst(c: &Crs, a: &[Scalar], b: &[Scalar]) -> Inst {
    let t = ip(a, b);
    let p = lin(a, &c.g) + lin(b, &c.h) + c.q * t;
    Inst {
        proto: Ipa,
        st: L(vec![Node::pts(&c.g), Node::pts(&c.h), P(c.q), U(a.len() as u64), P(p), S(t)]),
        wit: L(vec![Node::scs(a), Node::scs(b)]),
    }
}
pub fn alm_inst(c: &Crs, a: &[Scalar], b: &[Scalar]) -> Inst {
    let t = ip(a, b);
    let p = lin(a, &c.g) + lin(b, &c.h);
    Inst {
        proto: Alm,
        st: L(vec![Node::pts(&c.g), Node::pts(&c.h), P(c.q), U(a.len() as u64), P(p), S(t)]),
        wit: L(vec![Node::scs(a), Node::scs(b)]),
    }
}
/// w^T M w
pub fn quad(m: &[Vec<Scalar>], w: &[Scalar]) -> Scalar {
    let mut s = Scalar::zero();
    for i in 0..m.len() {
        for j in 0..m[i].len() {
            s = s + w[i] * m[i][j] * w[j];
        }
    }
    s
}
/// change one entry so that w^T M w = 0 (w[0] must be one)
pub fn solve0(m: &mut Vec<Vec<Scalar>>, w: &[Scalar]) {
    let r = quad(m, w);
    m[0][0] = m[0][0] - r;
}
/// Enumerated equation kinds, each satisfied by w.
pub const EQUATIONS: u32 = 6;
pub fn equation(kind: u32, w: &[Scalar], tag: u64) -> Vec<Vec<Scalar>> {
    let d = w.len();
    let z = Scalar::zero();
    let mut m = vec![vec![z; d]; d];
    match kind {
        // dense
        0 => {
            for i in 0..d {
                for j in 0..d {
                    m[i][j] = gsc(mix(tag) ^ (i * d + j) as u64);
                }
            }
        }
        // zero
        1 => {}
        // linear: value of the last entry
        2 => {
            m[0][d - 1] = Scalar::one();
        }
        // product: w[1] * w[d-1] = const
        3 => {
            m[1 % d][d - 1] = Scalar::one();
        }
        // boolean-like w[d-1]^2 - w[d-1] = const
        4 => {
            m[d - 1][d - 1] = Scalar::one();
            m[0][d - 1] = m[0][d - 1] - Scalar::one();
        }
        // sparse, below the diagonal only
        _ => {
            for i in 1..d {
                m[i][i - 1] = gsc(mix(tag) ^ i as u64);
            }
        }
    }
    solve0(&mut m, w);
    m
}
pub fn qesa_inst(proto: Proto, c: &Crs, gamma: &[Vec<Vec<Scalar>>], w: &[Scalar], r: &[Scalar]) -> Inst {
    Inst {
        proto,
        st: L(vec![
            Node::pts(&c.g),
            Node::pts(&c.h),
            P(c.q),
            L(gamma.iter().map(|m| Node::smat(m)).collect()),
        ]),
        wit: if proto == Zk { L(vec![Node::scs(w)]) } else { L(vec![Node::scs(w), Node::scs(r)]) },
    }
}

/// reference: the commitment to `msgs` under `idx`
pub fn commit_ref(g: &[RistrettoPoint], idx: &BTreeSet<u16>, msgs: &[Scalar], r: &Scalar) -> RistrettoPoint {
    let mut o = g[g.len() - 1] * r;
    for (k, i) in idx.iter().enumerate() {
        o = o + g[*i as usize] * msgs[k];
    }
    o
}
pub struct CopySpec {
    pub n: usize,
    /// user's witness, first entry one
    pub w: Vec<Scalar>,
    pub sets: Vec<BTreeSet<u16>>,
    pub openings: Vec<(Vec<Scalar>, Scalar)>,
}
/// slots by the rule of the property: first free positions in order
pub fn slots_ref(n: usize, ws: usize, sets: &[BTreeSet<u16>]) -> Option<Vec<u16>> {
    let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
    let total: usize = sets.iter().map(|s| s.len()).sum();
    let free: Vec<u16> = (ws..n - 2).map(|x| x as u16).filter(|x| !used.contains(x)).take(total).collect();
    if free.len() == total && used.iter().all(|i| *i != 0 && *i as usize + 2 < n) {
        Some(free)
    } else {
        None
    }
}
pub fn copy_inst(c: &Crs, spec: &CopySpec, kinds: &[u32]) -> Inst {
    let map = copy::compute_mapping(spec.n, spec.w.len(), &spec.sets);
    // the full witness as the mapping places it
    let mn = map_node(&map);
    let mut full = spec.w.clone();
    full.resize(spec.n - 2, Scalar::zero());
    let msgs: Vec<Scalar> = spec.openings.iter().flat_map(|(m, _)| m.clone()).collect();
    let mut known = vec![true; spec.n - 2];
    for i in spec.sets.iter().flatten().filter(|i| (**i as usize) < spec.n - 2) {
        known[*i as usize] = false;
    }
    for (k, m) in mn.at(1).list().iter().enumerate() {
        full[m.at(3).u()] = msgs[k];
    }
    let gamma: Vec<Vec<Vec<Scalar>>> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| {
            // equations over the entries that do not depend on challenges
            let mut m = equation(*k, &full, 77 + i as u64);
            for a in 0..spec.n - 2 {
                for b in 0..spec.n - 2 {
                    if !known[a] || !known[b] {
                        m[a][b] = Scalar::zero();
                    }
                }
            }
            solve0(&mut m, &full);
            m
        })
        .collect();
    let comms: Vec<RistrettoPoint> =
        spec.sets.iter().zip(&spec.openings).map(|(s, (m, r))| commit_ref(&c.g, s, m, r)).collect();
    Inst {
        proto: Proto::Copy,
        st: L(vec![
            Node::pts(&c.g),
            Node::pts(&c.h),
            P(c.q),
            L(gamma.iter().map(|m| Node::smat(m)).collect()),
            mn,
            Node::pts(&comms),
        ]),
        wit: L(vec![Node::scs(&spec.w), openings_node(&spec.openings)]),
    }
}
pub fn image(a: &[Vec<RistrettoPoint>], w: &[Scalar]) -> Vec<RistrettoPoint> {
    a.iter().map(|r| lin(w, r)).collect()
}
/// `k` is ignored by the two-way protocols
pub fn lmpa_inst(proto: Proto, a: &[Vec<RistrettoPoint>], w: &[Scalar], k: usize, aux: &Crs) -> Inst {
    let n = w.len();
    let t = image(a, w);
    let m = a.len();
    let st = match proto {
        Lmpa | Simple => L(vec![
            Node::pmat(a),
            Node::pts(&t),
            Node::pts(&aux.g),
            Node::pts(&aux.h),
            P(aux.q),
            U(n as u64),
        ]),
        LmpaK => L(vec![
            Node::pmat(a),
            Node::pts(&t),
            U(n as u64),
            U(m as u64),
            U(k as u64),
            S(Scalar::one()),
            P(RistrettoPoint::identity()),
        ]),
        SimpleK => L(vec![Node::pmat(a), Node::pts(&t), U(n as u64), U(m as u64), U(k as u64)]),
        _ => panic!("harness: not a pre-image protocol"),
    };
    Inst { proto, st, wit: L(vec![Node::scs(w)]) }
}
/// matrix patterns
pub const MATS: u32 = 4;
pub fn pmatrix(w: &mut World, kind: u32, m: usize, n: usize) -> Vec<Vec<RistrettoPoint>> {
    let full: Vec<Vec<RistrettoPoint>> = (0..m).map(|_| w.pts(n)).collect();
    let id = RistrettoPoint::identity();
    match kind {
        0 => full,
        // identity entries below the diagonal, as in the batch argument
        1 => full.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, x)| if j < i { id } else { *x }).collect()).collect(),
        // equal rows
        2 => (0..m).map(|_| full[0].clone()).collect(),
        // a zero row last
        _ => full.iter().enumerate().map(|(i, r)| if i + 1 == m { vec![id; n] } else { r.clone() }).collect(),
    }
}

/// an enumerated input
pub fn inp(dom: u32) -> u32 {
    mcrt::choose_full(Kind::Input, dom)
}
pub fn tam(dom: u32) -> u32 {
    mcrt::choose_full(Kind::Tamper, dom)
}

/// A standard instance of a protocol of (roughly) size n: used where the property is about
/// all protocols rather than about the inputs of one.
/// `variant` selects among further shapes; from 16 on: many equations, rows or commitments.
pub fn many(variant: u32) -> Option<usize> {
    match variant {
        0..=15 => None,
        16 => Some(5),
        17 => Some(9),
        18 => Some(17),
        19 => Some(33),
        20 => Some(70),
        21 => Some(300),
        _ => None,
    }
}
pub const MANY: [u32; 3] = [16, 17, 18];
/// further counts, where only a few executions are made
pub const MORE: [u32; 3] = [19, 20, 21];
/// other splitting factors: (variant, factor, columns)
/// The last two have fewer columns than the factor: nothing is folded.
pub const WIDE_K: [(u32, usize, usize); 10] = [
    (22, 16, 48),
    (23, 33, 33),
    (24, 65, 130),
    (25, 4, 16),
    (26, 5, 5),
    (27, 7, 14),
    (28, 10, 10),
    (29, 6, 36),
    (30, 3, 1),
    (31, 4, 3),
];
/// `variant` selects among further shapes; from 16 on: many equations, rows or commitments.
pub fn standard(p: Proto, n: usize, variant: u32) -> Inst {
    let mut w = World::new(mix(0x57d ^ (p as u64) << 8 ^ (variant as u64) << 16) ^ n as u64);
    match p {
        Ipa | Alm => {
            let c = crs(&mut w, n);
            let a = pattern(variant % PATTERNS, n, 11 + n as u64);
            let b = pattern(0, n, 12 + n as u64);
            if p == Ipa {
                ipa_inst(&c, &a, &b)
            } else {
                alm_inst(&c, &a, &b)
            }
        }
        Inner | Zk => {
            let c = crs(&mut w, n);
            let mut wit = w.scs(1, n - 2);
            wit[0] = Scalar::one();
            let k = many(variant).unwrap_or(1 + (variant as usize) % 3);
            let gamma: Vec<_> = (0..k).map(|i| equation(i as u32 % EQUATIONS, &wit, 5 + i as u64)).collect();
            let r = w.scs(2, 2);
            qesa_inst(p, &c, &gamma, &wit, &r)
        }
        Proto::Copy => {
            let n = n.max(8 << many(variant).map_or(0, |m| [4, 5, 9, 60, 120, 240].iter().filter(|x| m > **x).count()));
            let c = crs(&mut w, n);
            let sets: Vec<BTreeSet<u16>> = match variant % 3 {
                _ if many(variant).is_some() => {
                    let hi = n as u16 - 3;
                    (0..many(variant).unwrap() as u16).map(|k| [hi - k % 2].into_iter().chain(if k == 1 { Some(2) } else { None }).collect()).collect()
                }
                0 => vec![[2u16].into_iter().collect()],
                1 => vec![[2u16].into_iter().collect(), [2u16].into_iter().collect()],
                _ => {
                    if n >= 16 {
                        vec![[2u16, 3].into_iter().collect(), [2u16, 4].into_iter().collect(), [3u16].into_iter().collect()]
                    } else {
                        vec![[2u16, 3].into_iter().collect()]
                    }
                }
            };
            let openings = sets.iter().enumerate().map(|(i, s)| (w.scs(30 + i as u64, s.len()), w.sc(900 + i as u64))).collect();
            let wit = vec![Scalar::one(), w.sc(7)];
            let spec = CopySpec { n, w: wit, sets, openings };
            copy_inst(&c, &spec, &[3, 0][..1 + (variant as usize / 3) % 2])
        }
        Lmpa | Simple | LmpaK | SimpleK => {
            let m = many(variant).unwrap_or(1 + (variant as usize) % 3);
            let wide = WIDE_K.iter().find(|x| x.0 == variant);
            let k = wide.map_or(if variant % 2 == 0 { 2 } else { 3 }, |x| x.1);
            let n = if let (Some(x), true) = (wide, matches!(p, LmpaK | SimpleK)) {
                x.2
            } else if matches!(p, LmpaK | SimpleK) {
                if k == 3 {
                    match n {
                        0..=2 => 3,
                        3..=4 => 6,
                        5..=31 => 9,
                        32..=64 => 54,
                        _ => 162,
                    }
                } else {
                    n
                }
            } else {
                n
            };
            let a = pmatrix(&mut w, 0, m, n);
            let wit = w.scs(3, n);
            let aux = Crs { g: w.pts(n), h: w.pts(n), q: w.pt() };
            lmpa_inst(p, &a, &wit, k, &aux)
        }
    }
}
