//! Statements, witnesses and proofs as trees of leaves, so that perturbation,
//! tampering and comparison are written once for all protocols.
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    P(RistrettoPoint),
    C(CompressedRistretto),
    S(Scalar),
    U(u64),
    L(Vec<Node>),
}
use Node::*;

pub type Path = Vec<usize>;

/// x (the neutral element) or -x or x + y, leaf by leaf; numbers are kept
fn leafwise(a: &Node, b: &Node, sa: i8, sb: i8) -> Option<Node> {
    let f = |k: i8| match k {
        0 => Scalar::zero(),
        1 => Scalar::one(),
        _ => -Scalar::one(),
    };
    let pt = |p: &RistrettoPoint, k: i8| match k {
        0 => RistrettoPoint::default(),
        1 => *p,
        _ => -p,
    };
    Some(match (a, b) {
        (P(x), P(y)) => P(pt(x, sa) + pt(y, sb)),
        (C(x), C(y)) => C((pt(&x.decompress()?, sa) + pt(&y.decompress()?, sb)).compress()),
        (S(x), S(y)) => S(x * f(sa) + y * f(sb)),
        (U(x), U(y)) if x == y => U(*x),
        (L(x), L(y)) if x.len() == y.len() => L(x.iter().zip(y).map(|(x, y)| leafwise(x, y, sa, sb)).collect::<Option<_>>()?),
        _ => return None,
    })
}
/// Pairs of lists that are easily taken for each other, made from the elements x, y, z:
/// repetitions, neutral elements, signs, equal sums.
pub fn lookalikes(v: &[Node]) -> Vec<(&'static str, Vec<Node>, Vec<Node>)> {
    let mut o = vec![];
    let (x, y) = match v {
        [x, y, ..] => (x, y),
        [x] => {
            if let Some(n) = leafwise(x, x, -1, 0).filter(|n| n != x) {
                o.push(("the sign", vec![x.clone()], vec![n]));
            }
            return o;
        }
        _ => return o,
    };
    let mut put = |name, a: Vec<Option<Node>>, b: Vec<Option<Node>>| {
        if let (Some(a), Some(b)) = (a.into_iter().collect::<Option<Vec<_>>>(), b.into_iter().collect::<Option<Vec<_>>>()) {
            if a != b {
                o.push((name, a, b));
            }
        }
    };
    let (sx, sy) = (Some(x.clone()), Some(y.clone()));
    let (zero, neg) = (leafwise(x, x, 0, 0), leafwise(x, x, -1, 0));
    put("the sign", vec![sx.clone(), sy.clone()], vec![neg.clone(), sy.clone()]);
    put("both signs", vec![sx.clone(), sy.clone()], vec![neg.clone(), leafwise(y, y, -1, 0)]);
    put("the place of a neutral element", vec![zero.clone(), sx.clone()], vec![sx.clone(), zero.clone()]);
    put("one of two equal elements", vec![sx.clone(), sx.clone()], vec![sx.clone(), zero.clone()]);
    put("two equal elements", vec![sx.clone(), sx.clone()], vec![sy.clone(), sy.clone()]);
    put("two opposite elements", vec![sx.clone(), neg.clone()], vec![sy.clone(), leafwise(y, y, -1, 0)]);
    put("neutral elements", vec![zero.clone(), zero.clone()], vec![sx.clone(), neg.clone()]);
    put("how a sum is shared", vec![sx.clone(), sy.clone()], vec![leafwise(x, y, 1, 1), zero.clone()]);
    put("the order", vec![sx.clone(), sy.clone()], vec![sy.clone(), sx.clone()]);
    if let Some(z) = v.get(2) {
        let sz = Some(z.clone());
        put("which of two is repeated", vec![sx.clone(), sx.clone(), sz.clone()], vec![sx.clone(), sz.clone(), sz.clone()]);
        put("what is repeated later", vec![sx.clone(), sy.clone(), sx.clone()], vec![sx.clone(), sy.clone(), sy.clone()]);
        put("the order of three", vec![sx.clone(), sy.clone(), sz.clone()], vec![sz, sx, sy]);
    }
    o
}

impl Node {
    pub fn pts(v: &[RistrettoPoint]) -> Node {
        L(v.iter().map(|p| P(*p)).collect())
    }
    pub fn cps(v: &[CompressedRistretto]) -> Node {
        L(v.iter().map(|p| C(*p)).collect())
    }
    pub fn scs(v: &[Scalar]) -> Node {
        L(v.iter().map(|s| S(*s)).collect())
    }
    pub fn pmat(v: &[Vec<RistrettoPoint>]) -> Node {
        L(v.iter().map(|r| Node::pts(r)).collect())
    }
    pub fn smat(v: &[Vec<Scalar>]) -> Node {
        L(v.iter().map(|r| Node::scs(r)).collect())
    }
    pub fn at(&self, i: usize) -> &Node {
        match self {
            L(v) => &v[i],
            _ => panic!("harness: not a list"),
        }
    }
    pub fn list(&self) -> &Vec<Node> {
        match self {
            L(v) => v,
            _ => panic!("harness: not a list"),
        }
    }
    pub fn p(&self) -> RistrettoPoint {
        match self {
            P(p) => *p,
            _ => panic!("harness: not a point"),
        }
    }
    pub fn c(&self) -> CompressedRistretto {
        match self {
            C(p) => *p,
            _ => panic!("harness: not an encoding"),
        }
    }
    pub fn s(&self) -> Scalar {
        match self {
            S(p) => *p,
            _ => panic!("harness: not a scalar"),
        }
    }
    pub fn u(&self) -> usize {
        match self {
            U(p) => *p as usize,
            _ => panic!("harness: not a number"),
        }
    }
    pub fn vp(&self) -> Vec<RistrettoPoint> {
        self.list().iter().map(|n| n.p()).collect()
    }
    pub fn vc(&self) -> Vec<CompressedRistretto> {
        self.list().iter().map(|n| n.c()).collect()
    }
    pub fn vs(&self) -> Vec<Scalar> {
        self.list().iter().map(|n| n.s()).collect()
    }
    pub fn mp(&self) -> Vec<Vec<RistrettoPoint>> {
        self.list().iter().map(|n| n.vp()).collect()
    }
    pub fn ms(&self) -> Vec<Vec<Scalar>> {
        self.list().iter().map(|n| n.vs()).collect()
    }
    pub fn get(&self, path: &[usize]) -> &Node {
        path.iter().fold(self, |n, i| n.at(*i))
    }
    pub fn get_mut(&mut self, path: &[usize]) -> &mut Node {
        let mut n = self;
        for i in path {
            n = match n {
                L(v) => &mut v[*i],
                _ => panic!("harness: bad path"),
            };
        }
        n
    }
    pub fn set(&mut self, path: &[usize], v: Node) {
        *self.get_mut(path) = v;
    }
    pub fn with(&self, path: &[usize], v: Node) -> Node {
        let mut n = self.clone();
        n.set(path, v);
        n
    }
    fn walk(&self, path: &mut Path, f: &mut dyn FnMut(&Path, &Node)) {
        f(path, self);
        if let L(v) = self {
            for (i, n) in v.iter().enumerate() {
                path.push(i);
                n.walk(path, f);
                path.pop();
            }
        }
    }
    pub fn leaves(&self) -> Vec<Path> {
        let mut o = vec![];
        self.walk(&mut vec![], &mut |p, n| {
            if !matches!(n, L(_)) {
                o.push(p.clone())
            }
        });
        o
    }
    pub fn lists(&self) -> Vec<Path> {
        let mut o = vec![];
        self.walk(&mut vec![], &mut |p, n| {
            if matches!(n, L(_)) {
                o.push(p.clone())
            }
        });
        o
    }
    /// canonical bytes
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.walk(&mut vec![], &mut |_, n| match n {
            P(p) => {
                o.push(1);
                o.extend_from_slice(p.compress().as_bytes())
            }
            C(p) => {
                o.push(2);
                o.extend_from_slice(p.as_bytes())
            }
            S(p) => {
                o.push(3);
                o.extend_from_slice(p.as_bytes())
            }
            U(p) => {
                o.push(4);
                o.extend_from_slice(&p.to_le_bytes())
            }
            L(v) => {
                o.push(5);
                o.extend_from_slice(&(v.len() as u64).to_le_bytes())
            }
        });
        o
    }
    pub fn digest(&self) -> u64 {
        self.bytes().iter().fold(17, |h, b| mcrt::mix(h ^ *b as u64))
    }
}
