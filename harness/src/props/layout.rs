//! Mapping, commitments, matrix arithmetic: checked against reference functions over all shapes.
use super::complete::subsets;
use super::Tier;
use crate::engine::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use mcrt::mix;
use qesa::lmpa::simple_zk::pedersen_commit;
use qesa::matrix::*;
use qesa::verif::{copy, inner_product, vandemonde_challenge};
use std::collections::BTreeSet;

// ---- K03 ---------------------------------------------------------------------------

/// Does what the library returned satisfy the property for this layout?
fn judge_mapping(n: usize, ws: usize, sets: &[BTreeSet<u16>]) -> V {
    let total: usize = sets.iter().map(|s| s.len()).sum();
    let used: BTreeSet<u16> = sets.iter().flatten().cloned().collect();
    let free = (ws..n.saturating_sub(2)).filter(|i| !used.contains(&(*i as u16))).count();
    if total == 0 {
        // nothing to place: returning an empty mapping and refusing are both fine
        return match guarded(|| copy::compute_mapping(n, ws, sets)) {
            Ok(m) if !m.verif_parts().1.is_empty() => V::Fail("a message out of nowhere".into()),
            _ => V::Ok,
        };
    }
    let must_refuse = used.iter().any(|i| *i == 0 || *i as usize + 2 >= n) || free < total;
    let m = match guarded(|| copy::compute_mapping(n, ws, sets)) {
        // refusing what does not fit into sixteen bits is fine
        Err(_) if must_refuse || n > 65535 || sets.len() > 65535 => return V::Ok,
        Err(e) => return V::Fail(format!("n={} witness={} sets={:?}: refused although an assignment exists ({})", n, ws, sets, e)),
        Ok(_) if must_refuse => {
            return V::Fail(format!("n={} witness={} sets={:?}: mapping returned although none exists or a reserved position is used", n, ws, sets))
        }
        Ok(m) => m.verif_parts(),
    };
    let fail = |s: &str| V::Fail(format!("n={} witness={} sets={:?}: {} in {:?}", n, ws, sets, s, m));
    let (nc, msgs, uniq, last) = &m;
    if *nc != sets.len() {
        return fail("wrong number of commitments");
    }
    if msgs.len() != total {
        return fail("wrong number of messages");
    }
    let expect: Vec<(u16, u16)> = sets.iter().enumerate().flat_map(|(c, s)| s.iter().map(move |i| (*i, c as u16))).collect();
    if msgs.iter().map(|m| (m.1, m.2)).collect::<Vec<_>>() != expect {
        return fail("wrong provenance");
    }
    // numbers of the messages (what they are numbered from is not the caller's business)
    if msgs.windows(2).any(|w| w[1].0 != w[0].0.wrapping_add(1)) {
        return fail("messages are not numbered in order");
    }
    let slots: BTreeSet<u16> = msgs.iter().map(|m| m.3).collect();
    if slots.len() != total {
        return fail("two messages share a slot");
    }
    for s in &slots {
        if (*s as usize) < ws || *s as usize >= n - 2 || used.contains(s) {
            return fail(&format!("slot {} is not free", s));
        }
    }
    if *last != msgs.last().unwrap().3 && *last != *slots.iter().max().unwrap() {
        return fail("wrong last slot");
    }
    if *uniq != used {
        return fail("wrong set of used indices");
    }
    V::Ok
}

pub fn k03(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        return o;
    }
    // every family of index sets (the reserved ones included) up to the stated number of sets, every witness size
    let spaces: Vec<(usize, usize, usize)> = t.pick(
        vec![(8, 2, 2)],
        // (n, largest set, number of sets)
        vec![(4, 2, 3), (8, 3, 3), (8, 6, 2), (16, 2, 2)],
        vec![(4, 2, 5), (8, 6, 3), (8, 2, 4), (16, 3, 2), (16, 2, 3), (32, 2, 2)],
    );
    for (n, size, count) in spaces {
        let idx: Vec<u16> = (0..n as u16).collect();
        let subs = subsets(&idx, size, 0);
        for ws in 1..=(n - 2) {
            let subs = subs.clone();
            o.push(
                Scenario::new(format!("K03/all/n{}size{}count{}/ws{}", n, size, count, ws), move || {
                    let mut sets = vec![];
                    for _ in 0..count {
                        let b = inp(subs.len() as u32 + 1);
                        if b == 0 {
                            break;
                        }
                        sets.push(subs[b as usize - 1].clone());
                    }
                    judge_mapping(n, ws, &sets)
                })
                .policy(fixed()),
            );
        }
    }
    // sizes where counters or narrow integers would overflow
    let wide = t.pick(vec![64usize], vec![64, 256, 512, 1024, 32768], vec![64, 128, 256, 512, 1024, 4096, 32768]);
    for n in wide {
        o.push(
            Scenario::new(format!("K03/wide/n{}", n), move || {
                let top = (n - 3) as u16;
                let ws = [1usize, 2, 5, n / 2, n - 4, n - 3, n - 2][inp(7) as usize];
                let nc = [1usize, 2, 255, 256, 257, 300][inp(6) as usize];
                let shape = inp(9);
                let half = (n / 2) as u16;
                let sets: Vec<BTreeSet<u16>> = (0..nc)
                    .map(|c| match shape {
                        0 => [1u16].into(),
                        1 => [top].into(),
                        2 => [top - (c as u16 % top.min(20))].into(),
                        3 => (half..half + 8.min(n as u16 / 8)).collect(),
                        4 => [1u16, half, top].into(),
                        // reserved places, in one commitment or the last one
                        6 => [if c == nc - 1 { top + 1 } else { 1u16 }].into(),
                        7 => [if c == 0 { top + 2 } else { 1u16 }].into(),
                        5 => [(1 + c as u16 * 2) % top + 1].into(),
                        _ => ((top / 3)..top / 3 + 30.min(top / 3)).collect(),
                    })
                    .collect();
                judge_mapping(n, ws, &sets)
            })
            .policy(fixed()),
        );
    }
    // sizes past sixteen bits: positions and numbers of commitments must not wrap around
    o.push(
        Scenario::new("K03/narrow", move || {
            let n = [8usize, 32, 65535, 65536, 65537, 65544, 65568, 131080][inp(8) as usize];
            let top = n - 3;
            let ws = [1usize, 4, top - 1, top, 65535, 65536, 65537, 65540, 65536 + 7, 131072, 131075][inp(11) as usize];
            let index = [1u16, 3, 4, 5, 6, 29, 30, 65533, 65535][inp(9) as usize];
            let pad = [0usize, 1, 255, 256, 65534, 65535, 65536, 65537, 131072][inp(9) as usize];
            let both = inp(2) == 1;
            // empty commitments, then one or two messages
            let mut sets: Vec<BTreeSet<u16>> = vec![BTreeSet::new(); pad];
            sets.push([index].into());
            if both {
                sets.insert(0, [index].into());
            }
            judge_mapping(n, ws, &sets)
        })
        .policy(fixed()),
    );
    // exactly full and one too many
    o.push(
        Scenario::new("K03/boundary", move || {
            let n = [8usize, 16, 32][inp(3) as usize];
            let ws = 1 + inp(n as u32 - 3) as usize;
            let msgs = inp(n as u32) as usize + 1;
            let index = 1 + inp(n as u32 - 1) as u16;
            let sets: Vec<BTreeSet<u16>> = (0..msgs).map(|_| [index].into()).collect();
            judge_mapping(n, ws, &sets)
        })
        .policy(fixed()),
    );
    o
}

// ---- K04 ---------------------------------------------------------------------------

pub fn k04(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    let vals = |k: u32, n: usize| pattern(k, n, 55);
    if SMALL {
        // formal generators: all index sets, all messages over F_3
        for n in t.pick(vec![], vec![4usize, 6], vec![4, 6, 8]) {
            o.push(
                Scenario::new(format!("K04/formal/n{}", n), move || {
                    let mut wd = World::new(1);
                    let g = wd.pts(n);
                    let h = wd.pt();
                    let bits = inp(1 << (n - 2));
                    let idx: BTreeSet<u16> = (0..n as u16 - 2).filter(|i| bits >> i & 1 == 1).map(|i| i + 1).collect();
                    let msg: Vec<Scalar> = (0..idx.len()).map(|_| fe(inp(3) as u64)).collect();
                    let r = fe(inp(3) as u64);
                    if copy::commit(&g, &idx, &msg, &r) != commit_ref(&g, &idx, &msg, &r) {
                        return V::Fail(format!("commit under {:?} of {:?}", idx, msg));
                    }
                    let gl: Vec<RistrettoPoint> = idx.iter().map(|i| g[*i as usize]).collect();
                    if pedersen_commit(&h, &gl, &msg, &r) != lin(&msg, &gl) + h * r {
                        return V::Fail(format!("pedersen_commit of {:?}", msg));
                    }
                    V::Ok
                })
                .field(3, n + 1),
            );
        }
        return o;
    }
    let n = 16usize;
    let subs = subsets(&(0..n as u16 - 1).collect::<Vec<_>>(), t.pick(2, 4, 6), 0);
    o.push(
        Scenario::new("K04/commit/subsets", move || {
            let idx = &subs[inp(subs.len() as u32) as usize];
            let mp = inp(t.pick(2, PATTERNS, PATTERNS));
            let r = [gsc(5), Scalar::zero(), Scalar::one()][inp(t.pick(2, 3, 3)) as usize];
            let mut wd = World::new(2);
            let g = wd.pts(n);
            let m = pattern(mp, idx.len().max(1), 55)[..idx.len()].to_vec();
            if copy::commit(&g, idx, &m, &r) == commit_ref(&g, idx, &m, &r) {
                V::Ok
            } else {
                V::Fail(format!("commit under {:?} of pattern {}", idx, mp))
            }
        })
        .policy(fixed()),
    );
    o.push(
        Scenario::new("K04/commit/wide", move || {
            let n = [32usize, 256, 512, 1024][inp(t.pick(1, 4, 4)) as usize];
            let shape = inp(5);
            let top = (n - 2) as u16;
            let idx: BTreeSet<u16> = match shape {
                0 => (0..=top).collect(),
                1 => (1..=top).step_by(2).collect(),
                2 => [top, 0, top / 2].into(),
                3 => [top].into(),
                _ => (top - 20..=top).collect(),
            };
            let mut wd = World::new(2);
            let g = wd.pts(n);
            let m = vals(inp(t.pick(2, PATTERNS, PATTERNS)), idx.len());
            let r = [gsc(5), Scalar::zero()][inp(2) as usize];
            if copy::commit(&g, &idx, &m, &r) == commit_ref(&g, &idx, &m, &r) {
                V::Ok
            } else {
                V::Fail(format!("commit, {} generators, shape {}", n, shape))
            }
        })
        .policy(fixed()),
    );
    // wrong number of messages: refused, never a commitment to something else
    o.push(
        Scenario::new("K04/commit/mismatch", move || {
            let k = inp(5) as usize;
            let m = inp(6) as usize;
            if k == m {
                return V::Skip;
            }
            let mut wd = World::new(2);
            let g = wd.pts(16);
            let idx: BTreeSet<u16> = (1..=k as u16).collect();
            let msg = (0..m).map(|i| gsc(i as u64)).collect::<Vec<_>>();
            match guarded(|| copy::commit(&g, &idx, &msg, &gsc(9))) {
                Err(_) => V::Ok,
                Ok(_) => V::Fail(format!("{} messages for {} indices: a message or generator was dropped", m, k)),
            }
        })
        .policy(fixed()),
    );
    o.push(
        Scenario::new("K04/pedersen", move || {
            let k = inp(t.pick(4, 28, 88));
            let n = if !BIG || k < t.pick(4, 20, 80) { k as usize + 1 } else { [32usize, 63, 64, 65, 128, 255, 256, 300][(k % 8) as usize] };
            let mp = inp(t.pick(2, PATTERNS, PATTERNS));
            let r = [gsc(5), Scalar::zero(), Scalar::one(), -Scalar::one()][inp(t.pick(2, 4, 4)) as usize];
            let mut wd = World::new(3);
            let g = wd.pts(n);
            let h = if inp(2) == 0 { wd.pt() } else { g[0] };
            let m = vals(mp, n);
            if pedersen_commit(&h, &g, &m, &r) == lin(&m, &g) + h * r {
                V::Ok
            } else {
                V::Fail(format!("pedersen_commit, {} messages, pattern {}", n, mp))
            }
        })
        .policy(fixed()),
    );
    o
}

// ---- M01 ---------------------------------------------------------------------------

fn mat(m: usize, n: usize, f: &dyn Fn(usize, usize) -> Scalar) -> Vec<Vec<Scalar>> {
    (0..m).map(|i| (0..n).map(|j| f(i, j)).collect()).collect()
}
fn pm(a: &[Vec<Scalar>]) -> Vec<Vec<RistrettoPoint>> {
    a.iter().map(|r| r.iter().map(|x| base_mul(x)).collect()).collect()
}
fn im(a: &[Vec<i64>]) -> Vec<Vec<i64>> {
    a.to_vec()
}
/// all operations on the given matrices / vector / factor
fn ops_agree(a: &Vec<Vec<Scalar>>, b: &Vec<Vec<Scalar>>, v: &Vec<Scalar>, x: Scalar) -> V {
    let (m, n) = (a.len(), a[0].len());
    macro_rules! eq {
        ($name:expr, $l:expr, $r:expr) => {
            match guarded(|| $l) {
                Ok(l) => {
                    if l != $r {
                        return V::Fail(format!("{} differs from its definition for shape {}x{}", $name, m, n));
                    }
                }
                Err(e) => return V::Fail(format!("{} aborts for shape {}x{}: {}", $name, m, n, e)),
            }
        };
    }
    let id = RistrettoPoint::identity();
    let (pa, pb) = (pm(a), pm(b));
    let scale = mat(m, n, &|i, j| a[i][j] * x);
    eq!("matrix_scalar_mul", matrix_scalar_mul(a, &x), scale);
    eq!("matrix_scalar_mul_general", matrix_scalar_mul_general(a, &x), scale);
    eq!("matrixpoint_scalar_mul", matrixpoint_scalar_mul(&pa, &x), pm(&scale));
    let prod: Vec<Scalar> = a.iter().map(|r| ip(r, v)).collect();
    eq!("matrix_vector_mul", matrix_vector_mul(a, v), prod);
    eq!("matrix_vector_mul_general", matrix_vector_mul_general(a, v, Scalar::zero()), prod);
    let pprod: Vec<RistrettoPoint> = pa.iter().map(|r| lin(v, r)).collect();
    eq!("matrixpoint_vector_mul", matrixpoint_vector_mul(&pa, v), pprod);
    let sum = mat(m, n, &|i, j| a[i][j] + b[i][j]);
    let dif = mat(m, n, &|i, j| a[i][j] - b[i][j]);
    eq!("matrix_matrix_add", matrix_matrix_add(a, b), sum);
    eq!("matrix_matrix_add_general", matrix_matrix_add_general(a, b), sum);
    eq!("matrixpoint_matrix_add", matrixpoint_matrix_add(&pa, &pb), pm(&sum));
    for i in 0..m {
        eq!("row_row_add", row_row_add(&a[i], &b[i]), sum[i]);
        eq!("row_row_sub", row_row_sub(&a[i], &b[i]), dif[i]);
        eq!("row_row_add_general", row_row_add_general(&a[i], &b[i]), sum[i]);
        eq!("rowpoint_rowpoint_add", rowpoint_rowpoint_add(&pa[i], &pb[i]), pm(&sum)[i]);
        eq!("vector_scalar_mul_general", vector_scalar_mul_general(&a[i], &x), scale[i]);
        eq!("vectorpoint_scalar_mul", vectorpoint_scalar_mul(&pa[i], &x), pm(&scale)[i]);
        eq!("inner_product", inner_product(&a[i], v), ip(&a[i], v));
    }
    let tr = mat(n, m, &|i, j| a[j][i]);
    eq!("matrix_transpose", matrix_transpose(a), tr);
    eq!("matrixpoint_transpose", matrixpoint_transpose(&pa), pm(&tr));
    for c in 1..=n {
        if n % c == 0 {
            let split: Vec<Vec<Vec<Scalar>>> =
                (0..n / c).map(|k| a.iter().map(|r| r[k * c..(k + 1) * c].to_vec()).collect()).collect();
            eq!("matrix_split", matrix_split(a, c), split);
            let psplit: Vec<Vec<Vec<RistrettoPoint>>> = split.iter().map(|b| pm(b)).collect();
            eq!("matrix_split (points)", matrix_split(&pa, c), psplit);
        }
    }
    let _ = id;
    V::Ok
}
fn powers_agree(x: Scalar, n: usize) -> V {
    let mut p = vec![];
    let mut c = Scalar::one();
    for _ in 0..n {
        p.push(c);
        c = c * x;
    }
    let from1: Vec<Scalar> = p.iter().map(|y| y * x).collect();
    for (name, got, want) in [
        ("vandemonde_challenge", guarded(|| vandemonde_challenge(x, n)), &from1),
        ("vandemonde_vector", guarded(|| vandemonde_vector(x, n)), &p),
        ("vandemonde_vector_general", guarded(|| vandemonde_vector_general(x, n, Scalar::one())), &p),
    ] {
        match got {
            Ok(g) if g == *want => (),
            Ok(_) => return V::Fail(format!("{} of length {} differs from the powers", name, n)),
            Err(e) => return V::Fail(format!("{} of length {} aborts: {}", name, n, e)),
        }
    }
    V::Ok
}
fn batch_agree(ms: &[Vec<Vec<Scalar>>], ch: &[Scalar]) -> V {
    let mut bm = if ms.len() % 2 == 1 { BlockMatrix::with(ms[0].clone()) } else { BlockMatrix::new() };
    for m in ms.iter().skip(ms.len() % 2) {
        bm.push(m.clone());
    }
    let (r, c) = (ms[0].len(), ms[0][0].len());
    match guarded(|| bm.block_matrix_batch(ch)) {
        Err(e) => {
            if ch.len() < ms.len() {
                V::Ok
            } else {
                V::Fail(format!("batching {} matrices with {} challenges aborts: {}", ms.len(), ch.len(), e))
            }
        }
        Ok(got) => {
            if ch.len() < ms.len() {
                return V::Fail(format!("batching {} matrices with {} challenges leaves some out", ms.len(), ch.len()));
            }
            let want = mat(r, c, &|i, j| {
                let mut s = Scalar::zero();
                for k in 0..ms.len() {
                    s = s + ms[k][i][j] * ch[k];
                }
                s
            });
            if got == want {
                V::Ok
            } else {
                V::Fail(format!("batching {} matrices of shape {}x{} with {} challenges differs from the sum", ms.len(), r, c, ch.len()))
            }
        }
    }
}

fn entry(k: u32, tag: u64) -> Scalar {
    match k {
        0 => gsc(tag),
        1 => Scalar::zero(),
        2 => Scalar::one(),
        3 => -Scalar::one(),
        4 => {
            if tag % 3 == 0 {
                gsc(tag)
            } else {
                Scalar::zero()
            }
        }
        _ => fe(tag % 4),
    }
}

/// an arbitrary matrix, and ones that look like something simpler where one may look
fn shaped(m: usize, n: usize, kind: u32, shape: u32) -> Vec<Vec<Scalar>> {
    mat(m, n, &|i, j| {
        let (lo, hi) = (i.min(j), i.max(j));
        match shape {
            0 => entry(kind, (i * 1000 + j) as u64),
            // symmetric in the first row and column
            1 if i == 0 || j == 0 => entry(kind, hi as u64),
            // symmetric but for the last row
            2 if i + 1 < m => entry(kind, (lo * 1000 + hi) as u64),
            // symmetric
            3 => entry(kind, (lo * 1000 + hi) as u64),
            // equal rows but for the last
            4 if i + 1 < m => entry(kind, j as u64),
            // first row and column zero
            5 if i == 0 || j == 0 => Scalar::zero(),
            _ => entry(kind, (i * 1000 + j) as u64),
        }
    })
}

pub fn m01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        // every entry over F_3 (F_2 is not a field of odd order, so three is the smallest)
        for (m, n) in t.pick(vec![], vec![(1usize, 1usize), (1, 2), (2, 1), (2, 2)], vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]) {
            o.push(
                Scenario::new(format!("M01/all/{}x{}", m, n), move || {
                    let a: Vec<Vec<Scalar>> = (0..m).map(|_| (0..n).map(|_| fe(inp(3) as u64)).collect()).collect();
                    let b: Vec<Vec<Scalar>> = (0..m).map(|_| (0..n).map(|_| fe(inp(3) as u64)).collect()).collect();
                    let v: Vec<Scalar> = (0..n).map(|_| fe(inp(3) as u64)).collect();
                    ops_agree(&a, &b, &v, fe(inp(3) as u64))
                })
                .field(3, 1),
            );
        }
        o.push(
            Scenario::new("M01/all/powers", move || {
                let x = fe(inp(13) as u64);
                powers_agree(x, inp(20) as usize + 1)
            })
            .field(13, 1),
        );
        o.push(
            Scenario::new("M01/all/batch", move || {
                let k = inp(3) as usize + 1;
                let c = inp(4) as usize + 1;
                let ms: Vec<_> = (0..k).map(|_| vec![vec![fe(inp(3) as u64)]]).collect();
                let ch: Vec<_> = (0..c).map(|_| fe(inp(3) as u64)).collect();
                batch_agree(&ms, &ch)
            })
            .field(3, 1),
        );
        return o;
    }
    let d = t.pick(3u32, 7, 12);
    o.push(
        Scenario::new("M01/shapes", move || {
            let (m, n) = (inp(d) as usize + 1, inp(d) as usize + 1);
            let (ka, kb, kv) = (inp(t.pick(2, 6, 6)), inp(t.pick(2, 4, 6)), inp(t.pick(1, 5, 6)));
            let x = entry(inp(t.pick(1, 4, 4)), 999);
            let a = shaped(m, n, ka, inp(t.pick(1, 6, 6)));
            let b = mat(m, n, &|i, j| entry(kb, (7000 + i * 100 + j) as u64));
            let v: Vec<Scalar> = (0..n).map(|j| entry(kv, 90000 + j as u64)).collect();
            ops_agree(&a, &b, &v, x)
        })
        .policy(fixed()),
    );
    if t != Tier::Conf {
        o.push(
            Scenario::new("M01/large", move || {
                let (m, n) = [(1usize, 300usize), (300, 1), (64, 64), (33, 65), (2, 128), (128, 2)][inp(6) as usize];
                let ka = inp(2) * 4;
                let a = shaped(m, n, ka, inp(6));
                let b = mat(m, n, &|i, j| entry(0, (7000000 + i * 1000 + j) as u64));
                let v: Vec<Scalar> = (0..n).map(|j| entry(0, 90000000 + j as u64)).collect();
                ops_agree(&a, &b, &v, gsc(3))
            })
            .policy(fixed()),
        );
        // the same over plain integers (the generic forms)
        o.push(
            Scenario::new("M01/integers", move || {
                let (m, n) = (inp(d) as usize + 1, inp(d) as usize + 1);
                let e = |i: usize, j: usize, s: u64| (mix(s ^ (i * 64 + j) as u64) % 201) as i64 - 100;
                let a: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| e(i, j, 1)).collect()).collect();
                let b: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| e(i, j, 2)).collect()).collect();
                let v: Vec<i64> = (0..n).map(|j| e(0, j, 3)).collect();
                let x = [0i64, 1, -1, 7][inp(4) as usize];
                let sum: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| a[i][j] + b[i][j]).collect()).collect();
                let sc: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| a[i][j] * x).collect()).collect();
                let prod: Vec<i64> = (0..m).map(|i| (0..n).map(|j| a[i][j] * v[j]).sum()).collect();
                let pw: Vec<i64> = (0..n as u32).map(|k| x.pow(k)).collect();
                let ok = matrix_matrix_add_general(&a, &b) == sum
                    && row_row_add_general(&a[0], &b[0]) == sum[0]
                    && matrix_scalar_mul_general(&a, &x) == sc
                    && vector_scalar_mul_general(&a[0], &x) == sc[0]
                    && matrix_vector_mul_general(&a, &v, 0i64) == prod
                    && vandemonde_vector_general(x, n, 1i64) == pw
                    && (1..=n).filter(|c| n % c == 0).all(|c| {
                        matrix_split(&im(&a), c)
                            == (0..n / c).map(|k| a.iter().map(|r| r[k * c..(k + 1) * c].to_vec()).collect()).collect::<Vec<Vec<Vec<i64>>>>()
                    });
                if ok {
                    V::Ok
                } else {
                    V::Fail(format!("a generic operation over integers differs for shape {}x{}", m, n))
                }
            })
            .policy(fixed()),
        );
    }
    o.push(
        Scenario::new("M01/powers", move || {
            let n = inp(t.pick(10, 130, 600)) as usize + 1;
            powers_agree(entry(inp(6), 1001), n)
        })
        .policy(fixed()),
    );
    if t != Tier::Conf {
        o.push(
            Scenario::new("M01/powers/long", move || {
                let n = [255usize, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 2049, 4097, 8200, 65600]
                    [inp(t.pick(1, 14, 16)) as usize];
                powers_agree(entry(inp(6), 1001), n)
            })
            .policy(fixed()),
        );
        // long rows whose partial sums, differences and doubles are among the entries
        o.push(
            Scenario::new("M01/sums", move || {
                let m = inp(2) as usize + 1;
                let n = inp(t.pick(4, 24, 40)) as usize + 2;
                let row = |kind: u32, seed: u64| -> Vec<Scalar> {
                    let x = entry(0, seed);
                    let mut v: Vec<Scalar> = vec![];
                    for j in 0..n {
                        let sum: Scalar = v.iter().sum();
                        v.push(match (kind, j) {
                            (_, 0) => x,
                            // each entry is the sum of those before / the opposite of it / makes it equal to the next
                            (0, _) => sum,
                            (1, _) => -sum,
                            (2, _) => if j % 2 == 1 { -v[j - 1] } else { x },
                            (3, _) => x,
                            (4, _) => if j % 3 == 2 { sum } else { entry(0, seed + j as u64) },
                            (5, _) => if j % 3 == 2 { -sum } else { entry(0, seed + j as u64) },
                            (6, _) => x * fe(j as u64 + 1),
                            _ => if j + 1 == n { sum } else { entry(0, seed + j as u64) },
                        });
                    }
                    v
                };
                let (ka, kb) = (inp(8), inp(t.pick(1, 3, 8)));
                let a: Vec<Vec<Scalar>> = (0..m).map(|i| row(ka, 50 + 100 * i as u64)).collect();
                let b: Vec<Vec<Scalar>> = (0..m).map(|i| row(kb, 50 + 100 * i as u64)).collect();
                let v = match inp(2) {
                    0 => vec![Scalar::one(); n],
                    _ => row(ka, 77),
                };
                ops_agree(&a, &b, &v, -Scalar::one())
            })
            .policy(fixed()),
        );
    }
    o.push(
        Scenario::new("M01/vandemonde_matrix", move || {
            let (m, n) = (inp(5) as usize + 1, inp(9) as usize + 1);
            let a = vandemonde_matrix(m, n);
            if a.len() != m || a.iter().any(|r| r.len() != n) {
                return V::Fail("vandemonde_matrix has the wrong shape".into());
            }
            for r in &a {
                let mut c = Scalar::one();
                for x in r {
                    if *x != c {
                        return V::Fail(format!("vandemonde_matrix {}x{} is not made of powers", m, n));
                    }
                    if n > 1 {
                        c = c * r[1];
                    }
                }
            }
            V::Ok
        })
        .policy(fixed()),
    );
    o.push(
        Scenario::new("M01/batch", move || {
            let k = inp(t.pick(4, 12, 40)) as usize + 1;
            let c = inp(t.pick(5, 14, 44)) as usize + 1;
            let (r, s) = [(1usize, 1usize), (2, 2), (6, 6), (2, 5), (5, 2), (14, 14)][inp(t.pick(3, 6, 6)) as usize];
            let ka = inp(t.pick(1, 3, 5)) * 2;
            let ms: Vec<_> = (0..k).map(|b| mat(r, s, &|i, j| entry(ka, (b * 10000 + i * 100 + j) as u64))).collect();
            let ch: Vec<_> = (0..c).map(|i| gsc(4444 + i as u64)).collect();
            batch_agree(&ms, &ch)
        })
        .policy(fixed()),
    );
    o.push(
        Scenario::new("M01/batch/many", move || {
            let counts = [17usize, 31, 32, 33, 64, 65, 70, 128, 129, 256, 257, 300];
            let k = counts[inp(t.pick(2, 12, 12)) as usize];
            let extra = inp(2) as usize * 3;
            let ms: Vec<_> = (0..k).map(|b| mat(2, 2, &|i, j| entry(0, (b * 10000 + i * 100 + j) as u64))).collect();
            let ch: Vec<_> = (0..k + extra).map(|i| gsc(4444 + i as u64)).collect();
            batch_agree(&ms, &ch)
        })
        .policy(fixed()),
    );
    o
}
