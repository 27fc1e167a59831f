//! Malformed proofs, and silence.
use super::Tier;
use crate::conf;
use crate::engine::*;
use crate::node::Node::{self, *};
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::scalar::Scalar;
use mcrt::Mode;

/// shapes a list can be put into
const LIST_OPS: u32 = 10;
fn reshape(l: &[Node], op: u32) -> Option<Node> {
    let mut m = l.to_vec();
    let filler = match l.last() {
        Some(x) => x.clone(),
        None => return None,
    };
    match op {
        0 => {
            m.pop();
        }
        1 => m.clear(),
        2 => m.push(filler),
        3 => {
            m.remove(0);
        }
        4 => m.extend(std::iter::repeat(filler).take(70)),
        5 => m.extend(std::iter::repeat(filler).take(130)),
        6 => m.insert(0, filler),
        7 => m = [l, l].concat(),
        // empty elements
        8 => {
            if !matches!(filler, L(_)) {
                return None;
            }
            m = vec![L(vec![]); l.len()];
        }
        _ => {
            if !matches!(filler, L(_)) {
                return None;
            }
            m = vec![];
            for _ in 0..3 {
                m.push(L(vec![]));
            }
        }
    }
    if m == l {
        None
    } else {
        Some(L(m))
    }
}
/// lists of a proof that have a variable length as far as the types say
fn lists(pf: &Node, p: Proto) -> Vec<Vec<usize>> {
    pf.lists().into_iter().filter(|q| variable(p, q)).collect()
}
fn variable(p: Proto, q: &[usize]) -> bool {
    match p {
        Ipa => q.len() == 1,
        Alm => q.len() >= 1 && q[0] == 1 && variable(Ipa, &q[1..]),
        Inner | Zk => q.len() >= 1 && q[0] == 2 && variable(Alm, &q[1..]),
        Proto::Copy => q.len() >= 1 && q[0] == 1 && variable(Inner, &q[1..]),
        Lmpa | LmpaK => !q.is_empty(),
        Simple => q == [0] || q.len() > 1 && q[0] == 1 && variable(Lmpa, &q[1..]),
        SimpleK => q == [0] || q.len() > 1 && q[0] == 1 && variable(LmpaK, &q[1..]),
    }
}
/// of the same type again after a list has lost its elements (one dimension stays recoverable)
fn judge(p: Proto, st: &Node, pf: &Node, what: &str) -> V {
    match guarded(|| verify(p, &mut transcript(0), st, pf)) {
        Ok(false) => V::Ok,
        Ok(true) => V::Fail(format!("{:?} accepted a proof with {}", p, what)),
        Err(e) => V::Fail(format!("{:?} aborted on a proof with {}: {}", p, what, e)),
    }
}

pub fn t01(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if SMALL {
        return o;
    }
    for proto in ALL {
        for n in t.pick(vec![1usize, 4, 8], vec![1, 2, 4, 8, 16, 64], vec![1, 2, 4, 8, 16, 32, 64, 128]) {
            if n > 32 && !BIG {
                continue;
            }
            if proto == Alm && n < 2 || matches!(proto, Inner | Zk) && n < 4 || proto == Proto::Copy && n < 8 {
                continue;
            }
            for v in 0..t.pick(1, if n > 8 { 1 } else { 3 }, 6) {
                let pf = move || {
                    let i = standard(proto, n, v);
                    let pf = prove(proto, &mut transcript(0), &i.st, &i.wit);
                    (i, pf)
                };
                o.push(
                    Scenario::new(format!("T01/shape/{:?}/n{}v{}", proto, n, v), move || {
                        let (i, pf) = pf();
                        let ls = lists(&pf, proto);
                        if ls.is_empty() {
                            return V::Skip;
                        }
                        let l = &ls[tam(ls.len() as u32) as usize];
                        let op = tam(LIST_OPS);
                        match reshape(pf.get(l).list(), op) {
                            Some(x) => judge(proto, &i.st, &pf.with(l, x), &format!("list {:?} changed (operation {})", l, op)),
                            None => V::Skip,
                        }
                    })
                    .policy(fixed()),
                );
                o.push(
                    Scenario::new(format!("T01/encoding/{:?}/n{}v{}", proto, n, v), move || {
                        let (i, pf) = pf();
                        let ls: Vec<_> = pf.leaves().into_iter().filter(|q| matches!(pf.get(q), C(_))).collect();
                        if ls.is_empty() {
                            return V::Skip;
                        }
                        let a = tam(ls.len() as u32) as usize;
                        let b = tam(ls.len() as u32) as usize;
                        let k = undecodable(tam(3));
                        if b < a || k.decompress().is_some() {
                            return V::Skip;
                        }
                        judge(proto, &i.st, &pf.with(&ls[a], C(k)).with(&ls[b], C(k)), &format!("undecodable points {:?} {:?}", ls[a], ls[b]))
                    })
                    .policy(fixed()),
                );
                // special values everywhere of one kind: no abort (nor acceptance)
                o.push(
                    Scenario::new(format!("T01/values/{:?}/n{}v{}", proto, n, v), move || {
                        let (i, pf) = pf();
                        let op = tam(PT_OPS.max(SC_OPS));
                        let which = tam(3);
                        let g = gens(proto, &i.st);
                        let all = all_leaves(&pf);
                        let mut alt = pf.clone();
                        for l in pf.leaves() {
                            let leaf = pf.get(&l);
                            if which == 1 && !matches!(leaf, S(_)) || which == 2 && matches!(leaf, S(_)) || op >= op_count(leaf) {
                                continue;
                            }
                            if let Some(x) = perturb(leaf, op, &g, &all) {
                                alt.set(&l, x);
                            }
                        }
                        if alt == pf {
                            return V::Skip;
                        }
                        judge(proto, &i.st, &alt, &format!("special values ({} {})", op, which))
                    })
                    .policy(fixed()),
                );
                // a proof of another size
                o.push(
                    Scenario::new(format!("T01/size/{:?}/n{}v{}", proto, n, v), move || {
                        let (i, pf) = pf();
                        let m = [1usize, 2, 4, 8, 16][inp(5) as usize];
                        if proto == Alm && m < 2 || matches!(proto, Inner | Zk) && m < 4 || proto == Proto::Copy && m < 8 || m == n {
                            return V::Skip;
                        }
                        let j = standard(proto, m, v);
                        let other = prove(proto, &mut transcript(0), &j.st, &j.wit);
                        if other == pf {
                            return V::Skip;
                        }
                        judge(proto, &i.st, &other, &format!("the size of one for {} (not {})", m, n))
                    })
                    .policy(fixed()),
                );
                if t == Tier::Conf || n > 4 && t != Tier::Thorough && proto != Proto::Copy || n > 8 {
                    continue;
                }
                o.push(
                    Scenario::new(format!("T01/pair/{:?}/n{}v{}", proto, n, v), move || {
                        let (i, pf) = pf();
                        let ls = lists(&pf, proto);
                        if ls.is_empty() {
                            return V::Skip;
                        }
                        let (a, b) = (tam(ls.len() as u32) as usize, tam(ls.len() as u32) as usize);
                        if b <= a {
                            return V::Skip;
                        }
                        let (x, y) = (tam(8), tam(8));
                        // the later (inner or following) list first: paths stay valid
                        let m = match reshape(pf.get(&ls[b]).list(), y) {
                            Some(m) => pf.with(&ls[b], m),
                            None => return V::Skip,
                        };
                        let m = match reshape(m.get(&ls[a]).list(), x) {
                            Some(r) => m.with(&ls[a], r),
                            None => return V::Skip,
                        };
                        if m == pf {
                            return V::Skip;
                        }
                        judge(proto, &i.st, &m, &format!("lists {:?} and {:?} changed ({} {})", ls[a], ls[b], x, y))
                    })
                    .policy(fixed()),
                );
                // a list changed and a point undecodable
                o.push(
                    Scenario::new(format!("T01/both/{:?}/n{}v{}", proto, n, v), move || {
                        let (i, pf) = pf();
                        let ls = lists(&pf, proto);
                        let cs: Vec<_> = pf.leaves().into_iter().filter(|q| matches!(pf.get(q), C(_))).collect();
                        if ls.is_empty() || cs.is_empty() {
                            return V::Skip;
                        }
                        let a = tam(ls.len() as u32) as usize;
                        let b = tam(cs.len() as u32) as usize;
                        let m = pf.with(&cs[b], C(undecodable(0)));
                        let op = tam(8);
                        match reshape(m.get(&ls[a]).list(), op) {
                            Some(x) => judge(proto, &i.st, &m.with(&ls[a], x), &format!("list {:?} changed ({}) and an undecodable point {:?}", ls[a], op, cs[b])),
                            None => V::Skip,
                        }
                    })
                    .policy(fixed()),
                );
            }
        }
    }
    #[cfg(feature = "real")]
    for proto in ALL {
        // scalars outside the canonical range
        o.push(
            Scenario::new(format!("T01/unreduced/{:?}", proto), move || {
                let i = standard(proto, 8, 0);
                let pf = prove(proto, &mut transcript(0), &i.st, &i.wit);
                let ls: Vec<_> = pf.leaves().into_iter().filter(|q| matches!(pf.get(q), S(_))).collect();
                let l = &ls[tam(ls.len() as u32) as usize];
                let b = [[0xffu8; 32], [0x7f; 32]][tam(2) as usize];
                judge(proto, &i.st, &pf.with(l, S(Scalar::from_bits(b))), "an unreduced scalar")
            })
            .policy(fixed()),
        );
    }
    o
}

// ---- T02 -----------------------------------------------------------------------------

/// Run this program again and look at what it writes.
fn silent(args: &[String], what: &str) -> V {
    let exe = std::env::current_exe().expect("harness: no path");
    let out = std::process::Command::new(exe).args(args).stdin(std::process::Stdio::null()).output().expect("harness: cannot run");
    if !out.stdout.is_empty() || !out.stderr.is_empty() {
        let show = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(80)]).into_owned();
        return V::Fail(format!(
            "{} writes {} bytes to standard output and {} to standard error: {} {}",
            what,
            out.stdout.len(),
            out.stderr.len(),
            show(&out.stdout),
            show(&out.stderr)
        ));
    }
    if !out.status.success() {
        return V::Fail(format!("harness: {} ended with {:?}", what, out.status));
    }
    V::Ok
}

pub const SWEEP: [&str; 16] =
    ["Q01", "K01", "I01", "L01", "L03", "Q02", "Q03", "K02", "I02", "L02", "L04", "T01", "F02", "Z03", "K04", "M01"];

pub fn t02(t: Tier) -> Vec<Scenario> {
    let mut o = vec![];
    if REAL {
        for (k, name) in conf::quiet_items(t).into_iter().enumerate() {
            let n2 = name.clone();
            o.push(
                Scenario::new(format!("T02/real/{}", name), move || silent(&["quiet".into(), k.to_string(), format!("{:?}", t).to_lowercase()], &n2)).policy(fixed()),
            );
        }
        return o;
    }
    if MIXED {
        return o;
    }
    if BIG && t != Tier::Conf {
        o.push(Scenario::new("T02/large", || silent(&["quiet-large".into()], "proving and verifying at sizes up to 256")).policy(fixed()));
    }
    // everything the other properties explore, in a child of its own
    for prop in SWEEP {
        o.push(
            Scenario::new(format!("T02/sweep/{}", prop), move || {
                let tmp = std::env::temp_dir().join(format!("mc-quiet-{}-{}.json", std::process::id(), prop));
                let tier = if t == Tier::Thorough { "quick" } else { "conf" };
                let v = silent(
                    &["check".into(), prop.into(), tier.into(), "1".into(), tmp.to_string_lossy().into_owned()],
                    &format!("the exploration of {}", prop),
                );
                let _ = std::fs::remove_file(&tmp);
                v
            })
            .policy(fixed()),
        );
    }
    o
}
