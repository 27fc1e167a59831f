//! Binding of the model to the implementation: the same traces are run in the model (over the
//! real group order, elements known by their discrete logarithm) and with the real curve
//! library, and compared in every component.  Also: child runs, and the model's self-test.
use crate::engine::guarded;
use crate::node::Node::{self, *};
use crate::props::layout::{self};
use crate::props::sound::*;
use crate::props::Tier;
use crate::proto::*;
use crate::util::*;
use crate::world::*;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::{Identity, MultiscalarMul, VartimeMultiscalarMul};
use mcrt::mix;
use merlin::Transcript;
use qesa::lmpa::simple_zk::pedersen_commit;
use qesa::matrix::*;
use qesa::transcript::TranscriptProtocol;
use qesa::verif::gramschmidt::{sample_gram_schmidt, sample_gram_schmidt_twice};
use qesa::verif::{copy, inner_product, vandemonde_challenge};
use std::collections::BTreeSet;
use std::io::{BufRead, Write};

pub struct Trace {
    pub id: String,
    pub base: u64,
    pub run: Box<dyn Fn() -> Vec<(String, Node)>>,
}

fn groups(prop: &str) -> Vec<&'static str> {
    let mut g = match prop {
        "Q01" | "Q02" | "Q03" => vec!["Inner", "Zk"],
        "K01" | "K02" => vec!["Copy", "mapping", "commit"],
        "K03" => vec!["mapping"],
        "K04" => vec!["commit"],
        "I01" | "I02" => vec!["Ipa", "Alm"],
        "L01" | "L02" => vec!["Lmpa", "Simple"],
        "L03" | "L04" => vec!["LmpaK", "SimpleK"],
        "Z01" => vec!["Simple", "SimpleK"],
        "Z02" => vec!["Alm", "Inner", "Zk", "Copy"],
        "Z03" => vec!["sampler"],
        "M01" => vec!["matrix"],
        "F01" | "F02" | "F03" | "T01" | "S01" => {
            vec!["Ipa", "Alm", "Inner", "Zk", "Copy", "Lmpa", "LmpaK", "Simple", "SimpleK"]
        }
        _ => vec![],
    };
    g.push("arith");
    g
}

fn flag(b: Result<bool, String>) -> Node {
    U(match b {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 99,
    })
}

fn traces(prop: &str, t: Tier) -> Vec<Trace> {
    let gs = groups(prop);
    let mut o: Vec<Trace> = vec![];
    let mut add = |id: String, base: u64, run: Box<dyn Fn() -> Vec<(String, Node)>>| o.push(Trace { id, base, run });
    let wide = matches!(prop, "F01" | "F02" | "F03" | "T01" | "S01");
    for proto in ALL {
        if !gs.contains(&format!("{:?}", proto).as_str()) {
            continue;
        }
        let ns: Vec<usize> = if wide { t.pick(vec![4], vec![4, 8], vec![2, 4, 8, 16]) } else { t.pick(vec![4], vec![1, 2, 4, 8, 16], vec![1, 2, 4, 8, 16, 32, 64]) };
        for n in ns {
            if proto == Alm && n < 2 || matches!(proto, Inner | Zk) && n < 4 || proto == Proto::Copy && n < 8 {
                continue;
            }
            for v in 0..if wide { 2 } else { t.pick(1, 4, 6) } {
                for mode in 0..2 {
                    for base in 1..=if wide { 1 } else { t.pick(1, 2, 3) } {
                        add(
                            format!("{:?}/n{}v{}m{}b{}", proto, n, v, mode, base),
                            base,
                            Box::new(move || {
                                let i = standard(proto, n, v);
                                let mut out = vec![("statement".into(), i.st.clone())];
                                let sc = Sc::new(mode == 1);
                                rewind(&sc);
                                let ctx = if mode == 1 { 0 } else { v % CONTEXTS };
                                let pf = match guarded(|| prove(proto, &mut transcript(ctx), &i.st, &i.wit)) {
                                    Ok(p) => p,
                                    Err(_) => {
                                        out.push(("prover aborted".into(), U(1)));
                                        return out;
                                    }
                                };
                                out.push(("proof".into(), pf.clone()));
                                let judge = |st: &Node, pf: &Node| {
                                    rewind(&sc);
                                    guarded(|| verify(proto, &mut transcript(ctx), st, pf))
                                };
                                out.push(("honest".into(), flag(judge(&i.st, &pf))));
                                let g = gens(proto, &i.st);
                                let leaves = pf.leaves();
                                let step = 1 + leaves.len() / 6;
                                for (k, l) in leaves.iter().enumerate().filter(|(k, _)| (k + v as usize) % step == 0) {
                                    for op in [0u32, 4] {
                                        if let Some(x) = perturb(pf.get(l), (op + k as u32) % op_count(pf.get(l)), &g, &all_leaves(&pf)) {
                                            out.push((format!("changed {:?} {}", l, op), flag(judge(&i.st, &pf.with(l, x)))));
                                        }
                                    }
                                }
                                let ls = statement_leaves(proto, &i.st);
                                let step = 1 + ls.len() / 6;
                                for (_, l) in ls.iter().enumerate().filter(|(k, _)| (k + v as usize) % step == 0) {
                                    if let Some(x) = perturb(i.st.get(l), 0, &g, &all_leaves(&i.st)) {
                                        out.push((format!("other {:?}", l), flag(judge(&i.st.with(l, x), &pf))));
                                    }
                                }
                                // malformed
                                for (k, l) in leaves.iter().enumerate().filter(|(_, l)| matches!(pf.get(l), C(_))) {
                                    if k % 3 == v as usize % 3 {
                                        out.push((format!("undecodable {:?}", l), flag(judge(&i.st, &pf.with(l, C(undecodable(0)))))));
                                    }
                                }
                                for l in pf.lists().into_iter().filter(|l| !l.is_empty()).take(3) {
                                    if let L(x) = pf.get(&l) {
                                        if x.iter().all(|y| matches!(y, C(_) | L(_))) && x.len() > 0 && !matches!(proto, Alm | Inner | Zk | Proto::Copy) {
                                            let mut y = x.clone();
                                            y.pop();
                                            out.push((format!("shortened {:?}", l), flag(judge(&i.st, &pf.with(&l, L(y))))));
                                        }
                                    }
                                }
                                out
                            }),
                        );
                    }
                }
            }
        }
    }
    if gs.contains(&"mapping") {
        for k in 0..t.pick(8u64, 120, 600) {
            add(
                format!("mapping/{}", k),
                1,
                Box::new(move || {
                    let r = |i: u64, m: u64| mix(k * 31 + i) % m;
                    let n = [8usize, 16, 32][r(0, 3) as usize];
                    let ws = 1 + r(1, 4) as usize;
                    let sets: Vec<BTreeSet<u16>> = (0..1 + r(2, 4))
                        .map(|c| (0..1 + r(3 + c, 3)).map(|j| (1 + r(10 + c * 7 + j, n as u64 - 3)) as u16).collect())
                        .collect();
                    match guarded(|| copy::compute_mapping(n, ws, &sets)) {
                        Ok(m) => vec![("mapping".into(), map_node(&m))],
                        Err(_) => vec![("refused".into(), U(1))],
                    }
                }),
            );
        }
    }
    if gs.contains(&"commit") {
        for k in 0..t.pick(4u64, 40, 200) {
            add(
                format!("commit/{}", k),
                1,
                Box::new(move || {
                    let n = [4usize, 8, 16][(k % 3) as usize];
                    let mut w = World::new(k);
                    let g = w.pts(n);
                    let idx: BTreeSet<u16> = (0..n - 1).filter(|i| mix(k ^ (*i as u64) << 8) & 1 == 1).map(|i| i as u16).collect();
                    let m = w.scs(3, idx.len());
                    let r = w.sc(4);
                    vec![
                        ("commit".into(), P(copy::commit(&g, &idx, &m, &r))),
                        ("pedersen".into(), P(pedersen_commit(&g[0], &g[1..], &w.scs(5, n - 1), &r))),
                    ]
                }),
            );
        }
    }
    if gs.contains(&"sampler") {
        for n in t.pick(vec![4usize], vec![2, 4, 8, 16, 32, 64], vec![2, 4, 8, 16, 32, 64, 128, 256]) {
            for k in 0..4u32 {
                for base in 1..=2u64 {
                    add(
                        format!("sampler/n{}k{}b{}", n, k, base),
                        base,
                        Box::new(move || {
                            let (a, b) = (pattern(k, n, 5), pattern(0, n, 6));
                            vec![
                                ("one".into(), Node::scs(&sample_gram_schmidt(&a))),
                                ("two".into(), Node::scs(&sample_gram_schmidt_twice(&a, &b))),
                            ]
                        }),
                    );
                }
            }
        }
    }
    if gs.contains(&"matrix") {
        for m in 1..=t.pick(2usize, 4, 6) {
            for n in 1..=t.pick(2usize, 4, 6) {
                for k in 0..3u32 {
                    add(
                        format!("matrix/{}x{}k{}", m, n, k),
                        1,
                        Box::new(move || {
                            let a: Vec<Vec<Scalar>> = (0..m).map(|i| pattern(k * 3 % PATTERNS, n, 40 + i as u64)).collect();
                            let b: Vec<Vec<Scalar>> = (0..m).map(|i| pattern(0, n, 60 + i as u64)).collect();
                            let pa: Vec<Vec<RistrettoPoint>> = a.iter().map(|r| r.iter().map(base_mul).collect()).collect();
                            let pb: Vec<Vec<RistrettoPoint>> = b.iter().map(|r| r.iter().map(base_mul).collect()).collect();
                            let v = pattern(0, n, 80);
                            let x = gsc(81);
                            let mut blk = BlockMatrix::new();
                            blk.push(a.clone());
                            blk.push(b.clone());
                            vec![
                                ("scale".into(), Node::smat(&matrix_scalar_mul(&a, &x))),
                                ("scalep".into(), Node::pmat(&matrixpoint_scalar_mul(&pa, &x))),
                                ("mul".into(), Node::scs(&matrix_vector_mul(&a, &v))),
                                ("mulp".into(), Node::pts(&matrixpoint_vector_mul(&pa, &v))),
                                ("add".into(), Node::smat(&matrix_matrix_add(&a, &b))),
                                ("addp".into(), Node::pmat(&matrixpoint_matrix_add(&pa, &pb))),
                                ("t".into(), Node::smat(&matrix_transpose(&a))),
                                ("tp".into(), Node::pmat(&matrixpoint_transpose(&pa))),
                                ("batch".into(), Node::smat(&blk.block_matrix_batch(&vec![x, x * x]))),
                                ("powers".into(), Node::scs(&vandemonde_challenge(x, m + n))),
                                ("ip".into(), S(inner_product(&a[0], &v))),
                            ]
                        }),
                    );
                }
            }
        }
    }
    // the arithmetic the model stands in for
    for k in 0..t.pick(2u64, 12, 48) {
        add(
            format!("arith/{}", k),
            1,
            Box::new(move || {
                let special = [Scalar::zero(), Scalar::one(), -Scalar::one(), fe(2), fi(-2), fe(u64::MAX), fe(1 << 32)];
                let x = special[(k % 7) as usize];
                let y = gsc(k);
                let z = gsc(k + 1000);
                let mut out: Vec<(String, Node)> = vec![];
                let mut s = |n: &str, v: Scalar| out.push((n.to_string(), S(v)));
                s("y", y);
                s("x+y", x + y);
                s("x-y", x - y);
                s("xy", x * y);
                s("yz", y * z);
                s("-y", -y);
                s("1/y", y.invert());
                s("1/x", x.invert());
                s("sum", [x, y, z].iter().sum());
                s("product", [y, z, y].iter().product());
                let mut b = [y, z, y * z];
                s("all", Scalar::batch_invert(&mut b));
                for v in b.iter() {
                    s("batch", *v);
                }
                let mut raw = [0u8; 64];
                for (i, b) in raw.iter_mut().enumerate() {
                    *b = if k % 3 == 0 { 0xff } else { mix(k * 64 + i as u64) as u8 };
                }
                s("wide", Scalar::from_bytes_mod_order_wide(&raw));
                let mut half = [0u8; 32];
                half.copy_from_slice(&raw[..32]);
                s("mod", Scalar::from_bytes_mod_order(half));
                let (p, q) = (base_mul(&y), base_mul(&z));
                let mut g = |n: &str, v: RistrettoPoint| out.push((n.to_string(), P(v)));
                g("p", p);
                g("p+q", p + q);
                g("p-q", p - q);
                g("-p", -p);
                g("xp", p * x);
                g("zp", z * p);
                g("id", RistrettoPoint::identity());
                g("sump", [p, q, p].iter().sum());
                g("vmsm", RistrettoPoint::vartime_multiscalar_mul(&[x, y, z], &[p, q, p + q]));
                g("msm", RistrettoPoint::multiscalar_mul(&[x, y, z], &[p, q, p + q]));
                g("round", p.compress().decompress().unwrap());
                if let Some(o) = RistrettoPoint::optional_multiscalar_mul(&[x, y], vec![Some(p), Some(q)]) {
                    g("opt", o);
                }
                out.push((
                    "opt none".into(),
                    U(RistrettoPoint::optional_multiscalar_mul(&[x, y], vec![Some(p), None]).is_none() as u64),
                ));
                for j in 0..3 {
                    out.push((format!("undecodable {}", j), U(undecodable(j).decompress().is_none() as u64)));
                }
                out.push(("identity encoding".into(), U((RistrettoPoint::identity().compress() == CompressedRistretto::identity()) as u64)));
                out
            }),
        );
    }
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn run_trace(t: &Trace) -> Vec<(String, Node)> {
    mcrt::configure(251, 1);
    mcrt::set_expand(true);
    let mut p = fixed();
    p.base = t.base;
    p.modes = [mcrt::Mode::Fixed; 4];
    mcrt::begin(&[], &p);
    (t.run)()
}
fn threads<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<T>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
    let w = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..w {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    *out[i].lock().unwrap() = Some(f(i));
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

/// model side: write all components
#[cfg(feature = "big")]
pub fn dump(prop: &str, file: &str, t: Tier) {
    let n = traces(prop, t).len();
    let outs = threads(n, |i| {
        let tr = &traces(prop, t)[i];
        let mut s = String::new();
        for (name, node) in run_trace(tr) {
            for l in node.leaves() {
                let v = match node.get(&l) {
                    P(p) => format!("P {}", hex(&curve25519_dalek::model::coeffs(p)[0].to_bytes())),
                    C(c) => match c.decompress() {
                        Some(p) => format!("C {}", hex(&curve25519_dalek::model::coeffs(&p)[0].to_bytes())),
                        None => "C bad".to_string(),
                    },
                    S(x) => format!("S {}", hex(&x.to_bytes())),
                    U(u) => format!("U {}", u),
                    L(_) => unreachable!(),
                };
                s.push_str(&format!("{}\t{}\t{:?}\t{}\n", tr.id, name, l, v));
            }
        }
        s
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(file).unwrap());
    for o in outs {
        f.write_all(o.as_bytes()).unwrap();
    }
}
#[cfg(not(feature = "big"))]
pub fn dump(_p: &str, _f: &str, _t: Tier) {
    panic!("dump: big variant only")
}

/// implementation side: recompute and compare; prints a JSON line
#[cfg(feature = "mixed")]
pub fn compare(prop: &str, file: &str, t: Tier) {
    let f = std::io::BufReader::new(std::fs::File::open(file).unwrap());
    let mut want: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    for l in f.lines() {
        let l = l.unwrap();
        let id = l.split('\t').next().unwrap().to_string();
        want.entry(id).or_default().push(l);
    }
    let all = traces(prop, t);
    let n = all.len();
    drop(all);
    let res = threads(n, |i| {
        let tr = &traces(prop, t)[i];
        let empty = vec![];
        let w = want.get(&tr.id).unwrap_or(&empty);
        let mut k = 0;
        let mut bad = None;
        for (name, node) in run_trace(tr) {
            for l in node.leaves() {
                let head = format!("{}\t{}\t{:?}\t", tr.id, name, l);
                let line = w.get(k).cloned().unwrap_or_default();
                k += 1;
                let same = line.starts_with(&head) && {
                    let v: Vec<&str> = line[head.len()..].split(' ').collect();
                    let sc = |h: &str| {
                        let mut b = [0u8; 32];
                        b.copy_from_slice(&unhex(h));
                        Scalar::from_canonical_bytes(b).expect("canonical")
                    };
                    match node.get(&l) {
                        P(p) => v[0] == "P" && base_mul(&sc(v[1])) == *p,
                        C(c) => v[0] == "C" && if v[1] == "bad" { c.decompress().is_none() } else { base_mul(&sc(v[1])).compress() == *c },
                        S(x) => v[0] == "S" && sc(v[1]) == *x,
                        U(u) => v[0] == "U" && v[1] == u.to_string(),
                        L(_) => unreachable!(),
                    }
                };
                if !same && bad.is_none() {
                    bad = Some(format!("{} (model: {})", head.replace('\t', " "), line.rsplit('\t').next().unwrap_or("")));
                }
            }
        }
        if k != w.len() && bad.is_none() {
            bad = Some(format!("{}: {} components here, {} in the model", tr.id, k, w.len()));
        }
        (k, bad)
    });
    let bad: Vec<String> = res.iter().filter_map(|r| r.1.clone()).collect();
    let comps: usize = res.iter().map(|r| r.0).sum();
    println!(
        "{{\"traces\":{},\"components\":{},\"mismatches\":{},\"first\":{:?}}}",
        n,
        comps,
        bad.len(),
        bad.first().cloned().unwrap_or_default()
    );
}
#[cfg(not(feature = "mixed"))]
pub fn compare(_p: &str, _f: &str, _t: Tier) {
    panic!("compare: mixed variant only")
}

// ---- what a child does when we listen to what it prints ---------------------------------

pub fn quiet_items(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for p in ALL {
        for n in t.pick(vec![4usize], vec![2, 4, 8], vec![1, 2, 4, 8, 16, 32]) {
            if p == Alm && n < 2 || matches!(p, Inner | Zk) && n < 4 || p == Proto::Copy && n < 8 {
                continue;
            }
            v.push(format!("{:?}-{}", p, n));
        }
    }
    v.push("mapping".into());
    v.push("commit".into());
    v.push("sampler".into());
    v.push("matrix".into());
    v
}
pub fn quiet_child(i: usize, t: Tier) {
    let items = quiet_items(t);
    let name = &items[i];
    if let Some((p, n)) = name.split_once('-') {
        let proto = *ALL.iter().find(|x| format!("{:?}", x) == p).unwrap();
        let n: usize = n.parse().unwrap();
        // the larger counts once
        let more: Vec<u32> = if n == 4 || n == 8 && proto == Proto::Copy {
            MANY.into_iter().chain(WIDE_K.iter().map(|x| x.0).filter(|_| matches!(proto, LmpaK | SimpleK))).collect()
        } else {
            vec![]
        };
        for v in (0..6).chain(more) {
            let i = standard(proto, n, v);
            for ctx in 0..CONTEXTS {
                let pf = match guarded(|| prove(proto, &mut transcript(ctx), &i.st, &i.wit)) {
                    Ok(p) => p,
                    Err(_) => continue,
                };
                accepts(proto, ctx, &i.st, &pf);
                accepts(proto, ctx + 1, &i.st, &pf);
                let g = gens(proto, &i.st);
                if ctx > 0 {
                    continue;
                }
                let ls = pf.leaves();
                for l in ls.iter().step_by(1 + ls.len() / 8) {
                    if let Some(x) = perturb(pf.get(l), 0, &g, &[]) {
                        accepts(proto, ctx, &i.st, &pf.with(l, x));
                    }
                    if let C(_) = pf.get(l) {
                        accepts(proto, ctx, &i.st, &pf.with(l, C(undecodable(0))));
                    }
                }
                for l in pf.lists().iter().filter(|l| !l.is_empty()) {
                    let mut m = pf.get(l).list().clone();
                    m.pop();
                    let alt = pf.with(l, L(m));
                    let _ = guarded(|| accepts(proto, ctx, &i.st, &alt));
                }
                let ls = statement_leaves(proto, &i.st);
                for l in ls.iter().step_by(1 + ls.len() / 4) {
                    if let Some(x) = perturb(i.st.get(l), 0, &g, &[]) {
                        accepts(proto, ctx, &i.st.with(l, x), &pf);
                    }
                }
            }
        }
        return;
    }
    match name.as_str() {
        "mapping" => {
            for n in [4usize, 8, 16] {
                for a in 0..n as u16 {
                    for b in 0..n as u16 {
                        let s: Vec<BTreeSet<u16>> = vec![[a].into(), [b, (b + 1) % n as u16].into()];
                        let _ = guarded(|| copy::compute_mapping(n, 2, &s));
                    }
                }
            }
        }
        "commit" => {
            let mut w = World::new(1);
            let g = w.pts(8);
            for k in 0..64u16 {
                let idx: BTreeSet<u16> = (0..6).filter(|i| k >> i & 1 == 1).collect();
                let m = w.scs(2, idx.len());
                let _ = guarded(|| copy::commit(&g, &idx, &m, &w.sc(3)));
                let _ = guarded(|| pedersen_commit(&g[0], &g[1..], &w.scs(4, 7), &w.sc(5)));
            }
        }
        "sampler" => {
            for n in [2usize, 4, 8, 16] {
                for a in 0..PATTERNS {
                    for b in 0..PATTERNS {
                        let (a, b) = (pattern(a, n, 1), pattern(b, n, 2));
                        let _ = guarded(|| sample_gram_schmidt(&a));
                        let _ = guarded(|| sample_gram_schmidt_twice(&a, &b));
                    }
                }
            }
        }
        _ => {
            for n in 1..5usize {
                let a: Vec<Vec<Scalar>> = (0..n).map(|i| pattern(0, n, i as u64)).collect();
                let _ = guarded(|| matrix_vector_mul(&a, &a[0]));
                let _ = guarded(|| matrix_transpose(&a));
                let _ = guarded(|| matrix_matrix_add(&a, &a));
                let _ = guarded(|| matrix_split(&a, n));
                let _ = guarded(|| vandemonde_challenge(a[0][0], n));
                let mut b = BlockMatrix::new();
                b.push(a.clone());
                let _ = guarded(|| b.block_matrix_batch(&a[0]));
            }
        }
    }
}

// ---- self-test of the model's arithmetic --------------------------------------------------

/// Small fields: every pair of elements, every law the code relies on.  Prints a line; exits 4 if a law fails.
#[cfg(feature = "model")]
pub fn selftest() {
    let mut n = 0u64;
    let mut need = |b: bool, what: &str| {
        n += 1;
        if !b {
            eprintln!("MODEL SELF-TEST FAILED: {}", what);
            std::process::exit(4);
        }
    };
    for p in [3u32, 5, 7, 11, 13, 251] {
        mcrt::configure(p, 3);
        mcrt::begin(&[], &fixed());
        for x in 0..p as u64 {
            let a = fe(x);
            need(curve25519_dalek::model::val(&a) == x, "value");
            need(a + Scalar::zero() == a && a * Scalar::one() == a && a - a == Scalar::zero() && -a + a == Scalar::zero(), "neutral elements");
            if x > 0 {
                need(a * a.invert() == Scalar::one(), "inverse");
            } else {
                need(a.invert() == Scalar::zero(), "inverse of zero");
            }
            for y in 0..p as u64 {
                let b = fe(y);
                need(curve25519_dalek::model::val(&(a + b)) == (x + y) % p as u64, "sum");
                need(curve25519_dalek::model::val(&(a * b)) == x * y % p as u64, "product");
                need(a - b == a + (-b), "difference");
                if p <= 13 {
                    let pt = curve25519_dalek::model::point(&[a, b, a * b]);
                    need(pt.compress().decompress() == Some(pt), "encoding");
                    let q = curve25519_dalek::model::point(&[b, a, fe(1)]);
                    need(pt * b + q * b == (pt + q) * b && pt + q - q == pt && pt * a + pt * b == pt * (a + b), "vector space");
                    need(RistrettoPoint::vartime_multiscalar_mul(&[a, b], &[pt, q]) == pt * a + q * b, "multiscalar");
                    need((pt == q) == (pt.compress() == q.compress()), "equality");
                }
            }
        }
    }
    println!("{}", n);
}
#[cfg(not(feature = "model"))]
pub fn selftest() {}
