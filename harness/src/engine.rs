//! Runs scenarios under the explorer and judges the outcomes.
use mcrt::{Choice, Kind, Policy, Stats};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    /// the property held on this execution
    Ok,
    /// this combination of inputs is outside the space
    Skip,
    /// the execution hit a named exceptional event the property exempts
    Exempt,
    /// the property is violated by this execution
    Fail(String),
    /// one element of a family over challenges: violated if too many of the family are accepted
    Tally(String, bool),
    /// a known, recorded failure (identified by key)
    Known(String),
    /// one observation of a distribution: within a group, all members must see the same
    /// values equally often
    Hist(u64, u64, u64),
    /// one observation of a distribution: within a group, all of the stated number of
    /// values must occur, all equally often
    Uni(u64, u64, u64),
}

pub struct Scenario {
    pub id: String,
    pub p: u32,
    pub dim: usize,
    pub policies: Vec<Policy>,
    pub limit: u64,
    /// families: at most `max_acc` of `1` accepted (fraction)
    pub max_acc: f64,
    pub body: Box<dyn Fn() -> V + Send + Sync>,
    /// checks after all executions
    pub setup: Box<dyn Fn() + Send + Sync>,
    pub expand: bool,
}

impl Scenario {
    pub fn new(id: impl Into<String>, body: impl Fn() -> V + Send + Sync + 'static) -> Scenario {
        Scenario {
            id: id.into(),
            p: 251,
            dim: 1,
            policies: vec![Policy::full()],
            limit: 50_000_000,
            max_acc: 0.5,
            body: Box::new(body),
            setup: Box::new(|| {}),
            expand: cfg!(any(feature = "big", feature = "mixed")),
        }
    }
    pub fn field(mut self, p: u32, dim: usize) -> Scenario {
        self.p = p;
        self.dim = dim;
        self
    }
    /// challenges from a set so large that they do not coincide by accident (for provers that
    /// act upon them)
    pub fn wide(mut self) -> Scenario {
        self.setup = Box::new(|| mcrt::set_chal_domain(1, 1 << 30));
        self
    }
    pub fn policy(mut self, p: Policy) -> Scenario {
        self.policies = vec![p];
        self
    }
    pub fn policies(mut self, p: Vec<Policy>) -> Scenario {
        self.policies = p;
        self
    }
    pub fn max_acc(mut self, f: f64) -> Scenario {
        self.max_acc = f;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub msg: String,
    pub choices: Vec<(u8, u32, u32)>,
    pub policy: usize,
}

#[derive(Default, Debug)]
pub struct Report {
    pub scenarios: u64,
    pub executions: u64,
    pub ok: u64,
    pub skipped: u64,
    pub exempt: u64,
    pub families: u64,
    pub family_members: u64,
    pub family_accepts: u64,
    pub states: u64,
    pub transitions: u64,
    pub truncated: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, String>,
    pub samples: Vec<String>,
    pub slow: Vec<(f64, String, u64)>,
    pub histograms: u64,
    pub observations: u64,
}

thread_local! {
    static NOTES: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}
static CONTROLS: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
/// A true statement by one of the harness's own provers: counted, not judged (it says whether
/// what that prover does in the other executions is taken seriously by this tree's verifier).
pub fn control(who: &str, accepted: bool) -> V {
    let mut c = CONTROLS.lock().unwrap();
    let e = c.entry(who.to_string()).or_default();
    e.0 += 1;
    e.1 += accepted as u64;
    V::Ok
}
pub fn controls() -> BTreeMap<String, (u64, u64)> {
    CONTROLS.lock().unwrap().clone()
}
/// free-form remark attached to the current execution (for samples and replays)
pub fn note(s: impl Into<String>) {
    let s = s.into();
    NOTES.with(|n| n.borrow_mut().push(s));
}

fn choices(tr: &[Choice]) -> Vec<(u8, u32, u32)> {
    tr.iter().map(|c| (c.kind as u8, c.val, c.dom)).collect()
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
/// Run code under test; a panic is an observation, not a crash of the harness.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = panic_msg(e);
            if m.starts_with("harness:") {
                eprintln!("HARNESS ERROR: {}", m);
                std::process::exit(4);
            }
            Err(m)
        }
    }
}

fn prepare(s: &Scenario) {
    mcrt::configure(s.p, s.dim);
    mcrt::set_expand(s.expand);
    (s.setup)();
}

fn run_one(s: &Scenario) -> V {
    NOTES.with(|n| n.borrow_mut().clear());
    #[cfg(any(feature = "model", feature = "big"))]
    curve25519_dalek::model::reset();
    match guarded(|| (s.body)()) {
        Ok(v) => v,
        Err(m) => V::Fail(format!("unexpected panic: {}", m)),
    }
}

#[derive(Default)]
struct Fam {
    total: u64,
    acc: u64,
    first: Option<(Vec<(u8, u32, u32)>, usize, String)>,
}

pub fn run_scenario(s: &Scenario) -> Report {
    let mut r = Report::default();
    r.scenarios = 1;
    prepare(s);
    let mut fams: BTreeMap<String, Fam> = BTreeMap::new();
    let mut hists: BTreeMap<u64, BTreeMap<u64, HashMap<u64, u64>>> = BTreeMap::new();
    let mut unis: BTreeMap<u64, (u64, HashMap<u64, u64>)> = BTreeMap::new();
    let mut hfirst: HashMap<(u64, u64, u64), Vec<(u8, u32, u32)>> = HashMap::new();
    for (pi, pol) in s.policies.iter().enumerate() {
        let mut nviol = 0;
        let mut first = true;
        let mut beat = Instant::now();
        heartbeat(&s.id, pi);
        let st: Stats = mcrt::explore(pol, s.limit, || {
            if beat.elapsed().as_secs() > 2 {
                beat = Instant::now();
                heartbeat(&s.id, pi);
            }
            let v = run_one(s);
            let tr = mcrt::trace();
            if std::mem::take(&mut first) {
                // replay the same choices once more: same observations, or something is not under control
                let d1: Vec<_> = mcrt::take_draws().iter().map(|d| (d.key, d.val)).collect();
                let pre: Vec<u32> = tr.iter().map(|c| c.val).collect();
                mcrt::begin(&pre, pol);
                let v2 = run_one(s);
                let tr2 = mcrt::trace();
                let d2: Vec<_> = mcrt::take_draws().iter().map(|d| (d.key, d.val)).collect();
                if format!("{:?}", v) != format!("{:?}", v2) || d1 != d2 || tr2.len() != tr.len() {
                    r.violations.push(Violation {
                        scenario: s.id.clone(),
                        msg: format!("replaying the same inputs, coins and challenges gives a different result ({:?} / {:?})", v, v2),
                        choices: choices(&tr),
                        policy: pi,
                    });
                    nviol += 1;
                }
                if r.samples.len() < 1 {
                    r.samples.push(sample(s, &tr, &v));
                }
            }
            match v {
                V::Ok => r.ok += 1,
                V::Skip => r.skipped += 1,
                V::Exempt => r.exempt += 1,
                V::Known(k) => {
                    r.known.insert(k, s.id.clone());
                }
                V::Fail(m) => {
                    if nviol < 3 {
                        r.violations.push(Violation { scenario: s.id.clone(), msg: m, choices: choices(&tr), policy: pi });
                    }
                    nviol += 1;
                }
                V::Hist(g, m, v) => {
                    *hists.entry(g).or_default().entry(m).or_default().entry(v).or_default() += 1;
                    if hfirst.len() < 200_000 {
                        hfirst.entry((g, m, v)).or_insert_with(|| choices(&tr));
                    }
                    r.observations += 1;
                }
                V::Uni(g, d, v) => {
                    let e = unis.entry(g).or_default();
                    e.0 = d;
                    *e.1.entry(v).or_default() += 1;
                    if hfirst.len() < 200_000 {
                        hfirst.entry((g, 0, v)).or_insert_with(|| choices(&tr));
                    }
                    r.observations += 1;
                }
                V::Tally(k, acc) => {
                    let f = fams.entry(k).or_default();
                    f.total += 1;
                    if acc {
                        f.acc += 1;
                        if f.first.is_none() {
                            let n = NOTES.with(|n| n.borrow().join("; "));
                            f.first = Some((choices(&tr), pi, n));
                        }
                    }
                }
            }
            nviol < 40
        });
        r.executions += st.executions;
        r.states += st.states;
        r.transitions += st.transitions;
        if st.truncated {
            r.truncated.push(s.id.clone());
        }
        if mcrt::diverged() {
            r.violations.push(Violation {
                scenario: s.id.clone(),
                msg: "an execution did not follow its replayed prefix: the result depends on something other than inputs, coins and challenges".into(),
                choices: vec![],
                policy: pi,
            });
        }
    }
    r.histograms = (hists.len() + unis.len()) as u64;
    for (g, ms) in hists {
        let mut it = ms.iter();
        let (m0, h0) = it.next().unwrap();
        for (m, h) in it {
            if h != h0 {
                let (ma, ha, mb, hb) = if h.len() > h0.len() { (m, h, m0, h0) } else { (m0, h0, m, h) };
                let v = ha.iter().filter(|(v, c)| hb.get(v) != Some(c)).map(|(v, _)| *v).min().unwrap();
                r.violations.push(Violation {
                    scenario: s.id.clone(),
                    msg: format!(
                        "distributions differ: a proof occurs for {} of the coins with input {} but for {} with input {}",
                        ha[&v],
                        ma,
                        hb.get(&v).unwrap_or(&0),
                        mb
                    ),
                    choices: hfirst.get(&(g, *ma, v)).cloned().unwrap_or_default(),
                    policy: 0,
                });
                break;
            }
        }
        if r.violations.len() > 5 {
            break;
        }
    }
    for (g, (d, h)) in unis {
        let tot: u64 = h.values().sum();
        if h.len() as u64 != d || h.values().any(|c| c * d != tot) {
            let v = h.iter().max_by_key(|(v, c)| (**c, **v)).unwrap();
            r.violations.push(Violation {
                scenario: s.id.clone(),
                msg: format!("not uniform: {} of {} values occur, one of them {} times in {}", h.len(), d, v.1, tot),
                choices: hfirst.get(&(g, 0, *v.0)).cloned().unwrap_or_default(),
                policy: 0,
            });
        }
        if r.violations.len() > 5 {
            break;
        }
    }
    r.families = fams.len() as u64;
    for (k, f) in fams {
        r.family_members += f.total;
        r.family_accepts += f.acc;
        if f.acc > 0 && (f.acc as f64) > s.max_acc * f.total as f64 {
            let (c, pi, n) = f.first.unwrap();
            if r.violations.len() < 10 {
                r.violations.push(Violation {
                    scenario: s.id.clone(),
                    msg: format!("{}: accepted in {} of {} executions ({})", k, f.acc, f.total, n),
                    choices: c,
                    policy: pi,
                });
            }
        }
    }
    r
}

fn sample(s: &Scenario, tr: &[Choice], v: &V) -> String {
    let c: Vec<String> = tr
        .iter()
        .take(24)
        .map(|c| format!("{}{}/{}", match c.kind { Kind::Input => "i", Kind::Coin => "r", Kind::Chal => "x", Kind::Tamper => "t" }, c.val, c.dom))
        .collect();
    let n = NOTES.with(|n| n.borrow().join("; "));
    format!("{} [{}{}] {} -> {:?}", s.id, c.join(" "), if tr.len() > 24 { " .." } else { "" }, n, v)
}

/// What each worker is doing: (scenario, policy, start of the current execution)
pub static CURRENT: Mutex<Vec<Option<(String, usize, Instant)>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
fn heartbeat(s: &str, pol: usize) {
    let i = SLOT.with(|c| c.get());
    if i != usize::MAX {
        CURRENT.lock().unwrap()[i] = Some((s.to_string(), pol, Instant::now()));
    }
}
/// An execution that has been running for longer than this does not terminate.
pub const HANG_S: u64 = 150;
pub fn hanging() -> Option<(String, usize)> {
    CURRENT.lock().unwrap().iter().flatten().find(|c| c.2.elapsed().as_secs() > HANG_S).map(|c| (c.0.clone(), c.1))
}

pub fn run_all(scs: Vec<Scenario>, threads: usize) -> Report {
    let next = AtomicUsize::new(0);
    *CURRENT.lock().unwrap() = vec![None; threads];
    let slots = AtomicUsize::new(0);
    let total = Mutex::new(Report::default());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    if SLOT.with(|c| c.get()) == usize::MAX {
                        SLOT.with(|c| c.set(slots.fetch_add(1, Ordering::SeqCst)));
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= scs.len() {
                        CURRENT.lock().unwrap()[SLOT.with(|c| c.get())] = None;
                        break;
                    }
                    let t0 = Instant::now();
                    let r = run_scenario(&scs[i]);
                    let dt = t0.elapsed().as_secs_f64();
                    let mut t = total.lock().unwrap();
                    t.slow.push((dt, scs[i].id.clone(), r.executions));
                    t.scenarios += r.scenarios;
                    t.executions += r.executions;
                    t.ok += r.ok;
                    t.skipped += r.skipped;
                    t.exempt += r.exempt;
                    t.histograms += r.histograms;
                    t.observations += r.observations;
                    t.families += r.families;
                    t.family_members += r.family_members;
                    t.family_accepts += r.family_accepts;
                    t.states += r.states;
                    t.transitions += r.transitions;
                    t.truncated.extend(r.truncated);
                    t.violations.extend(r.violations);
                    t.known.extend(r.known);
                    t.samples.extend(r.samples);
                })
                .unwrap();
        }
    });
    let mut t = total.into_inner().unwrap();
    t.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    t.samples.sort();
    t.violations.sort_by(|a, b| (a.choices.len(), &a.scenario).cmp(&(b.choices.len(), &b.scenario)));
    t
}

/// Re-run one recorded execution.
pub fn replay(s: &Scenario, policy: usize, prefix: &[u32]) -> (V, Vec<String>) {
    prepare(s);
    mcrt::begin(prefix, &s.policies[policy]);
    let v = run_one(s);
    (v, NOTES.with(|n| n.borrow().clone()))
}
