//! Model-checking runtime: the single owner of all nondeterminism.
//!
//! Everything the code under test cannot decide for itself (inputs picked by a
//! scenario, prover coins, random-oracle answers, tampering) is a call to
//! [`choose`].  [`explore`] enumerates all executions of a body, in full or up to
//! a stated number of deviations from a default, by replaying choice prefixes
//! (stateless exploration).
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Input = 0,
    Coin = 1,
    Chal = 2,
    Tamper = 3,
}

/// How alternatives of a choice kind are enumerated.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// every value of the domain, at no deviation cost
    Full,
    /// default value, plus up to `alts` (0 = all) other values at the cost of one deviation each
    Dev { alts: u32 },
    /// default value only
    Fixed,
}

#[derive(Clone, Debug)]
pub struct Policy {
    pub modes: [Mode; 4],
    /// maximum number of deviations per execution
    pub budget: u32,
    /// selects the default values of non-Full choices
    pub base: u64,
}

impl Policy {
    pub fn full() -> Policy {
        Policy { modes: [Mode::Full; 4], budget: 0, base: 0 }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub kind: Kind,
    pub val: u32,
    pub dom: u32,
    pub mode: Mode,
}

#[derive(Clone, Debug)]
pub struct Draw {
    /// hash of the complete transcript history at which the challenge was drawn
    pub key: u128,
    pub val: u32,
    pub len: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OracleMode {
    /// random oracle: the answer is a function of the transcript history
    ByState,
    /// the k-th challenge drawn since `oracle_script` gets the k-th scripted answer
    Script,
}

pub struct Ctx {
    active: bool,
    prefix: Vec<u32>,
    trace: Vec<Choice>,
    policy: Policy,
    ord: [u32; 4],
    omode: OracleMode,
    oracle: HashMap<u128, u32>,
    script: Vec<u32>,
    script_pos: usize,
    draws: Vec<Draw>,
    absorbed: u64,
    states: HashSet<u64>,
    coin_mask: Option<Vec<bool>>,
}

thread_local! {
    static QUIET: RefCell<Option<HashMap<u32, u32>>> = const { RefCell::new(None) };
    static XOR: Cell<Option<(u32, usize, u8)>> = const { Cell::new(None) };
    static DRAWN: Cell<u32> = const { Cell::new(0) };
    static STOP: Cell<bool> = const { Cell::new(false) };
    static RAW: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
    static RAWLEN: Cell<usize> = const { Cell::new(0) };
    static CTX: RefCell<Ctx> = RefCell::new(Ctx{active:false,prefix:vec![],trace:vec![],policy:Policy::full(),
        ord:[0;4],omode:OracleMode::ByState,oracle:HashMap::new(),script:vec![],script_pos:0,draws:vec![],absorbed:0,
        states:HashSet::new(),coin_mask:None});
    static P: Cell<u32> = const { Cell::new(13) };
    static DIM: Cell<usize> = const { Cell::new(1) };
    static INV0: Cell<u32> = const { Cell::new(0) };
    static COIN_DOM: Cell<u32> = const { Cell::new(13) };
    static CHAL_DOM: Cell<u32> = const { Cell::new(12) };
    static CHAL_OFF: Cell<u32> = const { Cell::new(1) };
    static EXPAND: Cell<bool> = const { Cell::new(false) };
    static DIVERGED: Cell<bool> = const { Cell::new(false) };
    static FRESH: Cell<u64> = const { Cell::new(0) };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

// ---- configuration ---------------------------------------------------------

/// modulus of the model field and number of independent generators
pub fn configure(p: u32, dim: usize) {
    P.with(|c| c.set(p));
    DIM.with(|c| c.set(dim));
    COIN_DOM.with(|c| c.set(p));
    CHAL_DOM.with(|c| c.set(p - 1));
    CHAL_OFF.with(|c| c.set(1));
}
pub fn set_expand(on: bool) {
    EXPAND.with(|c| c.set(on));
}
pub fn set_chal_domain(off: u32, dom: u32) {
    CHAL_OFF.with(|c| c.set(off));
    CHAL_DOM.with(|c| c.set(dom));
}
#[inline(always)]
pub fn p() -> u32 {
    P.with(|c| c.get())
}
#[inline(always)]
pub fn dim() -> usize {
    DIM.with(|c| c.get())
}
/// number of times the code asked for the inverse of zero in this execution
pub fn inv0() -> u32 {
    INV0.with(|c| c.get())
}
/// a replayed prefix did not fit the execution: something outside the recorded choices decided
pub fn diverged() -> bool {
    DIVERGED.with(|d| d.replace(false))
}
pub fn note_inv0() {
    INV0.with(|c| c.set(c.get() + 1));
}
pub fn next_fresh() -> u64 {
    FRESH.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    })
}

// ---- choices ---------------------------------------------------------------

fn default_val(base: u64, kind: Kind, ord: u32, dom: u32) -> u32 {
    (mix(mix(base ^ ((kind as u64) << 56)) ^ ord as u64) % dom as u64) as u32
}

/// Pick a value in 0..dom.
pub fn choose(kind: Kind, dom: u32) -> u32 {
    choose_mode(kind, dom, None)
}
/// As `choose`, but always fully enumerated.
pub fn choose_full(kind: Kind, dom: u32) -> u32 {
    choose_mode(kind, dom, Some(Mode::Full))
}

fn choose_mode(kind: Kind, dom: u32, force: Option<Mode>) -> u32 {
    assert!(dom > 0, "empty choice");
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let o = c.ord[kind as usize];
        c.ord[kind as usize] += 1;
        let mut mode = force.unwrap_or(c.policy.modes[kind as usize]);
        if kind == Kind::Coin {
            if let Some(m) = &c.coin_mask {
                if !m.get(o as usize).copied().unwrap_or(true) {
                    mode = Mode::Fixed;
                }
            }
        }
        let i = c.trace.len();
        let val = if i < c.prefix.len() {
            let v = c.prefix[i];
            if v >= dom {
                DIVERGED.with(|d| d.set(true));
            }
            v % dom
        } else if mode == Mode::Full {
            0
        } else {
            default_val(c.policy.base, kind, o, dom)
        };
        c.trace.push(Choice { kind, val, dom, mode });
        val
    })
}

fn alternatives(ch: &Choice) -> Vec<u32> {
    match ch.mode {
        Mode::Fixed => vec![],
        Mode::Full => (0..ch.dom).filter(|v| *v != ch.val).collect(),
        Mode::Dev { alts: 0 } => (0..ch.dom).filter(|v| *v != ch.val).collect(),
        Mode::Dev { alts } => {
            let mut out: Vec<u32> = Vec::new();
            let cand = [0, 1, ch.dom.wrapping_sub(1), 2]
                .into_iter()
                .chain((1..ch.dom).map(|k| (ch.val + k) % ch.dom));
            for v in cand {
                if out.len() as u32 >= alts {
                    break;
                }
                if v < ch.dom && v != ch.val && !out.contains(&v) {
                    out.push(v);
                }
            }
            out
        }
    }
}

// ---- exploration -----------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    /// edges of the choice tree that were taken for the first time
    pub transitions: u64,
    /// distinct transcript/end states
    pub states: u64,
    pub truncated: bool,
}

pub fn begin(prefix: &[u32], policy: &Policy) {
    INV0.with(|c| c.set(0));
    FRESH.with(|c| c.set(0));
    QUIET.with(|c| *c.borrow_mut() = None);
    XOR.with(|c| c.set(None));
    DRAWN.with(|c| c.set(0));
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.active = true;
        c.prefix = prefix.to_vec();
        c.trace.clear();
        c.policy = policy.clone();
        c.ord = [0; 4];
        c.omode = OracleMode::ByState;
        c.oracle.clear();
        c.script.clear();
        c.script_pos = 0;
        c.draws.clear();
        c.coin_mask = None;
    });
}

pub fn trace() -> Vec<Choice> {
    CTX.with(|c| c.borrow().trace.clone())
}

/// Enumerate every execution of `body` under `policy`.  `body` returns false to stop.
/// `limit` is a safety cap; hitting it is reported in the statistics.
pub fn explore(policy: &Policy, limit: u64, mut body: impl FnMut() -> bool) -> Stats {
    let mut st = Stats::default();
    let mut stack: Vec<(Vec<u32>, u32)> = vec![(vec![], 0)];
    CTX.with(|c| c.borrow_mut().states.clear());
    while let Some((prefix, cost)) = stack.pop() {
        if st.executions >= limit {
            st.truncated = true;
            break;
        }
        begin(&prefix, policy);
        let go = body();
        let tr = trace();
        if tr.len() < prefix.len() {
            DIVERGED.with(|d| d.set(true));
            continue;
        }
        st.executions += 1;
        st.transitions += (tr.len() + 1 - prefix.len()) as u64;
        let h = tr.iter().fold(7u64, |h, c| {
            if c.kind == Kind::Chal || c.kind == Kind::Coin { h } else { mix(h ^ c.val as u64) }
        });
        note_state(h ^ transcript_digest());
        if !go {
            break;
        }
        // push in reverse so that earlier positions / smaller values come first
        for i in (prefix.len()..tr.len()).rev() {
            let c = match tr[i].mode {
                Mode::Full => cost,
                _ => cost + 1,
            };
            if c > policy.budget && tr[i].mode != Mode::Full {
                continue;
            }
            for a in alternatives(&tr[i]).into_iter().rev() {
                let mut pfx: Vec<u32> = tr[..i].iter().map(|c| c.val).collect();
                pfx.push(a);
                stack.push((pfx, c));
            }
        }
    }
    st.states = CTX.with(|c| c.borrow().states.len() as u64);
    st
}

fn transcript_digest() -> u64 {
    CTX.with(|c| {
        let c = c.borrow();
        c.draws.iter().fold(11u64, |h, d| mix(h ^ d.key as u64 ^ ((d.val as u64) << 40)))
    })
}

pub fn note_state(h: u64) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.states.len() < 4_000_000 {
            c.states.insert(h);
        }
    });
}

// ---- coins -----------------------------------------------------------------

/// only coins with `true` (or beyond the mask) are enumerated
pub fn set_coin_mask(m: Option<Vec<bool>>) {
    CTX.with(|c| c.borrow_mut().coin_mask = m);
}
pub fn coins_drawn() -> u32 {
    CTX.with(|c| c.borrow().ord[Kind::Coin as usize])
}

fn encode(val: u32, tag: u64, dest: &mut [u8]) {
    if EXPAND.with(|e| e.get()) {
        for (i, b) in dest.iter_mut().enumerate() {
            *b = (mix(mix(tag ^ val as u64) ^ (i as u64 / 8)) >> (8 * (i % 8))) as u8;
        }
    } else {
        for (i, b) in dest.iter_mut().enumerate() {
            *b = if i < 4 { (val >> (8 * i)) as u8 } else { 0 };
        }
    }
}

/// Coins from the first one on again, not recorded as choices: each has its default value
/// plus the given shift.  `None` ends this.
pub fn quiet_coins(shifts: Option<&[(u32, u32)]>) {
    QUIET.with(|q| *q.borrow_mut() = shifts.map(|s| s.iter().cloned().collect()));
    CTX.with(|c| c.borrow_mut().ord[Kind::Coin as usize] = 0);
}

/// Entropy.  What is read at once is one coin, up to what a scalar needs.
pub fn coin_fill(dest: &mut [u8]) {
    if dest.len() > 64 {
        for c in dest.chunks_mut(64) {
            coin_fill(c);
        }
        return;
    }
    let quiet = QUIET.with(|q| {
        q.borrow().as_ref().map(|m| {
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                let o = c.ord[Kind::Coin as usize];
                c.ord[Kind::Coin as usize] += 1;
                let dom = COIN_DOM.with(|c| c.get());
                (default_val(c.policy.base, Kind::Coin, o, dom) + m.get(&o).copied().unwrap_or(0)) % dom
            })
        })
    });
    if let Some(v) = quiet {
        encode(v, 0x636f696e, dest);
        return;
    }
    let v = choose(Kind::Coin, COIN_DOM.with(|c| c.get()));
    encode(v, 0x636f696e, dest);
}

// ---- random oracle ---------------------------------------------------------

/// run something up to its first challenge (it panics there)
pub fn stopping<T>(f: impl FnOnce() -> T) -> T {
    STOP.with(|s| s.set(true));
    let r = f();
    STOP.with(|s| s.set(false));
    r
}
pub fn challenge_fill(key: u128, dest: &mut [u8]) {
    if let Some(raw) = RAW.with(|r| r.borrow().clone()) {
        RAWLEN.with(|l| l.set(dest.len()));
        for (i, b) in dest.iter_mut().enumerate() {
            *b = raw.get(i).copied().unwrap_or(0);
        }
        return;
    }
    enum A {
        Have(u32),
        Ask,
    }
    let a = CTX.with(|c| {
        let mut c = c.borrow_mut();
        match c.omode {
            OracleMode::ByState => match c.oracle.get(&key) {
                Some(v) => A::Have(*v),
                None => A::Ask,
            },
            OracleMode::Script => {
                let i = c.script_pos;
                c.script_pos += 1;
                match c.script.get(i) {
                    Some(v) => A::Have(*v),
                    None => A::Ask,
                }
            }
        }
    });
    let v = match a {
        A::Have(v) => v,
        A::Ask => choose(Kind::Chal, CHAL_DOM.with(|c| c.get())) + CHAL_OFF.with(|c| c.get()),
    };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.omode == OracleMode::ByState {
            c.oracle.insert(key, v);
        }
        c.draws.push(Draw { key, val: v, len: dest.len() });
    });
    if STOP.with(|s| s.get()) {
        panic!("stopped at a challenge");
    }
    note_state(mix(key as u64 ^ v as u64));
    encode(v, 0x6368616c, dest);
    let k = DRAWN.with(|d| {
        let k = d.get();
        d.set(k + 1);
        k
    });
    if let Some((ord, byte, mask)) = XOR.with(|x| x.get()) {
        if ord == k {
            if let Some(b) = dest.get_mut(byte) {
                *b ^= mask;
            }
        }
    }
}

/// From now on flip bits in one byte of the k-th challenge drawn.
pub fn set_challenge_xor(x: Option<(u32, usize, u8)>) {
    DRAWN.with(|d| d.set(0));
    STOP.with(|s| s.set(false));
    XOR.with(|c| c.set(x));
}

pub fn oracle_script(vals: &[u32]) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.omode = OracleMode::Script;
        c.script = vals.to_vec();
        c.script_pos = 0;
    });
}
/// start ordinals and oracle afresh (choices so far stay recorded)
pub fn restart() {
    FRESH.with(|c| c.set(0));
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.ord = [0; 4];
        c.omode = OracleMode::ByState;
        c.oracle.clear();
        c.draws.clear();
    });
}
/// the next challenges have exactly these bytes
pub fn set_raw_challenges(v: Option<Vec<u8>>) {
    RAW.with(|r| *r.borrow_mut() = v);
}
pub fn oracle_by_state() {
    CTX.with(|c| c.borrow_mut().omode = OracleMode::ByState);
}
pub fn raw_len() -> usize {
    RAWLEN.with(|l| l.get())
}
pub fn chal_domain() -> (u32, u32) {
    (CHAL_OFF.with(|c| c.get()), CHAL_DOM.with(|c| c.get()))
}
pub fn take_draws() -> Vec<Draw> {
    CTX.with(|c| std::mem::take(&mut c.borrow_mut().draws))
}
pub fn note_absorb() {
    CTX.with(|c| c.borrow_mut().absorbed += 1);
}
