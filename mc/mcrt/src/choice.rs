//! Stateless depth-first exploration over choice sequences, with replay and per-kind deviation budgets.
//! One execution is active per process at a time; under the controlled scheduler only the logical thread
//! holding the token touches this state.
use std::cell::UnsafeCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    /// environment data (random draws), every alternative is equally default
    Data = 0,
    /// pre-emption of a runnable logical thread
    Preempt = 1,
    /// which thread runs when the current one blocked or ended
    Switch = 2,
    /// work stealing in a fork-join pool
    Steal = 3,
    /// message matching / reduction order
    Msg = 4,
}
const KINDS: usize = 5;

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    /// how many non-default answers of each kind one execution may contain
    pub budget: [u32; KINDS],
    pub max_execs: u64,
    /// execution length horizon (choice points)
    pub max_len: usize,
}
impl Limits {
    pub fn all() -> Self {
        Limits {
            budget: [u32::MAX; KINDS],
            max_execs: u64::MAX,
            max_len: 2_000_000,
        }
    }
    pub fn with(mut self, k: Kind, b: u32) -> Self {
        self.budget[k as usize] = b;
        self
    }
    pub fn cap(mut self, m: u64) -> Self {
        self.max_execs = m;
        self
    }
}

#[derive(Clone, Copy, Debug)]
struct Rec {
    n: u32,
    avail: u32,
    taken: u32,
    kind: Kind,
}

#[derive(Default, Clone, Debug)]
pub struct Explored {
    pub execs: u64,
    pub transitions: u64,
    /// distinct choice-tree nodes at which a fingerprint was taken and not seen before
    pub states: u64,
    /// executions cut short because the state reached had been expanded before
    pub merged: u64,
    pub max_points: u64,
    pub capped: bool,
    /// message, choice sequence
    pub violation: Option<(String, Vec<u32>)>,
}

struct Exec {
    active: bool,
    trace: Vec<Rec>,
    replay: usize,
    pos: usize,
    frozen: bool,
    used: [u32; KINDS],
    limits: Limits,
    seen: HashMap<u64, ([u32; 3], u32)>,
    nth: u32,
    new_states: u64,
    merged: u64,
    // stream used when no exploration is active
    lcg: u64,
    script: Option<Vec<u32>>,
    script_pos: usize,
    script_log: Vec<u32>,
    floats: Vec<u64>,
    merge_shuffles: bool,
    observer: Option<Box<dyn FnMut(&[u8], usize)>>,
    shuffles: u64,
    ordinal: u64,
    forced: Option<(u64, Vec<u64>, Vec<u32>)>,
    marks: Vec<u64>,
    skipped: std::collections::HashSet<u64>,
    restart: bool,
    data_log: Vec<u32>,
    data_again: Option<usize>,
}
struct G(UnsafeCell<Option<Exec>>);
unsafe impl Sync for G {}
static EXEC: G = G(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
fn ex() -> &'static mut Exec {
    unsafe {
        let o = &mut *EXEC.0.get();
        o.get_or_insert_with(|| Exec {
            active: false,
            trace: Vec::new(),
            replay: 0,
            pos: 0,
            frozen: false,
            used: [0; KINDS],
            limits: Limits::all(),
            seen: HashMap::new(),
            nth: 0,
            new_states: 0,
            merged: 0,
            lcg: 0x1234_5678_9abc_def1,
            script: std::env::var("MC_SCRIPT").ok().map(|s| {
                s.split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().expect("MC_SCRIPT"))
                    .collect()
            }),
            script_pos: 0,
            script_log: Vec::new(),
            floats: match std::env::var("MC_FLOATS") {
                Ok(s) => s
                    .split(',')
                    .map(|x| x.parse().expect("MC_FLOATS"))
                    .collect(),
                Err(_) => vec![0, 1 << 52, 1 << 51, 3 << 51, (1 << 53) - 1],
            },
            merge_shuffles: false,
            observer: None,
            shuffles: 0,
            ordinal: 0,
            forced: None,
            marks: vec![],
            skipped: Default::default(),
            restart: false,
            data_log: Vec::new(),
            data_again: None,
        })
    }
}

/// A divergence while replaying means some nondeterminism is not controlled: never a verdict.
pub fn machinery_error(msg: &str) -> ! {
    eprintln!("MACHINERY-ERROR {msg}");
    crate::drv::child_error(msg);
    unsafe { libc::_exit(2) }
}

pub fn active() -> bool {
    ex().active
}

/// true if nobody explores and no script is given: draws come from a fixed stream
pub fn free_stream() -> Option<u64> {
    let e = ex();
    if e.active || e.script.is_some() {
        return None;
    }
    e.lcg = e
        .lcg
        .wrapping_mul(6364136223846793005)
        .wrapping_add(1442695040888963407);
    let mut x = e.lcg;
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
    x ^= x >> 33;
    Some(x)
}
pub fn reseed_free_stream(s: u64) {
    ex().lcg = s ^ 0x1234_5678_9abc_def1;
}

/// Ask the explorer. Answer 0 is the default.
pub fn choose(kind: Kind, n: usize) -> usize {
    let v = choose_raw(kind, n);
    if n > 1 && kind != Kind::Preempt && kind != Kind::Switch {
        crate::sched::note(v as u64);
        crate::fiber::note(v as u64);
    }
    v
}
fn choose_raw(kind: Kind, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let e = ex();
    if !e.active {
        if e.script.is_some() {
            // stand-alone process driven by MC_SCRIPT; the arities met go to MC_LOG
            let i = e.script_pos;
            e.script_pos += 1;
            let v = e.script.as_ref().unwrap().get(i).copied().unwrap_or(0);
            if v as usize >= n {
                eprintln!("MACHINERY-ERROR script choice out of range");
                unsafe { libc::_exit(99) }
            }
            e.script_log.push(n as u32);
            if let Ok(p) = std::env::var("MC_LOG") {
                let s: Vec<String> = e.script_log.iter().map(|x| x.to_string()).collect();
                let _ = std::fs::write(p, s.join(","));
            }
            return v as usize;
        }
        return match kind {
            Kind::Data => (free_stream().unwrap() % n as u64) as usize,
            _ => 0,
        };
    }
    if kind == Kind::Data {
        if let Some(i) = &mut e.data_again {
            let v = e.data_log.get(*i).copied().unwrap_or(0);
            *i += 1;
            return (v as usize).min(n - 1);
        }
        let v = explored(kind, n);
        ex().data_log.push(v as u32);
        return v;
    }
    explored(kind, n)
}
/// The random draws from here to the end of the execution are those made so far, over again.
/// Returns how many there are.
pub fn repeat_data() -> usize {
    let e = ex();
    e.data_again = Some(0);
    e.data_log.len()
}
/// draws made since `repeat_data`
pub fn repeated() -> usize {
    ex().data_again.unwrap_or(0)
}
fn explored(kind: Kind, n: usize) -> usize {
    let e = ex();
    let k = kind as usize;
    if e.limits.budget[k] == 0 {
        return 0; // not explored, hence not recorded either
    }
    if e.pos < e.replay {
        let r = e.trace[e.pos];
        if r.n == 0 {
            // forced replay from a file: arity unknown
            if r.taken as usize >= n {
                machinery_error("forced choice out of range");
            }
        } else if r.n as usize != n || r.kind != kind {
            machinery_error(&format!(
                "replay diverged at choice {}: recorded {:?}/{} met {:?}/{}",
                e.pos, r.kind, r.n, kind, n
            ));
        }
        e.pos += 1;
        if r.taken != 0 {
            e.used[k] += 1;
        }
        return r.taken as usize;
    }
    let avail = if e.frozen || e.used[k] >= e.limits.budget[k] {
        1
    } else {
        n as u32
    };
    if e.trace.len() >= e.limits.max_len {
        machinery_error("execution exceeds the choice horizon");
    }
    e.trace.push(Rec {
        n: n as u32,
        avail,
        taken: 0,
        kind,
    });
    e.pos += 1;
    0
}

/// Report the state reached; if it was expanded before with at least the remaining budgets of
/// pre-emptions, steals and message reorderings, no new alternatives are opened below it in this execution. Only call where equal
/// fingerprints really have equal futures.
pub fn state(fingerprint: impl FnOnce() -> u64) {
    let e = ex();
    if !e.active || e.frozen || e.pos < e.replay {
        return;
    }
    let fp = fingerprint();
    let e = ex();
    let left = [
        e.limits.budget[Kind::Preempt as usize].saturating_sub(e.used[Kind::Preempt as usize]),
        e.limits.budget[Kind::Steal as usize].saturating_sub(e.used[Kind::Steal as usize]),
        e.limits.budget[Kind::Msg as usize].saturating_sub(e.used[Kind::Msg as usize]),
    ];
    match e.seen.get_mut(&fp) {
        None => {
            e.seen.insert(fp, (left, e.nth));
            e.new_states += 1;
        }
        Some((l, nth)) => {
            if *nth == e.nth {
                // a fingerprint that leaves out progress would make an execution cut itself short
                machinery_error("one execution reached the same state twice");
            }
            if (0..3).all(|i| l[i] >= left[i]) {
                e.frozen = true;
                e.merged += 1;
            } else if (0..3).all(|i| left[i] >= l[i]) {
                *l = left;
                *nth = e.nth;
            }
        }
    }
}

pub fn budget(k: Kind) -> u32 {
    ex().limits.budget[k as usize]
}
pub fn current_trace() -> Vec<u32> {
    ex().trace.iter().map(|r| r.taken).collect()
}
/// ordinal of the latest exploration in this process' current unit
pub fn ordinal() -> u64 {
    ex().ordinal
}
pub fn reset_ordinal() {
    ex().ordinal = 0;
}
pub fn points() -> usize {
    ex().pos
}

fn begin() {
    let e = ex();
    e.active = true;
    e.nth = e.nth.wrapping_add(1);
    e.pos = 0;
    e.frozen = false;
    e.used = [0; KINDS];
    e.shuffles = 0;
    e.data_log.clear();
    e.data_again = None;
}
fn end() {
    let e = ex();
    e.active = false;
    if e.pos < e.replay {
        machinery_error(&format!(
            "replay ended early: {} of {} choices",
            e.pos, e.replay
        ));
    }
}

/// Facts about the program that the choice points depend on, found out during an exploration.
pub fn marked(x: u64) -> bool {
    let m = &ex().marks;
    m.contains(&x) || m.contains(&u64::MAX)
}
/// A new one: the choice points of later executions will differ from those so far; explore again from the start.
pub fn mark(x: u64) {
    let e = ex();
    if e.skipped.contains(&x) {
        e.restart = true;
    }
    e.marks.push(if e.marks.len() < 64 { x } else { u64::MAX });
}
/// no choice point was made because of the absence of this fact
pub fn skip(x: u64) {
    ex().skipped.insert(x);
}
/// the facts, as a prefix of a choice sequence
pub fn marks_text() -> String {
    ex().marks.iter().map(|m| format!("w{m},")).collect()
}

/// Run `f` once per choice sequence. `f` returns Err(description) on a property violation.
pub fn explore(limits: Limits, mut f: impl FnMut() -> Result<(), String>) -> Explored {
    let mut out = Explored::default();
    {
        let e = ex();
        assert!(!e.active, "nested exploration");
        e.limits = limits;
        e.trace.clear();
        e.replay = 0;
        e.seen.clear();
        e.new_states = 0;
        e.merged = 0;
        e.ordinal += 1;
        e.marks.clear();
        e.skipped.clear();
        if let Some((k, marks, ch)) = e.forced.clone() {
            if k != e.ordinal {
                return out;
            }
            e.marks = marks;
            e.trace = ch
                .iter()
                .map(|&c| Rec {
                    n: 0,
                    avail: 1,
                    taken: c,
                    kind: Kind::Data,
                })
                .collect();
            e.replay = ch.len();
            begin();
            let r = f();
            end();
            out.execs = 1;
            out.violation = r.err().map(|m| (m, ch));
            return out;
        }
    }
    if crate::drv::unit_over() {
        out.capped = true;
        return out;
    }
    loop {
        begin();
        let r = f();
        end();
        out.execs += 1;
        crate::drv::heartbeat();
        {
            let e = ex();
            // edges of the choice tree not walked before: everything from the branched choice on
            let fresh = e.trace.len() - e.replay.saturating_sub(1).min(e.trace.len());
            out.transitions += fresh as u64;
            out.max_points = out.max_points.max(e.trace.len() as u64);
        }
        if std::mem::take(&mut ex().restart) {
            let e = ex();
            e.trace.clear();
            e.seen.clear();
            e.replay = 0;
            continue;
        }
        if let Err(msg) = r {
            let tr = current_trace();
            // confirm: the same choices must fail in the same way
            ex().replay = tr.len();
            begin();
            let again = f();
            end();
            if again.as_ref().err() != Some(&msg) {
                machinery_error(&format!(
                    "violation not reproducible: first {msg:?}, then {again:?}"
                ));
            }
            out.violation = Some((msg, tr));
            break;
        }
        let e = ex();
        while let Some(l) = e.trace.last() {
            if l.taken + 1 < l.avail {
                break;
            }
            e.trace.pop();
        }
        match e.trace.last_mut() {
            None => break,
            Some(l) => {
                l.taken += 1;
                e.replay = e.trace.len();
            }
        }
        if out.execs >= limits.max_execs || (out.execs % 64 == 0 && crate::drv::unit_over()) {
            out.capped = true;
            break;
        }
    }
    let e = ex();
    out.states = e.new_states;
    out.merged = e.merged;
    e.trace.clear();
    e.replay = 0;
    out
}

/// Replay mode: only the `k`-th exploration of the process runs, once, under the given choices.
pub fn force(k: u64, choices: &str) {
    let it = || choices.split(',').filter(|s| !s.is_empty());
    let marks = it().filter_map(|s| s.strip_prefix('w')).map(|s| s.parse().unwrap());
    let ch = it().filter(|s| !s.starts_with('w')).map(|s| s.parse().unwrap());
    ex().forced = Some((k, marks.collect(), ch.collect()));
}

/// Values a uniform draw from [0,1) can have, in units of 2^-53.
pub fn set_floats(v: &[u64]) {
    ex().floats = v.to_vec();
}
pub fn float53() -> u64 {
    let n = ex().floats.len();
    let k = choose(Kind::Data, n);
    ex().floats[k]
}
/// Treat the multiset of elements about to be shuffled, with the number of shuffles so far, as the
/// state of the execution (sound where nothing else is carried from one shuffle to the next).
pub fn merge_shuffles(on: bool) {
    ex().merge_shuffles = on;
}
pub fn shuffling(b: &[u8], size: usize) {
    let e = ex();
    if !e.active {
        return;
    }
    if let Some(f) = e.observer.as_mut() {
        f(b, size);
    }
    e.shuffles += 1;
    if !e.merge_shuffles {
        return;
    }
    let mut h: Vec<u64> = b.chunks(size).map(|c| crate::fx::bytes(3, c)).collect();
    h.sort_unstable();
    let in_fiber = crate::fiber::current().is_some();
    let mut f = crate::fx::mix(0x5457, if in_fiber { 0 } else { e.shuffles });
    for x in h {
        f = crate::fx::mix(f, x);
    }
    if in_fiber {
        f = crate::fiber::shuffled(f);
    }
    state(|| f);
}
/// Show the bytes of every slice of plain words that is about to be shuffled (with the element size).
pub fn observe_shuffles(f: Option<Box<dyn FnMut(&[u8], usize)>>) {
    ex().observer = f;
}
/// shuffles met by the current or last execution
pub fn shuffles() -> u64 {
    ex().shuffles
}
