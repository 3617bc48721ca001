//! The simulated MPI run: ranks, messages, collectives.
use mcrt::choice::{choose, state, Kind};
use mcrt::fiber;
use mcrt::fx::{bytes, mix};
use std::cell::UnsafeCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const ANY: i32 = -1;

#[derive(Clone, Default)]
pub struct Ty {
    /// (offset, basic type) of every element
    pub elems: Vec<(isize, u8)>,
    pub extent: isize,
    pub align: isize,
}
pub const SIZES: [usize; 11] = [1, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8];
pub const NAMES: [&str; 11] = ["bool", "f32", "f64", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"];

pub type UserFn = unsafe extern "C" fn(*mut std::os::raw::c_void, *mut std::os::raw::c_void, *mut i32, *mut i32);
#[derive(Clone, Copy)]
pub struct UOp {
    pub f: UserFn,
    pub commute: bool,
}

pub struct Msg {
    pub src: usize,
    pub ctx: u64,
    pub tag: i32,
    pub kinds: Vec<u8>,
    pub data: Vec<u8>,
    pub id: u64,
}
#[derive(Clone)]
pub struct Comm {
    pub ctx: u64,
    pub ranks: Vec<usize>,
}
pub struct Contribution {
    pub kind: &'static str,
    pub root: i32,
    pub op: i32,
    /// signature of what every rank has to agree on
    pub sig: Vec<u8>,
    /// element memory as it is (reductions) or packed bytes
    pub data: Vec<u64>,
    pub len: usize,
    pub parts: Vec<Vec<u8>>,
    pub part_kinds: Vec<Vec<u8>>,
    pub count: i32,
    pub dt: i32,
    pub key: (i32, i32),
}
pub struct Inst {
    pub of: Vec<Option<Contribution>>,
    pub arrived: usize,
    pub result: Option<Vec<u64>>,
    /// every result the reduction of all contributions may have
    pub results: Option<(Vec<Vec<u64>>, bool)>,
    pub newctx: u64,
}
pub enum Req {
    Done,
    Send(u64),
    Recv { buf: *mut u8, count: i32, dt: i32, src: i32, tag: i32, comm: i32 },
    Mrecv { buf: *mut u8, count: i32, dt: i32, msg: i32 },
    Coll { ready: Box<dyn FnMut() -> bool>, fin: Box<dyn FnOnce()> },
}
#[derive(Default)]
pub struct RankState {
    pub inited: bool,
    pub finalized: bool,
    started: bool,
    checked: u64,
    why: String,
    /// waiting for any source: context, tag
    wild: Option<(u64, i32)>,
    granted: Option<usize>,
    pub seq: HashMap<u64, usize>,
    steps: u64,
    pub comms: Vec<Option<Comm>>,
    polls: u64,
}
pub struct World {
    pub size: usize,
    pub sync: bool,
    pub ranks: Vec<RankState>,
    pub queue: Vec<VecDeque<Msg>>,
    pub unmatched: HashSet<u64>,
    pub probed: Vec<Option<Msg>>,
    pub reqs: Vec<Option<Req>>,
    pub colls: HashMap<u64, Vec<Inst>>,
    pub version: u64,
    pub next_id: u64,
    pub next_ctx: u64,
    pub violation: Option<String>,
    pub messages: u64,
    /// default order of matching: by this rank of the sender; empty: first come, first served
    pub prio: Vec<usize>,
}
pub struct Types {
    pub tys: Vec<Ty>,
    pub ops: Vec<Option<UOp>>,
}
struct G<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for G<T> {}
static WORLD: G<World> = G(UnsafeCell::new(None));
static TYPES: G<Types> = G(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    match unsafe { (*WORLD.0.get()).as_mut() } {
        Some(w) => w,
        None => mcrt::choice::machinery_error("MPI call outside a simulated run"),
    }
}
/// datatypes and operations live as long as the process (the mpi crate caches them in statics)
#[allow(clippy::mut_from_ref)]
pub fn types() -> &'static mut Types {
    unsafe {
        (*TYPES.0.get()).get_or_insert_with(|| Types {
            tys: (0..SIZES.len())
                .map(|k| Ty {
                    elems: vec![(0, k as u8)],
                    extent: SIZES[k] as isize,
                    align: SIZES[k] as isize,
                })
                .collect(),
            ops: (0..16).map(|_| None).collect(),
        })
    }
}

pub fn me() -> usize {
    match fiber::current() {
        Some(r) => r,
        None => mcrt::choice::machinery_error("MPI call outside a rank"),
    }
}

/// the current rank will never run again; the run fails with this message
pub fn violate(m: String) -> ! {
    let w = w();
    if w.violation.is_none() {
        w.violation = Some(format!("process {}: {m}", me()));
    }
    loop {
        fiber::park();
    }
}
/// every communication call comes through here
pub fn enter(what: &str) -> usize {
    let r = me();
    let s = &mut w().ranks[r];
    s.steps += 1;
    mcrt::drv::heartbeat();
    if !s.inited {
        violate(format!("{what} before MPI was initialized"));
    }
    if s.finalized {
        violate(format!("{what} after MPI was finalized"));
    }
    r
}
pub fn block_until(why: impl FnOnce() -> String, mut cond: impl FnMut() -> bool) {
    let r = me();
    if cond() {
        return;
    }
    w().ranks[r].why = why();
    loop {
        let w = w();
        w.ranks[r].checked = w.version;
        fiber::park();
        if cond() {
            self::w().ranks[r].why.clear();
            return;
        }
    }
}
pub fn bump() {
    w().version += 1;
}
/// let the others go on (polling calls)
pub fn poll() {
    let r = me();
    let w = w();
    w.ranks[r].polls += 1;
    if w.ranks[r].polls > 20_000 {
        violate("polls forever without progress".into());
    }
    w.ranks[r].checked = u64::MAX;
    fiber::park();
}

pub fn comm(h: i32) -> Comm {
    let r = me();
    match w().ranks[r].comms.get(h as usize).cloned().flatten() {
        Some(c) => c,
        None => violate(format!("invalid communicator {h}")),
    }
}
pub fn rank_in(c: &Comm) -> usize {
    let r = me();
    match c.ranks.iter().position(|&x| x == r) {
        Some(i) => i,
        None => violate("calls on a communicator it is not part of".into()),
    }
}

pub fn ty(h: i32) -> &'static Ty {
    match types().tys.get(h as usize) {
        Some(t) => t,
        None => violate(format!("invalid datatype {h}")),
    }
}
pub fn kinds(dt: i32, count: i32) -> Vec<u8> {
    let t = ty(dt);
    let mut v = Vec::with_capacity(t.elems.len() * count.max(0) as usize);
    for _ in 0..count.max(0) {
        v.extend(t.elems.iter().map(|e| e.1));
    }
    v
}
/// # Safety: the buffer holds `count` elements
pub unsafe fn pack(buf: *const u8, count: i32, dt: i32) -> Vec<u8> {
    let t = ty(dt);
    let mut v = vec![];
    for k in 0..count.max(0) as isize {
        for &(o, b) in &t.elems {
            let p = buf.offset(k * t.extent + o);
            mcrt::watch(p as usize, SIZES[b as usize], false);
            v.extend_from_slice(std::slice::from_raw_parts(p, SIZES[b as usize]));
        }
    }
    v
}
/// # Safety: the buffer has room for `count` elements
pub unsafe fn unpack(data: &[u8], buf: *mut u8, count: i32, dt: i32) {
    let t = ty(dt);
    let mut at = 0;
    for k in 0..count.max(0) as isize {
        for &(o, b) in &t.elems {
            let s = SIZES[b as usize];
            if at + s > data.len() {
                return;
            }
            mcrt::watch(buf.offset(k * t.extent + o) as usize, s, true);
            std::ptr::copy_nonoverlapping(data[at..].as_ptr(), buf.offset(k * t.extent + o), s);
            at += s;
        }
    }
}
pub fn show(k: &[u8]) -> String {
    if k.len() > 8 && k.iter().all(|x| *x == k[0]) {
        return format!("{} x {}", k.len(), NAMES[k[0] as usize]);
    }
    let v: Vec<&str> = k.iter().take(12).map(|x| NAMES[*x as usize]).collect();
    format!("[{}]{}", v.join(" "), if k.len() > 12 { format!(" ({} elements)", k.len()) } else { String::new() })
}

// ---- point to point ----
pub fn send_start(data: Vec<u8>, kinds: Vec<u8>, dest: i32, tag: i32, c: &Comm) -> u64 {
    let r = me();
    if dest < 0 || dest as usize >= c.ranks.len() {
        violate(format!("send to invalid rank {dest}"));
    }
    if tag < 0 {
        violate(format!("send with invalid tag {tag}"));
    }
    let w = w();
    w.next_id += 1;
    let id = w.next_id;
    w.messages += 1;
    w.queue[c.ranks[dest as usize]].push_back(Msg {
        src: r,
        ctx: c.ctx,
        tag,
        kinds,
        data,
        id,
    });
    w.unmatched.insert(id);
    w.version += 1;
    id
}
pub fn send(data: Vec<u8>, kinds: Vec<u8>, dest: i32, tag: i32, c: &Comm, sync: bool) {
    let id = send_start(data, kinds, dest, tag, c);
    if sync {
        block_until(|| format!("its send to {dest} (tag {tag}) to be received"), || !w().unmatched.contains(&id));
    }
}
fn find(r: usize, ctx: u64, src: usize, tag: i32) -> Option<usize> {
    w().queue[r].iter().position(|m| m.ctx == ctx && m.src == src && (tag == ANY || m.tag == tag))
}
/// wait for a matching message; returns the world rank of its sender
pub fn await_source(src: i32, tag: i32, c: &Comm) -> usize {
    let r = me();
    if src == ANY {
        w().ranks[r].wild = Some((c.ctx, tag));
        block_until(|| "a message from any process".into(), || w().ranks[r].granted.is_some());
        let s = &mut w().ranks[r];
        s.wild = None;
        s.granted.take().unwrap()
    } else {
        if src < 0 || src as usize >= c.ranks.len() {
            violate(format!("receive from invalid rank {src}"));
        }
        let s = c.ranks[src as usize];
        block_until(
            || format!("a message from {src}{}", if tag == ANY { String::new() } else { format!(" with tag {tag}") }),
            || find(r, c.ctx, s, tag).is_some(),
        );
        s
    }
}
pub fn take(s: usize, tag: i32, c: &Comm) -> Msg {
    let r = me();
    let i = find(r, c.ctx, s, tag).expect("message");
    let w = w();
    let m = w.queue[r].remove(i).unwrap();
    w.unmatched.remove(&m.id);
    w.version += 1;
    fiber::note(mix(bytes(m.src as u64, &m.data), m.tag as u64));
    m
}
pub fn peek(s: usize, tag: i32, c: &Comm) -> &'static Msg {
    let r = me();
    let i = find(r, c.ctx, s, tag).expect("message");
    fiber::note(s as u64 ^ 0x9e37);
    &w().queue[r][i]
}
pub fn iprobe(src: i32, tag: i32, c: &Comm) -> Option<usize> {
    let r = me();
    poll();
    let v: Vec<usize> = c
        .ranks
        .iter()
        .enumerate()
        .filter(|(i, _)| src == ANY || src == *i as i32)
        .map(|(_, &s)| s)
        .filter(|&s| find(r, c.ctx, s, tag).is_some())
        .collect();
    if v.is_empty() {
        return None;
    }
    Some(v[choose(Kind::Msg, v.len())])
}
pub fn available(src: i32, tag: i32, c: &Comm) -> bool {
    let r = me();
    (0..c.ranks.len()).any(|i| (src == ANY || src == i as i32) && find(r, c.ctx, c.ranks[i], tag).is_some())
}
/// has this process posted a blocking receive
pub fn receiving(r: usize) -> bool {
    w().ranks[r].wild.is_some() || w().ranks[r].why.starts_with("a message")
}
/// check a received message against the receiver's buffer description
pub fn check_recv(m: &Msg, count: i32, dt: i32) {
    let t = ty(dt);
    let cap = t.elems.len() * count.max(0) as usize;
    if m.kinds.len() > cap {
        violate(format!(
            "message from process {} truncated: {} sent, room for {}",
            m.src,
            show(&m.kinds),
            show(&kinds(dt, count))
        ));
    }
    if !t.elems.is_empty() && m.kinds.iter().enumerate().any(|(i, k)| *k != t.elems[i % t.elems.len()].1) {
        violate(format!(
            "type mismatch: process {} sent {}, received as {}",
            m.src,
            show(&m.kinds),
            show(&kinds(dt, count))
        ));
    }
}

// ---- collectives ----
pub fn coll_start(c: &Comm, x: Contribution) -> usize {
    let n = c.ranks.len();
    let my = rank_in(c);
    let r = me();
    let w = w();
    let k = w.ranks[r].seq.entry(c.ctx).or_insert(0);
    let i = *k;
    *k += 1;
    if x.root != ANY && (x.root < 0 || x.root as usize >= n) {
        violate(format!("{} with invalid root {}", x.kind, x.root));
    }
    let v = w.colls.entry(c.ctx).or_default();
    if v.len() <= i {
        w.next_ctx += 1;
        v.push(Inst {
            of: (0..n).map(|_| None).collect(),
            arrived: 0,
            result: None,
            results: None,
            newctx: w.next_ctx,
        });
    }
    let inst = &mut v[i];
    if let Some((o, y)) = inst.of.iter().enumerate().find_map(|(o, y)| y.as_ref().map(|y| (o, y))) {
        if y.kind != x.kind {
            let m = format!("calls {} while process {o} calls {}", x.kind, y.kind);
            violate(m);
        }
        if y.root != x.root {
            let m = format!("calls {} with root {} while process {o} uses root {}", x.kind, x.root, y.root);
            violate(m);
        }
        if y.op != x.op {
            let m = format!("calls {} with another operation than process {o}", x.kind);
            violate(m);
        }
        if y.sig != x.sig {
            let m = format!("calls {} with {} while process {o} uses {}", x.kind, show(&x.sig), show(&y.sig));
            violate(m);
        }
    }
    inst.of[my] = Some(x);
    inst.arrived += 1;
    w.version += 1;
    i
}
pub fn inst(c: &Comm, i: usize) -> &'static mut Inst {
    &mut w().colls.get_mut(&c.ctx).unwrap()[i]
}
pub fn all_arrived(c: &Comm, i: usize) -> bool {
    inst(c, i).arrived == c.ranks.len()
}
/// inout = in op inout, on element memory
pub fn apply(op: i32, input: &[u64], inout: &mut [u64], count: i32, dt: i32) {
    if op >= 16 {
        let Some(u) = types().ops.get(op as usize).copied().flatten() else {
            violate(format!("invalid operation {op}"))
        };
        let mut a = input.to_vec();
        let (mut c, mut d) = (count, dt);
        unsafe { (u.f)(a.as_mut_ptr() as _, inout.as_mut_ptr() as _, &mut c, &mut d) };
        return;
    }
    let t = ty(dt);
    for k in 0..count as isize {
        for &(o, b) in &t.elems {
            let at = (k * t.extent + o) as usize;
            unsafe {
                let p = (input.as_ptr() as *const u8).add(at);
                let q = (inout.as_mut_ptr() as *mut u8).add(at);
                macro_rules! num {
                    ($t:ty) => {{
                        let (x, y) = (*(p as *const $t), *(q as *const $t));
                        *(q as *mut $t) = match op {
                            1 => if x > y { x } else { y },
                            2 => if x < y { x } else { y },
                            3 => x + y,
                            4 => x * y,
                            _ => violate("operation not defined for this type".into()),
                        }
                    }};
                }
                macro_rules! int {
                    ($t:ty) => {{
                        let (x, y) = (*(p as *const $t), *(q as *const $t));
                        *(q as *mut $t) = match op {
                            1 => x.max(y),
                            2 => x.min(y),
                            3 => x.wrapping_add(y),
                            4 => x.wrapping_mul(y),
                            5 => (x != 0 && y != 0) as $t,
                            6 => x & y,
                            7 => (x != 0 || y != 0) as $t,
                            8 => x | y,
                            9 => ((x != 0) != (y != 0)) as $t,
                            _ => x ^ y,
                        }
                    }};
                }
                match b {
                    1 => num!(f32),
                    2 => num!(f64),
                    0 | 7 => int!(u8),
                    3 => int!(i8),
                    4 => int!(i16),
                    5 => int!(i32),
                    6 => int!(i64),
                    8 => int!(u16),
                    9 => int!(u32),
                    _ => int!(u64),
                }
            }
        }
    }
}
/// does the result of a reduction depend on the order at all
fn order_matters(op: i32, dt: i32) -> bool {
    match op {
        1 | 2 | 5.. if op < 16 => false,
        3 | 4 => ty(dt).elems.iter().any(|e| e.1 == 1 || e.1 == 2),
        _ => true,
    }
}
/// Every result of combining the contributions of the first `n` ranks, over all orders the declared properties of the
/// operation allow; the one from the lowest rank upwards comes first. Some(true): different ranks of a collective may
/// legitimately use different orders.
pub fn results(c: &Comm, i: usize, n: usize) -> (Vec<Vec<u64>>, bool) {
    let it = inst(c, i);
    let whole = n == it.of.len();
    if let (true, Some(r)) = (whole, &it.results) {
        return r.clone();
    }
    let x = it.of[0].as_ref().unwrap();
    let (op, count, dt) = (it.of[rank_in(c)].as_ref().unwrap().op_handle(), x.count, x.dt);
    let commute = op < 16 || types().ops.get(op as usize).copied().flatten().is_some_and(|u| u.commute);
    let parts: Vec<Vec<u64>> = it.of[..n].iter().map(|x| x.as_ref().unwrap().data.clone()).collect();
    let step = |parts: &[Vec<u64>], a: usize, b: usize| {
        let mut p = parts.to_vec();
        let src = p[a].clone();
        apply(op, &src, &mut p[b], count, dt);
        p.remove(a);
        p
    };
    let mut first = parts.clone();
    while first.len() > 1 {
        first = step(&first, 0, 1);
    }
    let mut out = vec![first.pop().unwrap()];
    // an associative operation that is also commutative where it has to be gives one result: checked on the values at hand
    // if they are closed under it (selections are)
    let regular = || {
        let mut set = parts.clone();
        set.sort_unstable();
        set.dedup();
        let k = set.len();
        let mut table = vec![0; k * k];
        for a in 0..k {
            for b in 0..k {
                let mut v = set[b].clone();
                apply(op, &set[a], &mut v, count, dt);
                match set.binary_search(&v) {
                    Ok(x) => table[a * k + b] = x,
                    Err(_) => return false,
                }
            }
        }
        let t = |a: usize, b: usize| table[a * k + b];
        (0..k).all(|a| (0..k).all(|b| (!commute || t(a, b) == t(b, a)) && (0..k).all(|c| t(t(a, b), c) == t(a, t(b, c)))))
    };
    if order_matters(op, dt) && !regular() {
        let mut seen: HashSet<Vec<Vec<u64>>> = HashSet::new();
        let mut todo = vec![parts];
        while let Some(p) = todo.pop() {
            let k = p.len();
            if k == 1 {
                if !out.contains(&p[0]) {
                    out.push(p[0].clone());
                }
                continue;
            }
            for a in 0..k {
                for b in 0..k {
                    if a == b || !commute && b != a + 1 {
                        continue;
                    }
                    let mut q = step(&p, a, b);
                    if commute {
                        q.sort_unstable();
                    }
                    if seen.insert(q.clone()) {
                        if seen.len() > 200_000 {
                            violate("too many reduction orders".into());
                        }
                        todo.push(q);
                    }
                }
            }
        }
        out[1..].sort_unstable();
    }
    let r = (out, op >= 16 && commute);
    if whole {
        inst(c, i).results = Some(r.clone());
    }
    r
}
/// combine the contributions of `n` ranks; the explorer decides the order
pub fn fold(c: &Comm, i: usize, n: usize) -> Vec<u64> {
    let (mut r, _) = results(c, i, n);
    let k = choose(Kind::Msg, r.len());
    r.swap_remove(k)
}
impl Contribution {
    fn op_handle(&self) -> i32 {
        self.key.0
    }
}
pub fn fingerprint() -> u64 {
    let w = w();
    let mut h = 0x3b1;
    for r in 0..w.size {
        h = mix(mix(h, fiber::history(r)), w.ranks[r].steps);
    }
    h
}

// ---- the run ----
/// Run `f(rank)` on `size` ranks. Err describes a deadlock, an erroneous call or a panic.
pub fn run<R>(size: usize, sync: bool, f: impl Fn(usize) -> R) -> Result<Vec<R>, String> {
    run_with(size, sync, &[], f)
}
/// `prio[r]`: the smaller, the earlier messages of rank `r` are matched by default (receives from any source)
pub fn run_with<R>(size: usize, sync: bool, prio: &[usize], f: impl Fn(usize) -> R) -> Result<Vec<R>, String> {
    let out: Rc<UnsafeCell<Vec<Option<R>>>> = Rc::new(UnsafeCell::new((0..size).map(|_| None).collect()));
    unsafe {
        *WORLD.0.get() = Some(World {
            size,
            sync,
            ranks: (0..size)
                .map(|_| RankState {
                    comms: vec![None, Some(Comm { ctx: 0, ranks: (0..size).collect() }), None],
                    ..RankState::default()
                })
                .collect(),
            queue: (0..size).map(|_| VecDeque::new()).collect(),
            unmatched: HashSet::new(),
            probed: vec![],
            reqs: vec![],
            colls: HashMap::new(),
            version: 1,
            next_id: 0,
            next_ctx: 1000,
            violation: None,
            messages: 0,
            prio: prio.to_vec(),
        })
    };
    for (r, s) in w().ranks.iter_mut().enumerate() {
        s.comms[2] = Some(Comm { ctx: 1 + r as u64, ranks: vec![r] });
    }
    let f: &dyn Fn(usize) -> R = &f;
    let jobs: Vec<Box<dyn FnOnce()>> = (0..size)
        .map(|r| {
            let out = out.clone();
            let b: Box<dyn FnOnce() + '_> = Box::new(move || match catch_unwind(AssertUnwindSafe(|| f(r))) {
                Ok(v) => unsafe { let o: &mut Vec<Option<R>> = &mut *out.get(); o[r] = Some(v) },
                Err(p) => {
                    let t = mcrt::drv::panic_text(&*p);
                    if w().violation.is_none() {
                        w().violation = Some(format!("process {r} panicked: {t}"));
                    }
                }
            });
            // the coroutines never run after this function returned
            unsafe { std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce()>>(b) }
        })
        .collect();
    fiber::prepare(jobs);
    let r = schedule(size);
    let res = match r {
        Err(m) => Err(m),
        Ok(()) => {
            let v = unsafe { std::mem::take(&mut *out.get()) };
            Ok(v.into_iter().map(|x| x.expect("result of a finished rank")).collect())
        }
    };
    fiber::prepare(vec![]);
    res
}
fn schedule(size: usize) -> Result<(), String> {
    loop {
        let mut ran = false;
        for r in 0..size {
            if fiber::done(r) {
                continue;
            }
            let w = w();
            let s = &mut w.ranks[r];
            if s.started && s.checked == w.version {
                continue;
            }
            s.started = true;
            ran = true;
            fiber::resume(r);
            if let Some(m) = crate::mc::w().violation.take() {
                return Err(m);
            }
            if fiber::done(r) {
                let s = &crate::mc::w().ranks[r];
                if s.inited && !s.finalized {
                    return Err(format!("process {r} ended without finalizing MPI"));
                }
            }
        }
        if ran {
            continue;
        }
        if (0..size).all(fiber::done) {
            return Ok(());
        }
        // quiescent: match one receive from any source
        let w = w();
        let mut opts: Vec<(u64, usize, usize)> = vec![];
        for r in 0..size {
            if fiber::done(r) || w.ranks[r].granted.is_some() {
                continue;
            }
            if let Some((ctx, tag)) = w.ranks[r].wild {
                for s in 0..size {
                    if let Some(i) = find(r, ctx, s, tag) {
                        opts.push((w.queue[r][i].id, r, s));
                    }
                }
            }
        }
        if opts.is_empty() {
            let who: Vec<String> = (0..size)
                .map(|r| {
                    if fiber::done(r) {
                        format!("process {r} has ended")
                    } else {
                        format!("process {r} waits for {}", w.ranks[r].why)
                    }
                })
                .collect();
            return Err(format!("deadlock: {}", who.join("; ")));
        }
        opts.sort_unstable_by_key(|&(id, r, s)| (w.prio.get(s).copied().unwrap_or(0), id, r));
        let mut h = fingerprint();
        if mcrt::choice::budget(Kind::Msg) != u32::MAX {
            // the default order is part of the state when deviations from it are counted
            for &(_, r, s) in &opts {
                h = mix(h, (r * 64 + s) as u64);
            }
        }
        state(|| h);
        let k = choose(Kind::Msg, opts.len());
        let (_, r, s) = opts[k];
        w.ranks[r].granted = Some(s);
        w.version += 1;
    }
}
