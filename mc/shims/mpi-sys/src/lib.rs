//! The C interface of MPI as the real `mpi` crate (rsmpi 0.6) uses it, on top of a simulated run ([`mc`]).
#![allow(non_snake_case, non_upper_case_globals, non_camel_case_types, clippy::all)]
pub mod mc;
mod unsupported;
pub use unsupported::*;

use mc::*;
use std::os::raw::{c_char, c_double, c_int, c_void};

pub type MPI_Comm = c_int;
pub type MPI_Datatype = c_int;
pub type MPI_Op = c_int;
pub type MPI_Request = c_int;
pub type MPI_Message = c_int;
pub type MPI_Group = c_int;
pub type MPI_Info = c_int;
pub type MPI_Errhandler = c_int;
pub type MPI_Aint = isize;
pub type MPI_Count = i64;
pub type MPI_User_function =
    Option<unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_int, *mut MPI_Datatype)>;
#[repr(C)]
#[derive(Debug, Default, Copy, Clone)]
pub struct MPI_Status {
    pub MPI_SOURCE: c_int,
    pub MPI_TAG: c_int,
    pub MPI_ERROR: c_int,
    pub _cancelled: c_int,
    /// bytes of payload
    pub _ucount: usize,
}

pub const MPI_UNDEFINED: i32 = -32766;
pub const MPI_MAX_OBJECT_NAME: u32 = 64;

macro_rules! consts { ($t:ty: $($n:ident = $v:expr),* $(,)?) => { $(pub static $n: $t = $v;)* } }
consts!(MPI_Datatype:
    RSMPI_C_BOOL = 0, RSMPI_FLOAT = 1, RSMPI_DOUBLE = 2,
    RSMPI_INT8_T = 3, RSMPI_INT16_T = 4, RSMPI_INT32_T = 5, RSMPI_INT64_T = 6,
    RSMPI_UINT8_T = 7, RSMPI_UINT16_T = 8, RSMPI_UINT32_T = 9, RSMPI_UINT64_T = 10,
    RSMPI_DATATYPE_NULL = -1);
consts!(MPI_Comm: RSMPI_COMM_NULL = 0, RSMPI_COMM_WORLD = 1, RSMPI_COMM_SELF = 2);
consts!(MPI_Op:
    RSMPI_MAX = 1, RSMPI_MIN = 2, RSMPI_SUM = 3, RSMPI_PROD = 4, RSMPI_LAND = 5, RSMPI_BAND = 6,
    RSMPI_LOR = 7, RSMPI_BOR = 8, RSMPI_LXOR = 9, RSMPI_BXOR = 10);
consts!(c_int:
    RSMPI_REQUEST_NULL = -1, RSMPI_MESSAGE_NULL = -1, RSMPI_MESSAGE_NO_PROC = -2,
    RSMPI_ANY_SOURCE = ANY, RSMPI_ANY_TAG = ANY, RSMPI_PROC_NULL = -2,
    RSMPI_GROUP_NULL = -1, RSMPI_GROUP_EMPTY = 0, RSMPI_INFO_NULL = -1, RSMPI_COMM_TYPE_SHARED = 1,
    RSMPI_THREAD_SINGLE = 0, RSMPI_THREAD_FUNNELED = 1, RSMPI_THREAD_SERIALIZED = 2, RSMPI_THREAD_MULTIPLE = 3,
    RSMPI_GRAPH = 1, RSMPI_CART = 2, RSMPI_DIST_GRAPH = 3, RSMPI_UNDEFINED = MPI_UNDEFINED,
    RSMPI_IDENT = 0, RSMPI_CONGRUENT = 1, RSMPI_SIMILAR = 2, RSMPI_UNEQUAL = 3,
    RSMPI_MAX_LIBRARY_VERSION_STRING = 64, RSMPI_MAX_PROCESSOR_NAME = 64,
    RSMPI_SUCCESS = 0);
pub const RSMPI_STATUS_IGNORE: *mut MPI_Status = std::ptr::null_mut();
pub const RSMPI_STATUSES_IGNORE: *mut MPI_Status = std::ptr::null_mut();

pub fn unsupported(what: &str) -> ! {
    mcrt::choice::machinery_error(&format!("unsupported MPI call {what}"))
}

pub unsafe fn RSMPI_Wtime() -> c_double {
    let r = me();
    let s = &mut w().ranks[r];
    s.seq.len() as f64
}
pub unsafe fn RSMPI_Wtick() -> c_double {
    1e-6
}

unsafe fn status(st: *mut MPI_Status, src: c_int, tag: c_int, bytes: usize) {
    if !st.is_null() {
        *st = MPI_Status {
            MPI_SOURCE: src,
            MPI_TAG: tag,
            MPI_ERROR: 0,
            _cancelled: 0,
            _ucount: bytes,
        };
    }
}
fn pos(c: &Comm, world_rank: usize) -> c_int {
    c.ranks.iter().position(|&x| x == world_rank).unwrap() as c_int
}
fn check_count(what: &str, n: c_int) {
    if n < 0 {
        violate(format!("{what} with negative count {n}"));
    }
}

// ---- environment ----
pub unsafe fn MPI_Init(_: *mut c_int, _: *mut *mut *mut c_char) -> c_int {
    let r = me();
    let s = &mut w().ranks[r];
    if s.finalized {
        violate("MPI initialized again after it was finalized".into());
    }
    if s.inited {
        violate("MPI initialized twice".into());
    }
    s.inited = true;
    0
}
pub unsafe fn MPI_Init_thread(
    a: *mut c_int,
    b: *mut *mut *mut c_char,
    required: c_int,
    provided: *mut c_int,
) -> c_int {
    *provided = required;
    MPI_Init(a, b)
}
pub unsafe fn MPI_Initialized(flag: *mut c_int) -> c_int {
    *flag = match mcrt::fiber::current() {
        Some(r) => w().ranks[r].inited as c_int,
        None => 0,
    };
    0
}
pub unsafe fn MPI_Finalized(flag: *mut c_int) -> c_int {
    *flag = match mcrt::fiber::current() {
        Some(r) => w().ranks[r].finalized as c_int,
        None => 1,
    };
    0
}
/// Returns at once: the caller may hold a process wide lock. What MPI would wait for here is
/// checked when the run is over.
pub unsafe fn MPI_Finalize() -> c_int {
    let r = enter("MPI_Finalize");
    w().ranks[r].finalized = true;
    bump();
    0
}
pub unsafe fn MPI_Query_thread(p: *mut c_int) -> c_int {
    *p = 0;
    0
}
pub unsafe fn MPI_Abort(_: MPI_Comm, code: c_int) -> c_int {
    enter("MPI_Abort");
    violate(format!("aborts all processes with code {code}"))
}
pub unsafe fn MPI_Get_version(v: *mut c_int, s: *mut c_int) -> c_int {
    *v = 3;
    *s = 1;
    0
}
pub unsafe fn MPI_Get_processor_name(name: *mut c_char, len: *mut c_int) -> c_int {
    let s = b"mc\0";
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, name, 3);
    *len = 2;
    0
}
pub unsafe fn MPI_Get_library_version(name: *mut c_char, len: *mut c_int) -> c_int {
    MPI_Get_processor_name(name, len)
}
pub unsafe fn MPI_Get_address(p: *const c_void, a: *mut MPI_Aint) -> c_int {
    *a = p as MPI_Aint;
    0
}

// ---- communicators ----
pub unsafe fn MPI_Comm_rank(c: MPI_Comm, r: *mut c_int) -> c_int {
    enter("MPI_Comm_rank");
    *r = rank_in(&comm(c)) as c_int;
    0
}
pub unsafe fn MPI_Comm_size(c: MPI_Comm, n: *mut c_int) -> c_int {
    enter("MPI_Comm_size");
    *n = comm(c).ranks.len() as c_int;
    0
}
fn new_comm(c: Comm) -> MPI_Comm {
    let v = &mut w().ranks[me()].comms;
    v.push(Some(c));
    v.len() as c_int - 1
}
pub unsafe fn MPI_Comm_dup(h: MPI_Comm, new: *mut MPI_Comm) -> c_int {
    enter("MPI_Comm_dup");
    let c = comm(h);
    let i = coll_start(&c, plain("MPI_Comm_dup", ANY));
    wait_coll(&c, i, Need::All);
    let ctx = inst(&c, i).newctx;
    *new = new_comm(Comm { ctx: ctx << 16, ranks: c.ranks });
    0
}
pub unsafe fn MPI_Comm_split(h: MPI_Comm, color: c_int, key: c_int, new: *mut MPI_Comm) -> c_int {
    enter("MPI_Comm_split");
    let c = comm(h);
    let i = coll_start(
        &c,
        Contribution {
            key: (color, key),
            ..plain("MPI_Comm_split", ANY)
        },
    );
    wait_coll(&c, i, Need::All);
    let it = inst(&c, i);
    if color == MPI_UNDEFINED {
        *new = RSMPI_COMM_NULL;
        return 0;
    }
    if color < 0 {
        violate(format!("MPI_Comm_split with negative colour {color}"));
    }
    let mut v: Vec<(c_int, usize)> = it
        .of
        .iter()
        .enumerate()
        .filter(|(_, x)| x.as_ref().unwrap().key.0 == color)
        .map(|(k, x)| (x.as_ref().unwrap().key.1, c.ranks[k]))
        .collect();
    v.sort();
    *new = new_comm(Comm {
        ctx: (it.newctx << 16) + 1 + color as u64,
        ranks: v.into_iter().map(|x| x.1).collect(),
    });
    0
}
pub unsafe fn MPI_Comm_compare(a: MPI_Comm, b: MPI_Comm, r: *mut c_int) -> c_int {
    enter("MPI_Comm_compare");
    let (x, y) = (comm(a), comm(b));
    *r = if a == b {
        0
    } else if x.ranks == y.ranks {
        1
    } else {
        let (mut p, mut q) = (x.ranks, y.ranks);
        p.sort();
        q.sort();
        if p == q {
            2
        } else {
            3
        }
    };
    0
}
pub unsafe fn MPI_Comm_free(c: *mut MPI_Comm) -> c_int {
    let r = enter("MPI_Comm_free");
    comm(*c);
    w().ranks[r].comms[*c as usize] = None;
    *c = RSMPI_COMM_NULL;
    0
}
pub unsafe fn MPI_Comm_set_name(_: MPI_Comm, _: *const c_char) -> c_int {
    enter("MPI_Comm_set_name");
    0
}

// ---- point to point ----
unsafe fn do_send(what: &str, b: *const c_void, n: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, h: MPI_Comm, sync: bool) -> c_int {
    enter(what);
    check_count(what, n);
    let c = comm(h);
    if dest == RSMPI_PROC_NULL {
        return 0;
    }
    send(pack(b as _, n, t), kinds(t, n), dest, tag, &c, sync);
    0
}
pub unsafe fn MPI_Send(b: *const c_void, n: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, c: MPI_Comm) -> c_int {
    do_send("MPI_Send", b, n, t, dest, tag, c, w().sync)
}
pub unsafe fn MPI_Ssend(b: *const c_void, n: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, c: MPI_Comm) -> c_int {
    do_send("MPI_Ssend", b, n, t, dest, tag, c, true)
}
pub unsafe fn MPI_Bsend(b: *const c_void, n: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, c: MPI_Comm) -> c_int {
    do_send("MPI_Bsend", b, n, t, dest, tag, c, false)
}
/// erroneous unless the receive is posted already; nothing here can promise that
pub unsafe fn MPI_Rsend(b: *const c_void, n: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, h: MPI_Comm) -> c_int {
    enter("MPI_Rsend");
    let c = comm(h);
    if dest >= 0 && (dest as usize) < c.ranks.len() && !receiving(c.ranks[dest as usize]) {
        violate(format!("ready send to {dest}, which has posted no receive"));
    }
    do_send("MPI_Rsend", b, n, t, dest, tag, h, w().sync)
}
pub unsafe fn MPI_Buffer_attach(_: *mut c_void, _: c_int) -> c_int {
    enter("MPI_Buffer_attach");
    0
}
unsafe fn do_recv(b: *mut c_void, n: c_int, t: MPI_Datatype, src: c_int, tag: c_int, c: &Comm, st: *mut MPI_Status) {
    if src == RSMPI_PROC_NULL {
        status(st, RSMPI_PROC_NULL, ANY, 0);
        return;
    }
    let s = await_source(src, tag, c);
    let m = take(s, tag, c);
    check_recv(&m, n, t);
    unpack(&m.data, b as _, n, t);
    status(st, pos(c, m.src), m.tag, m.data.len());
}
pub unsafe fn MPI_Recv(b: *mut c_void, n: c_int, t: MPI_Datatype, src: c_int, tag: c_int, h: MPI_Comm, st: *mut MPI_Status) -> c_int {
    enter("MPI_Recv");
    check_count("MPI_Recv", n);
    do_recv(b, n, t, src, tag, &comm(h), st);
    0
}
pub unsafe fn MPI_Sendrecv(
    sb: *const c_void,
    sn: c_int,
    st: MPI_Datatype,
    dest: c_int,
    stag: c_int,
    rb: *mut c_void,
    rn: c_int,
    rt: MPI_Datatype,
    src: c_int,
    rtag: c_int,
    h: MPI_Comm,
    stat: *mut MPI_Status,
) -> c_int {
    enter("MPI_Sendrecv");
    let c = comm(h);
    let id = (dest != RSMPI_PROC_NULL).then(|| send_start(pack(sb as _, sn, st), kinds(st, sn), dest, stag, &c));
    do_recv(rb, rn, rt, src, rtag, &c, stat);
    if let (true, Some(id)) = (w().sync, id) {
        block_until(|| format!("its send to {dest} to be received"), || !w().unmatched.contains(&id));
    }
    0
}
pub unsafe fn MPI_Sendrecv_replace(
    b: *mut c_void,
    n: c_int,
    t: MPI_Datatype,
    dest: c_int,
    stag: c_int,
    src: c_int,
    rtag: c_int,
    h: MPI_Comm,
    stat: *mut MPI_Status,
) -> c_int {
    MPI_Sendrecv(b, n, t, dest, stag, b, n, t, src, rtag, h, stat)
}
pub unsafe fn MPI_Probe(src: c_int, tag: c_int, h: MPI_Comm, st: *mut MPI_Status) -> c_int {
    enter("MPI_Probe");
    let c = comm(h);
    let s = await_source(src, tag, &c);
    let m = peek(s, tag, &c);
    status(st, pos(&c, m.src), m.tag, m.data.len());
    0
}
unsafe fn hold(m: Msg) -> MPI_Message {
    let v = &mut w().probed;
    v.push(Some(m));
    v.len() as c_int - 1
}
pub unsafe fn MPI_Mprobe(src: c_int, tag: c_int, h: MPI_Comm, msg: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    enter("MPI_Mprobe");
    let c = comm(h);
    let s = await_source(src, tag, &c);
    let m = take(s, tag, &c);
    status(st, pos(&c, m.src), m.tag, m.data.len());
    *msg = hold(m);
    0
}
pub unsafe fn MPI_Mrecv(b: *mut c_void, n: c_int, t: MPI_Datatype, msg: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    enter("MPI_Mrecv");
    let Some(m) = w().probed.get_mut(*msg as usize).and_then(|x| x.take()) else {
        violate(format!("invalid message handle {}", *msg))
    };
    check_recv(&m, n, t);
    unpack(&m.data, b as _, n, t);
    status(st, m.src as c_int, m.tag, m.data.len());
    *msg = RSMPI_MESSAGE_NULL;
    0
}
pub unsafe fn MPI_Iprobe(src: c_int, tag: c_int, h: MPI_Comm, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    enter("MPI_Iprobe");
    let c = comm(h);
    *flag = 0;
    if let Some(s) = iprobe(src, tag, &c) {
        let m = peek(s, tag, &c);
        status(st, pos(&c, m.src), m.tag, m.data.len());
        *flag = 1;
    }
    0
}
pub unsafe fn MPI_Improbe(src: c_int, tag: c_int, h: MPI_Comm, flag: *mut c_int, msg: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    enter("MPI_Improbe");
    let c = comm(h);
    *flag = 0;
    if let Some(s) = iprobe(src, tag, &c) {
        let m = take(s, tag, &c);
        status(st, pos(&c, m.src), m.tag, m.data.len());
        *msg = hold(m);
        *flag = 1;
    }
    0
}
pub unsafe fn MPI_Get_count(st: *const MPI_Status, t: MPI_Datatype, n: *mut c_int) -> c_int {
    let s: usize = ty(t).elems.iter().map(|e| SIZES[e.1 as usize]).sum();
    let b = (*st)._ucount;
    *n = if s == 0 {
        0
    } else if b % s == 0 {
        (b / s) as c_int
    } else {
        MPI_UNDEFINED
    };
    0
}

// ---- requests ----
fn new_req(r: Req) -> MPI_Request {
    let v = &mut w().reqs;
    v.push(Some(r));
    v.len() as c_int - 1
}
unsafe fn do_isend(what: &str, b: *const c_void, n: c_int, t: MPI_Datatype, dest: c_int, tag: c_int, h: MPI_Comm, req: *mut MPI_Request, sync: bool) -> c_int {
    enter(what);
    check_count(what, n);
    let c = comm(h);
    let id = send_start(pack(b as _, n, t), kinds(t, n), dest, tag, &c);
    *req = new_req(if sync { Req::Send(id) } else { Req::Done });
    0
}
pub unsafe fn MPI_Isend(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm, r: *mut MPI_Request) -> c_int {
    do_isend("MPI_Isend", b, n, t, d, tag, c, r, w().sync)
}
pub unsafe fn MPI_Issend(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm, r: *mut MPI_Request) -> c_int {
    do_isend("MPI_Issend", b, n, t, d, tag, c, r, true)
}
pub unsafe fn MPI_Ibsend(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm, r: *mut MPI_Request) -> c_int {
    do_isend("MPI_Ibsend", b, n, t, d, tag, c, r, false)
}
pub unsafe fn MPI_Irecv(b: *mut c_void, n: c_int, t: MPI_Datatype, src: c_int, tag: c_int, h: MPI_Comm, r: *mut MPI_Request) -> c_int {
    enter("MPI_Irecv");
    check_count("MPI_Irecv", n);
    *r = new_req(Req::Recv { buf: b as _, count: n, dt: t, src, tag, comm: h });
    0
}
pub unsafe fn MPI_Imrecv(b: *mut c_void, n: c_int, t: MPI_Datatype, msg: *mut MPI_Message, r: *mut MPI_Request) -> c_int {
    enter("MPI_Imrecv");
    *r = new_req(Req::Mrecv { buf: b as _, count: n, dt: t, msg: *msg });
    *msg = RSMPI_MESSAGE_NULL;
    0
}
unsafe fn finish(r: MPI_Request, st: *mut MPI_Status) {
    let Some(q) = w().reqs.get_mut(r as usize).and_then(|x| x.take()) else {
        violate(format!("invalid request {r}"))
    };
    status(st, ANY, ANY, 0);
    match q {
        Req::Done => {}
        Req::Send(id) => {
            block_until(|| "an immediate send to be received".into(), || !w().unmatched.contains(&id));
        }
        Req::Recv { buf, count, dt, src, tag, comm: h } => do_recv(buf as _, count, dt, src, tag, &comm(h), st),
        Req::Mrecv { buf, count, dt, msg } => {
            let mut m = msg;
            MPI_Mrecv(buf as _, count, dt, &mut m, st);
        }
        Req::Coll { mut ready, fin } => {
            block_until(|| "an immediate collective operation".into(), || ready());
            fin();
        }
    }
}
fn ready(r: MPI_Request) -> bool {
    match w().reqs.get_mut(r as usize).and_then(|x| x.as_mut()) {
        None => violate(format!("invalid request {r}")),
        Some(Req::Done) | Some(Req::Mrecv { .. }) => true,
        Some(Req::Send(id)) => {
            let id = *id;
            !w().unmatched.contains(&id)
        }
        Some(Req::Recv { src, tag, comm: h, .. }) => {
            let (s, t, c) = (*src, *tag, comm(*h));
            mc::available(s, t, &c)
        }
        Some(Req::Coll { ready, .. }) => ready(),
    }
}
pub unsafe fn MPI_Wait(r: *mut MPI_Request, st: *mut MPI_Status) -> c_int {
    enter("MPI_Wait");
    if *r != RSMPI_REQUEST_NULL {
        finish(*r, st);
        *r = RSMPI_REQUEST_NULL;
    }
    0
}
pub unsafe fn MPI_Test(r: *mut MPI_Request, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    enter("MPI_Test");
    poll();
    *flag = 1;
    if *r != RSMPI_REQUEST_NULL {
        if ready(*r) {
            finish(*r, st);
            *r = RSMPI_REQUEST_NULL;
        } else {
            *flag = 0;
        }
    }
    0
}
pub unsafe fn MPI_Waitall(n: c_int, rs: *mut MPI_Request, sts: *mut MPI_Status) -> c_int {
    enter("MPI_Waitall");
    for k in 0..n as usize {
        let st = if sts.is_null() { sts } else { sts.add(k) };
        MPI_Wait(rs.add(k), st);
    }
    0
}
pub unsafe fn MPI_Waitany(n: c_int, rs: *mut MPI_Request, index: *mut c_int, st: *mut MPI_Status) -> c_int {
    enter("MPI_Waitany");
    let open: Vec<usize> = (0..n as usize).filter(|&k| *rs.add(k) != RSMPI_REQUEST_NULL).collect();
    if open.is_empty() {
        *index = MPI_UNDEFINED;
        return 0;
    }
    loop {
        let v: Vec<usize> = open.iter().copied().filter(|&k| ready(*rs.add(k))).collect();
        if !v.is_empty() {
            let k = v[mcrt::choose(mcrt::Kind::Msg, v.len())];
            *index = k as c_int;
            return MPI_Wait(rs.add(k), st);
        }
        block_until(|| "any of its requests".into(), || open.iter().any(|&k| ready(*rs.add(k))));
    }
}

// ---- collectives ----
fn plain(kind: &'static str, root: c_int) -> Contribution {
    Contribution {
        kind,
        root,
        op: -1,
        sig: vec![],
        data: vec![],
        len: 0,
        parts: vec![],
        part_kinds: vec![],
        count: 0,
        dt: 0,
        key: (0, 0),
    }
}
enum Need {
    All,
    Rank(usize),
    UpTo(usize),
    Nothing,
}
fn got(c: &Comm, i: usize, n: &Need) -> bool {
    let it = inst(c, i);
    if w().sync {
        return it.arrived == c.ranks.len();
    }
    match n {
        Need::All => it.arrived == c.ranks.len(),
        Need::Rank(r) => it.of[*r].is_some(),
        Need::UpTo(r) => it.of[..=*r].iter().all(|x| x.is_some()),
        Need::Nothing => true,
    }
}
fn wait_coll(c: &Comm, i: usize, n: Need) {
    block_until(
        || {
            let it = inst(c, i);
            let kind = it.of.iter().flatten().next().unwrap().kind;
            let miss: Vec<String> = it.of.iter().enumerate().filter(|(_, x)| x.is_none()).map(|(k, _)| k.to_string()).collect();
            format!("{kind} (process {} missing)", miss.join(", "))
        },
        || got(c, i, &n),
    );
}
/// complete now, or through a request
unsafe fn complete(req: Option<*mut MPI_Request>, c: Comm, i: usize, need: Need, fin: impl FnOnce(&Comm) + 'static) {
    match req {
        None => {
            wait_coll(&c, i, need);
            fin(&c);
        }
        Some(r) => {
            let d = c.clone();
            *r = new_req(Req::Coll {
                ready: Box::new(move || got(&d, i, &need)),
                fin: Box::new(move || fin(&c)),
            });
        }
    }
}
unsafe fn elem_memory(b: *const c_void, n: c_int, t: MPI_Datatype) -> Vec<u64> {
    let len = (ty(t).extent * n as isize) as usize;
    let mut v = vec![0u64; len.div_ceil(8)];
    // padding stays zero
    copy_elems(b as *const u8, v.as_mut_ptr() as *mut u8, n, t);
    v
}
unsafe fn copy_elems(from: *const u8, to: *mut u8, n: c_int, t: MPI_Datatype) {
    let ty = ty(t);
    for k in 0..n as isize {
        for &(o, kd) in &ty.elems {
            let at = k * ty.extent + o;
            mcrt::watch(from.offset(at) as usize, SIZES[kd as usize], false);
            mcrt::watch(to.offset(at) as usize, SIZES[kd as usize], true);
            std::ptr::copy_nonoverlapping(from.offset(at), to.offset(at), SIZES[kd as usize]);
        }
    }
}
unsafe fn put_elems(data: &[u64], b: *mut c_void, n: c_int, t: MPI_Datatype) {
    copy_elems(data.as_ptr() as *const u8, b as *mut u8, n, t);
}
fn note_words(v: &[u64]) {
    for &x in v {
        mcrt::fiber::note(x);
    }
}
fn opid(op: MPI_Op) -> c_int {
    if op >= 16 {
        16
    } else {
        op
    }
}
fn red(kind: &'static str, root: c_int, b: *const c_void, n: c_int, t: MPI_Datatype, op: MPI_Op) -> Contribution {
    check_count(kind, n);
    Contribution {
        op: opid(op),
        sig: kinds(t, n),
        data: unsafe { elem_memory(b, n, t) },
        count: n,
        dt: t,
        key: (op, 0),
        ..plain(kind, root)
    }
}

pub unsafe fn barrier(what: &'static str, h: MPI_Comm, req: Option<*mut MPI_Request>) -> c_int {
    enter(what);
    let c = comm(h);
    let i = coll_start(&c, plain("MPI_Barrier", ANY));
    complete(req, c, i, Need::All, |_| ());
    0
}
pub unsafe fn MPI_Barrier(h: MPI_Comm) -> c_int {
    barrier("MPI_Barrier", h, None)
}
pub unsafe fn MPI_Ibarrier(h: MPI_Comm, r: *mut MPI_Request) -> c_int {
    barrier("MPI_Ibarrier", h, Some(r))
}
unsafe fn bcast(b: *mut c_void, n: c_int, t: MPI_Datatype, root: c_int, h: MPI_Comm, req: Option<*mut MPI_Request>) -> c_int {
    enter("MPI_Bcast");
    check_count("MPI_Bcast", n);
    let c = comm(h);
    let mut x = plain("MPI_Bcast", root);
    x.sig = kinds(t, n);
    let my = rank_in(&c);
    let root_me = my as c_int == root;
    if root_me {
        x.parts = vec![pack(b as _, n, t)];
    }
    let i = coll_start(&c, x);
    let need = if root_me { Need::Nothing } else { Need::Rank(root as usize) };
    complete(req, c, i, need, move |c| {
        if !root_me {
            let d = &inst(c, i).of[root as usize].as_ref().unwrap().parts[0];
            mcrt::fiber::note(mcrt::fx::bytes(1, d));
            unpack(d, b as _, n, t);
        }
    });
    0
}
pub unsafe fn MPI_Bcast(b: *mut c_void, n: c_int, t: MPI_Datatype, root: c_int, h: MPI_Comm) -> c_int {
    bcast(b, n, t, root, h, None)
}
pub unsafe fn MPI_Ibcast(b: *mut c_void, n: c_int, t: MPI_Datatype, root: c_int, h: MPI_Comm, r: *mut MPI_Request) -> c_int {
    bcast(b, n, t, root, h, Some(r))
}
unsafe fn reduce(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, root: c_int, h: MPI_Comm, req: Option<*mut MPI_Request>) -> c_int {
    enter("MPI_Reduce");
    let c = comm(h);
    let my = rank_in(&c);
    let i = coll_start(&c, red("MPI_Reduce", root, sb, n, t, op));
    let root_me = my as c_int == root;
    let need = if root_me { Need::All } else { Need::Nothing };
    complete(req, c, i, need, move |c| {
        if root_me {
            let v = fold(c, i, c.ranks.len());
            note_words(&v);
            put_elems(&v, rb, n, t);
        }
    });
    0
}
pub unsafe fn MPI_Reduce(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, root: c_int, c: MPI_Comm) -> c_int {
    reduce(sb, rb, n, t, op, root, c, None)
}
pub unsafe fn MPI_Ireduce(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, root: c_int, c: MPI_Comm, r: *mut MPI_Request) -> c_int {
    reduce(sb, rb, n, t, op, root, c, Some(r))
}
unsafe fn allreduce(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, h: MPI_Comm, req: Option<*mut MPI_Request>) -> c_int {
    enter("MPI_Allreduce");
    let c = comm(h);
    let i = coll_start(&c, red("MPI_Allreduce", ANY, sb, n, t, op));
    complete(req, c, i, Need::All, move |c| {
        // every process may combine in its own order (recursive doubling), as far as the operation is declared commutative
        let (mut r, own) = results(c, i, c.ranks.len());
        let v = if own {
            let k = mcrt::choice::choose(mcrt::choice::Kind::Msg, r.len());
            r.swap_remove(k)
        } else {
            if inst(c, i).result.is_none() {
                let k = mcrt::choice::choose(mcrt::choice::Kind::Msg, r.len());
                inst(c, i).result = Some(r.swap_remove(k));
            }
            inst(c, i).result.clone().unwrap()
        };
        note_words(&v);
        put_elems(&v, rb, n, t);
    });
    0
}
pub unsafe fn MPI_Allreduce(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, h: MPI_Comm) -> c_int {
    allreduce(sb, rb, n, t, op, h, None)
}
pub unsafe fn MPI_Iallreduce(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, h: MPI_Comm, r: *mut MPI_Request) -> c_int {
    allreduce(sb, rb, n, t, op, h, Some(r))
}
pub unsafe fn MPI_Scan(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, h: MPI_Comm) -> c_int {
    enter("MPI_Scan");
    let c = comm(h);
    let my = rank_in(&c);
    let i = coll_start(&c, red("MPI_Scan", ANY, sb, n, t, op));
    wait_coll(&c, i, Need::UpTo(my));
    let v = fold(&c, i, my + 1);
    note_words(&v);
    put_elems(&v, rb, n, t);
    0
}
pub unsafe fn MPI_Exscan(sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, h: MPI_Comm) -> c_int {
    enter("MPI_Exscan");
    let c = comm(h);
    let my = rank_in(&c);
    let i = coll_start(&c, red("MPI_Exscan", ANY, sb, n, t, op));
    if my == 0 {
        wait_coll(&c, i, Need::Nothing);
        return 0;
    }
    wait_coll(&c, i, Need::UpTo(my - 1));
    let v = fold(&c, i, my);
    note_words(&v);
    put_elems(&v, rb, n, t);
    0
}
pub unsafe fn MPI_Reduce_local(a: *const c_void, b: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op) -> c_int {
    enter("MPI_Reduce_local");
    let x = elem_memory(a, n, t);
    let mut y = elem_memory(b, n, t);
    apply(op, &x, &mut y, n, t);
    put_elems(&y, b, n, t);
    0
}
/// place the data of part `k` sent to this process by every rank
unsafe fn take_parts(c: &Comm, i: usize, from: impl Iterator<Item = (usize, usize)>, rb: *mut c_void, rn: &dyn Fn(usize) -> (c_int, c_int), rt: MPI_Datatype) {
    for (src, part) in from {
        let x = inst(c, i).of[src].as_ref().unwrap();
        let (n, at) = rn(src);
        let d = &x.parts[part];
        let m = Msg {
            src: c.ranks[src],
            ctx: 0,
            tag: 0,
            kinds: x.part_kinds[part].clone(),
            data: d.clone(),
            id: 0,
        };
        check_recv(&m, n, rt);
        if m.kinds.len() != kinds(rt, n).len() {
            violate(format!("{}: process {src} contributes {}, {} expected", x.kind, show(&m.kinds), show(&kinds(rt, n))));
        }
        mcrt::fiber::note(mcrt::fx::bytes(2, d));
        unpack(d, (rb as *mut u8).offset(at as isize * ty(rt).extent), n, rt);
    }
}
unsafe fn gather(
    kind: &'static str,
    sb: *const c_void,
    sn: c_int,
    st: MPI_Datatype,
    rb: *mut c_void,
    lay: Option<Vec<(c_int, c_int)>>,
    rt: MPI_Datatype,
    root: c_int,
    h: MPI_Comm,
    req: Option<*mut MPI_Request>,
) -> c_int {
    enter(kind);
    let c = comm(h);
    let my = rank_in(&c);
    let mut x = plain(kind, root);
    x.parts = vec![pack(sb as _, sn, st)];
    x.part_kinds = vec![kinds(st, sn)];
    let i = coll_start(&c, x);
    let recv = root == ANY || my as c_int == root;
    let need = if recv { Need::All } else { Need::Nothing };
    complete(req, c, i, need, move |c| {
        if recv {
            let lay = lay.unwrap();
            take_parts(c, i, (0..c.ranks.len()).map(|s| (s, 0)), rb, &|s| lay[s], rt);
        }
    });
    0
}
unsafe fn layout(h: MPI_Comm, root: c_int, n: c_int, ns: *const c_int, at: *const c_int) -> Option<Vec<(c_int, c_int)>> {
    let c = comm(h);
    if root != ANY && rank_in(&c) as c_int != root {
        return None;
    }
    Some(
        (0..c.ranks.len())
            .map(|k| {
                if ns.is_null() {
                    (n, n * k as c_int)
                } else {
                    (*ns.add(k), *at.add(k))
                }
            })
            .collect(),
    )
}
const NIL: *const c_int = std::ptr::null();
pub unsafe fn MPI_Gather(sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) -> c_int {
    gather("MPI_Gather", sb, sn, st, rb, layout(c, root, rn, NIL, NIL), rt, root, c, None)
}
pub unsafe fn MPI_Gatherv(sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rns: *const c_int, at: *const c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) -> c_int {
    gather("MPI_Gatherv", sb, sn, st, rb, layout(c, root, 0, rns, at), rt, root, c, None)
}
pub unsafe fn MPI_Allgather(sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, c: MPI_Comm) -> c_int {
    gather("MPI_Allgather", sb, sn, st, rb, layout(c, ANY, rn, NIL, NIL), rt, ANY, c, None)
}
pub unsafe fn MPI_Allgatherv(sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rns: *const c_int, at: *const c_int, rt: MPI_Datatype, c: MPI_Comm) -> c_int {
    gather("MPI_Allgatherv", sb, sn, st, rb, layout(c, ANY, 0, rns, at), rt, ANY, c, None)
}
unsafe fn scatter(kind: &'static str, sb: *const c_void, lay: Option<Vec<(c_int, c_int)>>, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, h: MPI_Comm) -> c_int {
    enter(kind);
    let c = comm(h);
    let my = rank_in(&c);
    let mut x = plain(kind, root);
    if let Some(l) = lay {
        for (n, at) in l {
            x.parts.push(pack((sb as *const u8).offset(at as isize * ty(st).extent), n, st));
            x.part_kinds.push(kinds(st, n));
        }
    }
    let i = coll_start(&c, x);
    // the root takes its own part, everybody needs the root only
    complete(None, c, i, Need::Rank(root as usize), move |c| {
        take_parts(c, i, std::iter::once((root as usize, my)), rb, &|_| (rn, 0), rt);
    });
    0
}
pub unsafe fn MPI_Scatter(sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) -> c_int {
    scatter("MPI_Scatter", sb, layout(c, root, sn, NIL, NIL), st, rb, rn, rt, root, c)
}
pub unsafe fn MPI_Scatterv(sb: *const c_void, sns: *const c_int, at: *const c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) -> c_int {
    scatter("MPI_Scatterv", sb, layout(c, root, 0, sns, at), st, rb, rn, rt, root, c)
}
pub unsafe fn MPI_Alltoall(sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, h: MPI_Comm) -> c_int {
    enter("MPI_Alltoall");
    let c = comm(h);
    let my = rank_in(&c);
    let mut x = plain("MPI_Alltoall", ANY);
    for k in 0..c.ranks.len() as isize {
        x.parts.push(pack((sb as *const u8).offset(k * sn as isize * ty(st).extent), sn, st));
        x.part_kinds.push(kinds(st, sn));
    }
    let i = coll_start(&c, x);
    complete(None, c, i, Need::All, move |c| {
        take_parts(c, i, (0..c.ranks.len()).map(|s| (s, my)), rb, &|s| (rn, rn * s as c_int), rt);
    });
    0
}

// ---- datatypes and operations ----
fn add_type(mut t: Ty) -> MPI_Datatype {
    t.align = t.align.max(1);
    let v = &mut types().tys;
    // equal types share a handle (they live as long as the process)
    if let Some(k) = v.iter().skip(SIZES.len()).position(|x| x.elems == t.elems && x.extent == t.extent) {
        return (k + SIZES.len()) as c_int;
    }
    v.push(t);
    v.len() as c_int - 1
}
pub unsafe fn MPI_Type_commit(_: *mut MPI_Datatype) -> c_int {
    0
}
pub unsafe fn MPI_Type_free(t: *mut MPI_Datatype) -> c_int {
    *t = RSMPI_DATATYPE_NULL;
    0
}
pub unsafe fn MPI_Type_dup(t: MPI_Datatype, new: *mut MPI_Datatype) -> c_int {
    *new = t;
    0
}
pub unsafe fn MPI_Type_contiguous(n: c_int, t: MPI_Datatype, new: *mut MPI_Datatype) -> c_int {
    MPI_Type_vector(1, n, 0, t, new)
}
pub unsafe fn MPI_Type_vector(n: c_int, len: c_int, stride: c_int, t: MPI_Datatype, new: *mut MPI_Datatype) -> c_int {
    let o = ty(t);
    let mut elems = vec![];
    let mut end = 0;
    for i in 0..n as isize {
        for j in 0..len as isize {
            let at = (i * stride as isize + j) * o.extent;
            end = end.max(at + o.extent);
            elems.extend(o.elems.iter().map(|e| (at + e.0, e.1)));
        }
    }
    *new = add_type(Ty { elems, extent: end, align: o.align });
    0
}
pub unsafe fn MPI_Type_create_struct(n: c_int, lens: *const c_int, at: *const MPI_Aint, ts: *const MPI_Datatype, new: *mut MPI_Datatype) -> c_int {
    let mut t = Ty::default();
    for k in 0..n as usize {
        let o = ty(*ts.add(k));
        for j in 0..*lens.add(k) as isize {
            let p = *at.add(k) + j * o.extent;
            t.elems.extend(o.elems.iter().map(|e| (p + e.0, e.1)));
            t.extent = t.extent.max(p + o.extent);
        }
        t.align = t.align.max(o.align);
    }
    let a = t.align.max(1);
    t.extent = (t.extent + a - 1) / a * a;
    *new = add_type(t);
    0
}
pub unsafe fn MPI_Type_create_resized(t: MPI_Datatype, _lb: MPI_Aint, extent: MPI_Aint, new: *mut MPI_Datatype) -> c_int {
    let mut x = ty(t).clone();
    x.extent = extent;
    *new = add_type(x);
    0
}
pub unsafe fn MPI_Type_get_extent(t: MPI_Datatype, lb: *mut MPI_Aint, extent: *mut MPI_Aint) -> c_int {
    *lb = 0;
    *extent = ty(t).extent;
    0
}
pub unsafe fn MPI_Type_size(t: MPI_Datatype, s: *mut c_int) -> c_int {
    *s = ty(t).elems.iter().map(|e| SIZES[e.1 as usize]).sum::<usize>() as c_int;
    0
}
pub unsafe fn MPI_Op_create(f: MPI_User_function, commute: c_int, op: *mut MPI_Op) -> c_int {
    let v = &mut types().ops;
    let u = Some(UOp {
        f: f.expect("user operation"),
        commute: commute != 0,
    });
    // handles of freed operations are reused
    let k = match v.iter().skip(16).position(|x| x.is_none()) {
        Some(k) => k + 16,
        None => {
            v.push(None);
            v.len() - 1
        }
    };
    v[k] = u;
    *op = k as c_int;
    0
}
pub unsafe fn MPI_Op_free(op: *mut MPI_Op) -> c_int {
    types().ops[*op as usize] = None;
    *op = -1;
    0
}
pub unsafe fn MPI_Op_commutative(op: MPI_Op, c: *mut c_int) -> c_int {
    *c = (op < 16 || types().ops[op as usize].is_some_and(|u| u.commute)) as c_int;
    0
}
