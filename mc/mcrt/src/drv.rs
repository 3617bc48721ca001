//! Fork driver: units of work run in worker processes, so that a crash, abort or endless loop of the code
//! under test is attributed to the case being evaluated. The parent collects counters, writes the evidence
//! file and prints the verdict.
use crate::choice::Explored;
use crate::json::J;
use std::any::Any;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Exploration,
    ModelChecking,
}

pub struct Unit {
    pub name: String,
    pub f: Box<dyn Fn(&mut Ctx)>,
}
pub fn unit(name: impl Into<String>, f: impl Fn(&mut Ctx) + 'static) -> Unit {
    Unit {
        name: name.into(),
        f: Box::new(f),
    }
}

pub struct Spec {
    pub property: &'static str,
    pub level: Level,
    /// how cases are made and what makes one non-trivial
    pub rule: String,
    pub assumptions: Vec<String>,
    pub units: Vec<Unit>,
    /// CPU seconds a single case may take before it counts as not terminating
    pub case_cpu_s: u64,
    /// processor time after which the explorations of a unit end (quick tier)
    pub unit_cpu_s: u64,
    /// log2 of the size of the distinct-fingerprint table
    pub table_bits: u32,
    /// only memory errors violate the property
    pub only_memory: bool,
}
impl Spec {
    pub fn new(property: &'static str, level: Level) -> Self {
        Spec {
            property,
            level,
            rule: String::new(),
            assumptions: vec![],
            units: vec![],
            case_cpu_s: 60,
            unit_cpu_s: 60,
            table_bits: 25,
            only_memory: false,
        }
    }
    pub fn unit(&mut self, name: impl Into<String>, f: impl Fn(&mut Ctx) + 'static) {
        self.units.push(unit(name, f));
    }
}

const DATA: usize = 200;
#[repr(C)]
struct Slot {
    unit: AtomicI64,
    beat: AtomicU64,
    tag_len: AtomicUsize,
    tag: [u8; 256],
    data_len: AtomicUsize,
    data: [f64; DATA],
}
const MAXW: usize = 64;
#[repr(C)]
struct Shared {
    next: AtomicUsize,
    stop: AtomicBool,
    distinct: AtomicU64,
    table_full: AtomicBool,
    slots: [Slot; MAXW],
}
static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
static TABLE: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
static TABLE_BITS: AtomicUsize = AtomicUsize::new(0);
static ME: AtomicUsize = AtomicUsize::new(usize::MAX);
static UNIT_SALT: AtomicU64 = AtomicU64::new(0);
static LOG_FD: AtomicI64 = AtomicI64::new(-1);

fn shared() -> Option<&'static Shared> {
    let p = SHARED.load(Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}
fn map(bytes: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            bytes,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

#[inline]
pub fn heartbeat() {
    if let Some(s) = shared() {
        let m = ME.load(Relaxed);
        if m < MAXW {
            s.slots[m].beat.fetch_add(1, Relaxed);
        }
    }
}

/// Insert into the cross-process table of distinct fingerprints; true if new.
pub fn distinct(h: u64) -> bool {
    let t = TABLE.load(Relaxed);
    if t.is_null() {
        return true;
    }
    let bits = TABLE_BITS.load(Relaxed);
    let mask = (1usize << bits) - 1;
    let h = if h == 0 { 1 } else { h };
    let mut i = (h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - bits)) as usize;
    for _ in 0..256 {
        let c = unsafe { &*t.add(i & mask) };
        let v = c.load(Relaxed);
        if v == h {
            return false;
        }
        if v == 0 {
            match c.compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => {
                    shared().unwrap().distinct.fetch_add(1, Relaxed);
                    return true;
                }
                Err(x) if x == h => return false,
                Err(_) => {}
            }
        }
        i += 1;
    }
    shared().unwrap().table_full.store(true, Relaxed);
    false
}
/// distinct, salted with the current unit
pub fn distinct_in_unit(h: u64) -> bool {
    distinct(crate::fx::mix(UNIT_SALT.load(Relaxed), h))
}

fn log_line(s: &str) {
    let fd = LOG_FD.load(Relaxed);
    if fd >= 0 {
        let mut l = s.replace('\n', "\\n");
        l.push('\n');
        let b = l.as_bytes();
        let mut o = 0;
        while o < b.len() {
            let r = unsafe { libc::write(fd as i32, b[o..].as_ptr() as *const _, b.len() - o) };
            if r <= 0 {
                break;
            }
            o += r as usize;
        }
    }
}
pub fn child_error(msg: &str) {
    log_line(&format!("E\t{}", msg));
}
/// A violation after which this process cannot continue (e.g. a deadlock with threads parked mid-stack).
pub fn fatal_violation(key: &str, msg: &str) -> ! {
    if !counts(key, msg) {
        unsafe { libc::_exit(3) }
    }
    let s = shared();
    let u = s
        .map(|s| s.slots[ME.load(Relaxed)].unit.load(Relaxed))
        .unwrap_or(-1);
    let choices = crate::choice::marks_text()
        + &crate::choice::current_trace()
            .iter()
            .map(|x| x.to_string())
            .collect::<Vec<_>>()
            .join(",");
    let case = s
        .map(|s| slot_case(&s.slots[ME.load(Relaxed)]))
        .unwrap_or_default();
    log_line(&format!(
        "V\t{u}\t{key}\t{}; case {case}\t{}\t{choices}",
        msg.replace('\t', " "),
        crate::choice::ordinal()
    ));
    if s.is_none() || LOG_FD.load(Relaxed) < 0 {
        println!("VIOLATED key={key} {msg}; case {case}\nchoices {choices}");
    }
    unsafe { libc::_exit(3) }
}

pub struct StopUnit;

pub struct Ctx {
    pub tier: Tier,
    unit: usize,
    known: Vec<String>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    capped: bool,
    evals: u64,
    known_logged: usize,
    tag: String,
    data: Vec<f64>,
}

fn slot_case(s: &Slot) -> String {
    let tl = s.tag_len.load(Relaxed).min(256);
    let dl = s.data_len.load(Relaxed).min(DATA);
    let tag = String::from_utf8_lossy(&s.tag[..tl]).into_owned();
    if dl == 0 {
        tag
    } else {
        format!("{tag} {:?}", &s.data[..dl])
    }
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Name the case about to be evaluated (used for crash and hang attribution and for reports).
    #[inline]
    pub fn begin(&mut self, tag: &str, data: &[f64]) {
        self.evals += 1;
        if self.tag != tag {
            self.tag.clear();
            self.tag.push_str(tag);
        }
        self.data.clear();
        self.data.extend_from_slice(data);
        if let Some(sh) = shared() {
            let m = ME.load(Relaxed);
            if m < MAXW {
                let s = &sh.slots[m] as *const Slot as *mut Slot;
                unsafe {
                    let l = tag.len().min(256);
                    (&mut (*s).tag)[..l].copy_from_slice(&tag.as_bytes()[..l]);
                    (*s).tag_len.store(l, Relaxed);
                    let d = data.len().min(DATA);
                    (&mut (*s).data)[..d].copy_from_slice(&data[..d]);
                    (*s).data_len.store(d, Relaxed);
                    (*s).beat.fetch_add(1, Relaxed);
                }
            }
        }
    }
    pub fn case(&self) -> String {
        if self.data.is_empty() {
            self.tag.clone()
        } else if self.data.len() > 60 {
            format!(
                "{} {:?}... ({} numbers)",
                self.tag,
                &self.data[..60],
                self.data.len()
            )
        } else {
            format!("{} {:?}", self.tag, self.data)
        }
    }
    #[inline]
    pub fn count(&mut self, k: &str, by: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += by;
        } else {
            self.counters.insert(k.to_string(), by);
        }
    }
    pub fn cap(&mut self) {
        self.capped = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, key: &str, msg: impl AsRef<str>) {
        self.fail_with(key, msg.as_ref(), 0, &[]);
    }
    pub fn fail_with(&mut self, key: &str, msg: &str, ordinal: u64, choices: &[u32]) {
        if !counts(key, msg) {
            self.count("other_failures", 1);
            return;
        }
        let known = self.known.iter().any(|k| k == key);
        let ch = crate::choice::marks_text()
            + &choices
                .iter()
                .map(|x| x.to_string())
                .collect::<Vec<_>>()
                .join(",");
        if known {
            self.known_logged += 1;
            if self.known_logged > 1 {
                return;
            }
        }
        log_line(&format!(
            "{}\t{}\t{key}\t{}; case {}\t{ordinal}\t{ch}",
            if known { "K" } else { "V" },
            self.unit,
            msg.replace('\t', " "),
            self.case()
        ));
        if LOG_FD.load(Relaxed) < 0 {
            println!(
                "VIOLATED key={key} {msg}; case {}\nchoices {ch}",
                self.case()
            );
        }
        if !known {
            resume_unwind(Box::new(StopUnit));
        }
    }
    /// Record an exploration; a violation found by it is reported under `key`.
    pub fn explored(&mut self, key: &str, e: &Explored) {
        self.count("executions", e.execs);
        self.count("transitions", e.transitions);
        self.count("merged_executions", e.merged);
        // nodes of the choice tree, or distinct fingerprinted states where states are merged
        self.count("mc_states", if e.states > 0 { e.states } else { e.transitions + 1 });
        let mp = e.max_points;
        let c = self
            .counters
            .entry("max_choice_points_of_an_execution".into())
            .or_insert(0);
        *c = (*c).max(mp);
        if e.capped {
            self.capped = true;
            self.count("capped_explorations", 1);
        }
        if let Some((m, ch)) = &e.violation {
            let ch = ch.clone();
            self.fail_with(key, m, crate::choice::ordinal(), &ch);
        }
    }
    /// Run code under test; a panic becomes Err(message).
    pub fn guard<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        guard(f)
    }
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

/// only memory errors are violations (of the property checked), other failures end the unit
static ONLY_MEMORY: AtomicBool = AtomicBool::new(false);
fn counts(key: &str, msg: &str) -> bool {
    let crash = ["signal-11", "signal-7", "signal-6", "signal-4"].contains(&key);
    !ONLY_MEMORY.load(Relaxed) || crash || msg.contains("memory: ")
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = guard_any(f);
    match crate::take_memory_error() {
        Some(e) => Err(e),
        None => r,
    }
}
fn guard_any<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<StopUnit>() {
                resume_unwind(p);
            }
            Err(format!("panicked: {}", panic_text(&*p)))
        }
    }
}
pub fn panic_text(p: &(dyn Any + Send)) -> String {
    let loc = LAST_PANIC.with(|l| l.borrow().clone());
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    };
    let m: String = m.chars().take(300).collect();
    format!("{m} ({loc})")
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|x| {
            if let Ok(mut x) = x.try_borrow_mut() {
                *x = l
            }
        });
    }));
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn known_keys(property: &str) -> Vec<(String, String)> {
    // finding: property=<id> key=<key> <what fails>
    let t =
        std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={property} "))?;
            let l = l.strip_prefix("key=")?;
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            Some((k.to_string(), rest.to_string()))
        })
        .collect()
}

fn cpu_of(pid: i32) -> f64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        if libc::clock_getcpuclockid(pid, &mut c) != 0 {
            return 0.0;
        }
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c, &mut t) != 0 {
            return 0.0;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

struct Child {
    pid: i32,
    beat: u64,
    cpu0: f64,
    wall0: Instant,
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn cpu_time() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// processor time at which the current unit has used up its share
static UNIT_END: AtomicU64 = AtomicU64::new(u64::MAX);
pub fn unit_over() -> bool {
    let end = UNIT_END.load(Relaxed);
    end != u64::MAX && cpu_time() > end as f64
}
fn run_unit(spec: &Spec, i: usize, tier: Tier, known: &[String]) {
    UNIT_SALT.store(crate::fx::bytes(7, spec.units[i].name.as_bytes()), Relaxed);
    crate::choice::reset_ordinal();
    UNIT_END.store(if tier == Tier::Quick { cpu_time() as u64 + spec.unit_cpu_s } else { u64::MAX }, Relaxed);
    crate::choice::reseed_free_stream(0);
    let mut c = Ctx {
        tier,
        unit: i,
        known: known.to_vec(),
        counters: BTreeMap::new(),
        samples: vec![],
        capped: false,
        evals: 0,
        known_logged: 0,
        tag: String::new(),
        data: vec![],
    };
    let r = catch_unwind(AssertUnwindSafe(|| (spec.units[i].f)(&mut c)));
    let mut line = format!("U\t{i}\tevaluations={}", c.evals);
    for (k, v) in &c.counters {
        line.push_str(&format!("\t{k}={v}"));
    }
    if c.capped {
        line.push_str("\tcapped=1");
    }
    log_line(&line);
    for s in &c.samples {
        log_line(&format!("S\t{i}\t{s}"));
    }
    if LOG_FD.load(Relaxed) < 0 {
        println!("{line}");
    }
    if let Err(p) = r {
        if !p.is::<StopUnit>() {
            let m = format!(
                "harness panicked in unit {}: {}; case {}",
                spec.units[i].name,
                panic_text(&*p),
                c.case()
            );
            eprintln!("MACHINERY-ERROR {m}");
            child_error(&m);
            unsafe { libc::_exit(2) }
        }
    }
}

pub fn main(spec: Spec) -> ! {
    ONLY_MEMORY.store(spec.only_memory, Relaxed);
    let t0 = Instant::now();
    let tier = tier();
    let args: Vec<String> = std::env::args().collect();
    let known = known_keys(spec.property);
    let known_k: Vec<String> = known.iter().map(|x| x.0.clone()).collect();
    if args.len() >= 2 && args[1] == "--list" {
        for u in &spec.units {
            println!("{}", u.name);
        }
        std::process::exit(0);
    }
    if args.len() >= 3 && args[1] == "--unit" {
        // run one unit in this process; optional: ordinal and choice sequence
        quiet_panics();
        let i = spec
            .units
            .iter()
            .position(|u| u.name == args[2])
            .expect("no such unit");
        if args.len() >= 5 {
            crate::choice::force(args[3].parse().unwrap(), &args[4]);
        }
        let t = Instant::now();
        run_unit(&spec, i, tier, &known_k);
        println!("unit took {:.2} s", t.elapsed().as_secs_f64());
        std::process::exit(0);
    }
    let nw: usize = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let nw = nw.min(MAXW);
    SHARED.store(map(std::mem::size_of::<Shared>()) as *mut Shared, Relaxed);
    TABLE.store(map(8usize << spec.table_bits) as *mut AtomicU64, Relaxed);
    TABLE_BITS.store(spec.table_bits as usize, Relaxed);
    let sh = shared().unwrap();
    let vd = verif_dir();
    let evd = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{vd}/evidence"));
    let logdir = format!(
        "{vd}/mc/target/runs/{}-{}",
        spec.property,
        std::process::id()
    );
    std::fs::create_dir_all(&logdir).expect("log dir");
    let mut logs: Vec<String> = vec![];
    let mut children: Vec<Option<Child>> = (0..nw).map(|_| None).collect();
    let spawn = |w: usize, logs: &mut Vec<String>| -> Child {
        let path = format!("{logdir}/{}", logs.len());
        logs.push(path.clone());
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            ME.store(w, Relaxed);
            let cp = std::ffi::CString::new(path).unwrap();
            let fd = unsafe {
                libc::open(
                    cp.as_ptr(),
                    libc::O_CREAT | libc::O_WRONLY | libc::O_APPEND,
                    0o644,
                )
            };
            LOG_FD.store(fd as i64, Relaxed);
            quiet_panics();
            loop {
                if sh.stop.load(Relaxed) {
                    break;
                }
                let i = sh.next.fetch_add(1, Relaxed);
                if i >= spec.units.len() {
                    break;
                }
                sh.slots[w].unit.store(i as i64, Relaxed);
                heartbeat();
                let t = Instant::now();
                run_unit(&spec, i, tier, &known_k);
                log_line(&format!("T\t{i}\t{:.2}", t.elapsed().as_secs_f64()));
            }
            unsafe { libc::_exit(0) }
        }
        Child {
            pid,
            beat: 0,
            cpu0: 0.0,
            wall0: Instant::now(),
        }
    };
    for w in 0..nw {
        children[w] = Some(spawn(w, &mut logs));
    }
    let mut viol: Vec<(String, String, String, u64, String)> = vec![]; // unit,key,msg,ordinal,choices
    let mut errors: Vec<String> = vec![];
    let budget = Duration::from_secs(
        std::env::var("MC_WALL_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 540 } else { 14400 }),
    );
    let mut capped = false;
    let mut stopped_at: Option<Instant> = None;
    let uname = |i: i64| {
        if i >= 0 {
            spec.units[i as usize].name.clone()
        } else {
            "?".into()
        }
    };
    let mut seen_off: Vec<u64> = vec![];
    loop {
        let mut live = 0;
        for w in 0..nw {
            let Some(c) = &mut children[w] else { continue };
            let mut st = 0;
            let r = unsafe { libc::waitpid(c.pid, &mut st, libc::WNOHANG) };
            if r == c.pid {
                let unit = sh.slots[w].unit.load(Relaxed);
                let mut again = false;
                if libc::WIFEXITED(st) {
                    match libc::WEXITSTATUS(st) {
                        0 => {}
                        3 => again = true,
                        2 => {}
                        _ if spec.only_memory => again = true,
                        k => {
                            // the code under test ended the process
                            viol.push((
                                uname(unit),
                                "process-exit".into(),
                                format!(
                                    "process exited with status {k}; case {}",
                                    slot_case(&sh.slots[w])
                                ),
                                0,
                                String::new(),
                            ));
                            again = true;
                        }
                    }
                } else {
                    let sig = libc::WTERMSIG(st);
                    if sig == libc::SIGKILL && stopped_at.is_none() {
                        errors.push("a worker was killed (out of memory?)".into());
                    } else if stopped_at.is_none() {
                        viol.push((
                            uname(unit),
                            format!("signal-{sig}"),
                            format!(
                                "process died with signal {sig}; case {}",
                                slot_case(&sh.slots[w])
                            ),
                            0,
                            String::new(),
                        ));
                        again = true;
                    }
                }
                children[w] = None;
                if again && !sh.stop.load(Relaxed) && viol.is_empty() {
                    children[w] = Some(spawn(w, &mut logs));
                    live += 1;
                }
                continue;
            }
            live += 1;
            let b = sh.slots[w].beat.load(Relaxed);
            if b != c.beat {
                c.beat = b;
                c.cpu0 = cpu_of(c.pid);
                c.wall0 = Instant::now();
            } else if stopped_at.is_none() {
                let cpu = cpu_of(c.pid) - c.cpu0;
                let idle = c.wall0.elapsed().as_secs_f64();
                if spec.only_memory && (cpu > spec.case_cpu_s as f64 || (idle > 180.0 && cpu < 1.0)) {
                    // the rest of the unit is left out
                    capped = true;
                    unsafe { libc::kill(c.pid, libc::SIGKILL) };
                    let mut st = 0;
                    unsafe { libc::waitpid(c.pid, &mut st, 0) };
                    children[w] = Some(spawn(w, &mut logs));
                } else if cpu > spec.case_cpu_s as f64 || (idle > 180.0 && cpu < 1.0) {
                    viol.push((uname(sh.slots[w].unit.load(Relaxed)), "no-termination".into(),
                        format!("no termination ({cpu:.0} s CPU, {idle:.0} s wall on one case); case {}", slot_case(&sh.slots[w])), 0, String::new()));
                    unsafe { libc::kill(c.pid, libc::SIGKILL) };
                    stopped_at = Some(Instant::now());
                    sh.stop.store(true, Relaxed);
                }
            }
        }
        // look for violations already logged, to stop early
        seen_off.resize(logs.len(), 0);
        for (k, p) in logs.iter().enumerate() {
            let len = std::fs::metadata(p).map(|m| m.len()).unwrap_or(0);
            if len != seen_off[k] {
                seen_off[k] = len;
                if std::fs::read(p)
                    .map(|b| {
                        b.starts_with(b"V\t")
                            || b.windows(3).any(|w| w == b"\nV\t")
                            || b.windows(3).any(|w| w == b"\nE\t")
                    })
                    .unwrap_or(false)
                {
                    sh.stop.store(true, Relaxed);
                }
            }
        }
        if !viol.is_empty() || !errors.is_empty() {
            sh.stop.store(true, Relaxed);
        }
        if live == 0 {
            break;
        }
        if sh.stop.load(Relaxed) && stopped_at.is_none() {
            stopped_at = Some(Instant::now());
        }
        if t0.elapsed() > budget && !sh.stop.load(Relaxed) {
            capped = true;
            sh.stop.store(true, Relaxed);
        }
        if let Some(s) = stopped_at {
            let grace = if capped { 60 } else { 3 };
            if s.elapsed() > Duration::from_secs(grace) {
                for c in children.iter().flatten() {
                    unsafe { libc::kill(c.pid, libc::SIGKILL) };
                }
            }
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 2 {
            5
        } else {
            40
        }));
    }
    // collect
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(usize, String)> = vec![];
    let mut done = 0usize;
    let mut knownhits: BTreeMap<String, String> = BTreeMap::new();
    let mut times: Vec<(f64, usize)> = vec![];
    for p in &logs {
        let t = std::fs::read(p)
            .map(|b| String::from_utf8_lossy(&b).into_owned())
            .unwrap_or_default();
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "U" => {
                    done += 1;
                    for kv in &f[2..] {
                        if let Some((k, v)) = kv.split_once('=') {
                            let v: u64 = v.parse().unwrap_or(0);
                            if k == "capped" {
                                capped = true;
                            } else if k.starts_with("max_") {
                                let e = counters.entry(k.into()).or_insert(0);
                                *e = (*e).max(v);
                            } else {
                                *counters.entry(k.into()).or_insert(0) += v;
                            }
                        }
                    }
                }
                "S" => samples.push((
                    f[1].parse().unwrap_or(0),
                    format!(
                        "[{}] {}",
                        uname(f[1].parse().unwrap_or(-1)),
                        f[2..].join(" ")
                    ),
                )),
                "T" => times.push((f[2].parse().unwrap_or(0.0), f[1].parse().unwrap_or(0))),
                "V" => viol.push((
                    uname(f[1].parse().unwrap_or(-1)),
                    f[2].into(),
                    f[3].into(),
                    f.get(4).and_then(|x| x.parse().ok()).unwrap_or(0),
                    f.get(5).unwrap_or(&"").to_string(),
                )),
                "K" => {
                    knownhits.entry(f[2].into()).or_insert_with(|| f[3].into());
                }
                "E" => errors.push(f[1..].join(" ")),
                _ => {}
            }
        }
    }
    if std::env::var("MC_TIMES").is_ok() {
        times.sort_by(|a, b| b.partial_cmp(a).unwrap());
        for (t, u) in times.iter().take(30) {
            println!("  {t:8.2} s  {}", spec.units[*u].name);
        }
    }
    let _ = std::fs::remove_dir_all(&logdir);
    if done < spec.units.len() {
        capped = true;
    }
    let mut wall = t0.elapsed().as_secs_f64();
    let mut distinct_n = sh.distinct.load(Relaxed);
    let mut units_n = done as u64;
    let exe = args[0].rsplit('/').next().unwrap_or("").to_string();
    let mut viol: Vec<(String, String, String, u64, String, String)> =
        viol.into_iter().map(|(a, b, c, d, e)| (a, b, c, d, e, exe.clone())).collect();
    // a check of several parts: the first ones leave their results to the last one
    if let Ok(path) = std::env::var("MC_PART") {
        let mut o = format!("N\t{units_n}\t{distinct_n}\t{wall}\t{}\n", capped as u32);
        for (k, v) in &counters {
            o += &format!("C\t{k}\t{v}\n");
        }
        for (u, k, m, ord, ch, _) in &viol {
            o += &format!("V\t{u}\t{k}\t{m}\t{ord}\t{ch}\tMC_PROPERTY={} {exe}\n", spec.property);
        }
        for (k, m) in &knownhits {
            o += &format!("K\t{k}\t{m}\n");
        }
        for e in &errors {
            o += &format!("E\t{e}\n");
        }
        std::fs::write(&path, o).expect("part file");
        std::process::exit(0);
    }
    if let Ok(path) = std::env::var("MC_JOIN") {
        let t = std::fs::read_to_string(&path).unwrap_or_default();
        if !t.starts_with("N\t") {
            errors.push("the instrumented part gave no result".into());
        }
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "N" => {
                    units_n += num(1);
                    distinct_n += num(2);
                    wall += f.get(3).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
                    capped |= num(4) != 0;
                    counters.insert("interleaved_units".into(), num(1));
                }
                "C" => {
                    let e = counters.entry(f[1].into()).or_insert(0);
                    *e = if f[1].starts_with("max_") { (*e).max(num(2)) } else { *e + num(2) };
                }
                "V" if f.len() > 6 => {
                    viol.push((f[1].into(), f[2].into(), f[3].into(), num(4), f[5].into(), f[6].into()))
                }
                "K" => {
                    knownhits.entry(f[1].into()).or_insert_with(|| f[2].into());
                }
                "E" => errors.push(f[1..].join(" ")),
                _ => {}
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    samples.sort();
    let keep = 12;
    let n = samples.len();
    let samples: Vec<J> = (0..n.min(keep))
        .map(|i| J::S(samples[i * n / n.min(keep)].1.chars().take(600).collect()))
        .collect();
    let evals = counters.remove("evaluations").unwrap_or(0);
    let mut cov = J::obj();
    match spec.level {
        Level::Exploration => {
            cov = cov
                .put("evaluations", evals)
                .put("distinct_nontrivial", distinct_n)
                .put("rule", spec.rule.as_str());
        }
        Level::ModelChecking => {
            let tr = counters.remove("transitions").unwrap_or(0);
            let execs = counters.remove("executions").unwrap_or(0);
            let st = counters.remove("mc_states").unwrap_or(0);
            cov = cov
                .put("states", st)
                .put("distinct_cases", distinct_n)
                .put("transitions", tr)
                .put("traces_validated_against_impl", execs)
                .put("cases", evals)
                .put("rule", spec.rule.as_str());
        }
    }
    cov = cov.put(
        "exhaustive",
        !capped && viol.is_empty() && errors.is_empty(),
    );
    cov = cov.put("samples", J::A(samples)).put("units", units_n);
    if sh.table_full.load(Relaxed) {
        cov = cov.put("distinct_count_saturated", true);
    }
    for (k, v) in &counters {
        cov = cov.put(k, *v);
    }
    if let Ok(extra) = std::env::var("MC_EXTRA") {
        cov = cov.put("conformance", extra);
    }
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let ev = J::obj()
        .put("property", spec.property)
        .put(
            "tier",
            if tier == Tier::Quick {
                "quick"
            } else {
                "thorough"
            },
        )
        .put("seed", J::I(seed))
        .put(
            "level",
            if spec.level == Level::Exploration {
                "exploration"
            } else {
                "model_checking"
            },
        )
        .put("coverage", cov)
        .put(
            "assumptions",
            J::A(spec.assumptions.iter().map(|s| J::S(s.clone())).collect()),
        )
        .put("wall_s", J::F(wall))
        .put("violations", viol.len() as u64);
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(format!("{evd}/{}.json", spec.property), ev.text() + "\n")
        .expect("evidence file");
    for (k, what) in &known {
        if let Some(m) = knownhits.get(k) {
            println!("KNOWN-FINDING: property={} {what} [{k}] {m}", spec.property);
        }
    }
    println!(
        "{} {:?}: {} units, {} cases, {} distinct, {:?}, capped={capped}, {wall:.1} s",
        spec.property, tier, units_n, evals, distinct_n, counters
    );
    if !viol.is_empty() {
        let rd = format!("{vd}/replays");
        let _ = std::fs::create_dir_all(&rd);
        for (k, (unit, key, msg, ord, ch, exe)) in viol.iter().take(4).enumerate() {
            let path = format!("{rd}/{}-{}.json", spec.property, k);
            let rep = J::obj()
                .put("property", spec.property)
                .put("unit", unit.as_str())
                .put("key", key.as_str())
                .put("what", msg.as_str())
                .put("exploration", *ord)
                .put("choices", ch.as_str())
                .put(
                    "replay",
                    format!(
                        "VERIF_TIER={} {exe} --unit '{unit}' {}",
                        if tier == Tier::Quick {
                            "quick"
                        } else {
                            "thorough"
                        },
                        if ch.is_empty() {
                            String::new()
                        } else {
                            format!("{ord} {ch}")
                        }
                    ),
                );
            let _ = std::fs::write(&path, rep.text() + "\n");
            println!("VIOLATION property={} replay={path}", spec.property);
            println!("  unit {unit} [{key}]: {msg}");
        }
        std::process::exit(1);
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            println!("MACHINERY-ERROR {e}");
        }
        std::process::exit(2);
    }
    std::process::exit(0);
}
