//! Stand-in for rayon-core. Which tasks are stolen is a choice of the explorer; under the controlled
//! scheduler stolen and spawned tasks are logical threads of their own, otherwise they run on the calling
//! thread in an order the explorer picks.
use mcrt::choice::{choose, Kind};
use mcrt::sched;
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
    static WIDTH: Cell<usize> = const { Cell::new(0) };
}
fn width() -> usize {
    let w = WIDTH.with(|w| w.get());
    if w != 0 {
        w
    } else {
        mcrt::pool::size()
    }
}
struct Inside {
    old: Option<usize>,
    oldw: usize,
}
impl Inside {
    fn new(i: usize, w: usize) -> Self {
        Inside { old: INDEX.with(|x| x.replace(Some(i))), oldw: WIDTH.with(|x| x.replace(w)) }
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        INDEX.with(|x| x.set(self.old));
        WIDTH.with(|x| x.set(self.oldw));
    }
}
/// run in a pool thread; tells whether that meant moving there
fn in_worker<R>(w: usize, f: impl FnOnce(bool) -> R) -> R {
    if current_thread_index().is_some() {
        f(false)
    } else {
        let slot = mcrt::pool::enter(w, true);
        let _i = Inside::new(slot, w);
        let r = catch_unwind(AssertUnwindSafe(|| f(true)));
        mcrt::pool::leave(slot);
        r.unwrap_or_else(|p| resume_unwind(p))
    }
}
/// a task on a logical thread of its own (scheduler on); the returned handle must be waited for
/// before anything the task borrows ends
fn launch<'a>(w: usize, f: Box<dyn FnOnce() + Send + 'a>) -> usize {
    let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
    sched::spawn(Box::new(move || {
        let slot = mcrt::pool::enter(w, false);
        {
            let _i = Inside::new(slot, w);
            f();
        }
        mcrt::pool::leave(slot);
    }))
}
/// wait for a task; this pool thread can execute others meanwhile
fn await_task(t: usize) {
    let slot = INDEX.with(|x| x.get()).unwrap_or(usize::MAX);
    mcrt::pool::lend(slot);
    sched::wait_done(t);
    mcrt::pool::unlend(slot);
}
fn threads() -> bool {
    sched::on() && sched::s().explore
}

pub fn max_num_threads() -> usize {
    255
}
pub fn current_num_threads() -> usize {
    width()
}
pub fn current_thread_index() -> Option<usize> {
    INDEX.with(|x| x.get())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    current_thread_index().map(|_| {
        if threads() {
            sched::yield_now();
        }
        Yield::Idle
    })
}
pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let w = width();
    in_worker(w, |injected| {
        if threads() {
            let stolen = mcrt::pool::free(w) && choose(Kind::Steal, 2) == 1;
            if stolen {
                let mut rb: Option<Result<RB, Box<dyn Any + Send>>> = None;
                let slot = SendPtr(&mut rb as *mut _);
                let t = launch(
                    w,
                    Box::new(move || {
                        let s = slot;
                        let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))));
                        unsafe { *s.0 = Some(r) };
                    }),
                );
                let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
                await_task(t);
                return match (ra, rb.unwrap()) {
                    (Ok(x), Ok(y)) => (x, y),
                    (Err(p), _) | (_, Err(p)) => resume_unwind(p),
                };
            }
            let ra = a(FnContext::new(injected));
            let rb = b(FnContext::new(injected));
            return (ra, rb);
        }
        match if w > 1 { choose(Kind::Steal, 3) } else { 0 } {
            0 => {
                let ra = a(FnContext::new(injected));
                let rb = b(FnContext::new(injected));
                (ra, rb)
            }
            1 => {
                // stolen and finished before the first half starts
                let rb = catch_unwind(AssertUnwindSafe(|| elsewhere(w, || b(FnContext::new(true)))));
                let ra = a(FnContext::new(injected));
                (ra, rb.unwrap_or_else(|p| resume_unwind(p)))
            }
            _ => {
                let ra = a(FnContext::new(injected));
                let rb = elsewhere(w, || b(FnContext::new(true)));
                (ra, rb)
            }
        }
    })
}
fn elsewhere<R>(w: usize, f: impl FnOnce() -> R) -> R {
    let i = current_thread_index().unwrap_or(0);
    let _g = Inside::new((i + 1) % w.max(1), w);
    f()
}
struct SendPtr<T>(*mut T);
impl<T> Clone for SendPtr<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for SendPtr<T> {}
unsafe impl<T> Send for SendPtr<T> {}
unsafe impl<T> Sync for SendPtr<T> {}

// ---- scopes ----
struct Base<'scope> {
    w: usize,
    jobs: UnsafeCell<Vec<Box<dyn FnOnce() + Send + 'scope>>>,
    running: UnsafeCell<Vec<usize>>,
    panic: UnsafeCell<Option<Box<dyn Any + Send>>>,
    fifo: bool,
    _m: PhantomData<&'scope mut &'scope ()>,
}
unsafe impl Sync for Base<'_> {}
unsafe impl Send for Base<'_> {}
impl<'scope> Base<'scope> {
    fn new(w: usize, fifo: bool) -> Self {
        Base {
            w,
            jobs: UnsafeCell::new(vec![]),
            running: UnsafeCell::new(vec![]),
            panic: UnsafeCell::new(None),
            fifo,
            _m: PhantomData,
        }
    }
    fn add(&self, f: Box<dyn FnOnce() + Send + 'scope>) {
        if threads() {
            let t = launch(self.w, f);
            unsafe { (*self.running.get()).push(t) };
        } else {
            unsafe { (*self.jobs.get()).push(f) };
        }
    }
    fn keep_panic(&self, p: Box<dyn Any + Send>) {
        unsafe {
            let q = &mut *self.panic.get();
            if q.is_none() {
                *q = Some(p);
            }
        }
    }
    fn finish(&self) {
        loop {
            if let Some(t) = unsafe { (*self.running.get()).pop() } {
                await_task(t);
                continue;
            }
            let n = unsafe { (*self.jobs.get()).len() };
            if n == 0 {
                break;
            }
            let k = choose(Kind::Steal, n);
            let j = unsafe { (*self.jobs.get()).remove(if self.fifo { k } else { n - 1 - k }) };
            if k == 0 {
                j();
            } else {
                elsewhere(self.w, j);
            }
        }
    }
    fn run<R>(&self, op: impl FnOnce() -> R) -> R {
        let r = catch_unwind(AssertUnwindSafe(op));
        self.finish();
        match r {
            Err(p) => resume_unwind(p),
            Ok(v) => {
                if let Some(p) = unsafe { (*self.panic.get()).take() } {
                    resume_unwind(p);
                }
                v
            }
        }
    }
}
macro_rules! scope_type {
    ($name:ident, $spawn:ident, $fifo:expr) => {
        pub struct $name<'scope> {
            base: Base<'scope>,
        }
        impl<'scope> $name<'scope> {
            fn with(w: usize) -> Self {
                $name { base: Base::new(w, $fifo) }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let me = SendPtr(self as *const Self as *mut Self);
                self.base.add(Box::new(move || {
                    let m = me;
                    let s: &$name<'scope> = unsafe { &*m.0 };
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| body(s))) {
                        s.base.keep_panic(p);
                    }
                }));
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let b = std::sync::Arc::new(body);
                let n = self.base.w;
                for i in 0..n {
                    let b = b.clone();
                    self.$spawn(move |s| b(s, BroadcastContext::at(i, n)));
                }
            }
        }
    };
}
scope_type!(Scope, spawn, false);
scope_type!(ScopeFifo, spawn_fifo, true);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    let w = width();
    in_worker(w, |_| {
        let s = Scope::with(w);
        s.base.run(|| op(&s))
    })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    let w = width();
    in_worker(w, |_| {
        let s = ScopeFifo::with(w);
        s.base.run(|| op(&s))
    })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::with(width());
    s.base.run(|| op(&s))
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo::with(width());
    s.base.run(|| op(&s))
}
fn spawn_in<F: FnOnce() + Send + 'static>(w: usize, f: F) {
    if threads() {
        launch(w, Box::new(f));
    } else {
        let _g = Inside::new(0, w);
        f();
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(width(), f)
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(width(), f)
}

// ---- broadcast ----
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn at(index: usize, n: usize) -> Self {
        BroadcastContext { index, n, _m: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
fn broadcast_in<OP, R>(n: usize, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let out: Vec<UnsafeCell<Option<R>>> = (0..n).map(|_| UnsafeCell::new(None)).collect();
    let p = SendPtr(out.as_ptr() as *mut UnsafeCell<Option<R>>);
    let o = SendPtr(&op as *const OP as *mut OP);
    in_place_scope(|s| {
        for i in 0..n {
            s.spawn(move |_| {
                let (p, o) = (p, o);
                let _g = Inside::new(i, n);
                unsafe { *(*p.0.add(i)).get() = Some((*o.0)(BroadcastContext::at(i, n))) };
            });
        }
    });
    out.into_iter().map(|c| c.into_inner().unwrap()).collect()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_in(width(), op)
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let op = std::sync::Arc::new(op);
    let n = width();
    for i in 0..n {
        let op = op.clone();
        spawn(move || op(BroadcastContext::at(i, n)));
    }
}

// ---- pools ----
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { w: if self.n == 0 { mcrt::pool::size() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if self.n != 0 {
            mcrt::pool::set_size(self.n);
        }
        Ok(())
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        Ok(with_pool(&self.build()?))
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn stack_size(self, _s: usize) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    w: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let w = self.w;
        let _i = Inside::new(0, w);
        op()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_in(self.w, op)
    }
    pub fn current_num_threads(&self) -> usize {
        self.w
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let s = Scope::with(self.w);
        s.base.run(|| op(&s))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let s = ScopeFifo::with(self.w);
        s.base.run(|| op(&s))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(self.w, op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(self.w, op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
