//! The simulated operating system under krates: processes, pipes, a filesystem namespace,
//! a clock, and the scheduler of the client threads.
//!
//! krates and std run unmodified; the libc functions they reach the system through are
//! defined here, in the executable, and so take the place of libc's. For threads that are not
//! clients of a simulation they pass the call on. One client runs at a time. At every system
//! call, and wherever a client says `step`, the scheduler decides who runs next.

use crate::rng::Rng;
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{CStr, CString};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const FD_BASE: i32 = 1_000_000;
pub const PID_BASE: i32 = 5_000_000;
const MAX_CLIENTS: usize = 256;

/// Something a simulated child does
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// nothing, for so many nanoseconds
    Wait(u64),
    /// write to its stdout (1) or stderr (2)
    Write(u8, Vec<u8>),
    Close(u8),
    /// a process it leaves behind holds its stdout or stderr open for a while
    Leave(u8, u64),
    Exit(i32),
    Die(i32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spawn {
    pub client: usize,
    pub program: Vec<u8>,
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
    pub cwd: Option<Vec<u8>>,
    /// whether stdout, stderr are pipes to the parent
    pub piped: [bool; 2],
    pub pid: i32,
}

pub type Spawner = Box<dyn FnMut(&Spawn, &Fs) -> Result<Vec<Act>, i32> + Send>;

struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    readers: usize,
    writers: usize,
}

#[derive(Clone, Copy)]
struct Fd {
    pipe: usize,
    read: bool,
    nonblock: bool,
}

/// A path or argument as text. The byte 0xff, which is in no UTF-8, is the character U+E000.
pub fn text(b: &[u8]) -> String {
    let parts: Vec<_> = b.split(|c| *c == 0xff).map(String::from_utf8_lossy).collect();
    parts.join("\u{e000}")
}

/// The other way
pub fn bytes(s: &str) -> Vec<u8> {
    let parts: Vec<_> = s.split('\u{e000}').map(str::as_bytes).collect();
    parts.join(&0xff)
}

struct Proc {
    pid: i32,
    acts: VecDeque<Act>,
    /// pipes of its stdout and stderr
    out: [Option<usize>; 2],
    blocked: Option<usize>,
    status: Option<i32>,
    reaped: u32,
    /// what it got into the pipes
    wrote: [Vec<u8>; 2],
}

enum Ev {
    Step(usize),
    CloseWriter(usize),
    Nothing,
}

#[derive(Clone, Debug, PartialEq)]
enum Cond {
    Ready,
    Readable(Vec<i32>),
    Exited(i32),
    /// a word of memory is no longer what it was, or the time has come
    Futex(usize, u32, Option<u64>),
    /// a thread has ended
    Ended(usize),
    Done,
}

/// Rates of the faults of a run, in percent of the calls they can strike
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub eintr: u32,
    pub short_read: u32,
    /// the n-th pipe2 of the run fails with the errno
    pub pipe: Option<(u32, i32)>,
    pub open: Option<(u32, i32)>,
    pub spawn: Option<(u32, i32)>,
    pub wait: Option<(u32, i32)>,
    /// nanoseconds a system call takes, at most
    pub latency: u64,
    /// capacity of pipes
    pub pipe_cap: usize,
    /// chance that another client goes first at a switch point
    pub preempt: u32,
    /// every so many allocations of an exposed client, on average, there is a switch point
    pub alloc: u32,
}

/// A name in the simulated filesystem
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File,
    Link(String),
}

#[derive(Clone, Debug)]
pub enum FsEv {
    Put(String, Node),
    Remove(String),
}

#[derive(Clone, Debug, Default)]
pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub cwd: String,
    /// percent of calls that fail, and how
    pub fail: u32,
    pub errnos: Vec<i32>,
    /// before the n-th call, the tree changes
    pub script: VecDeque<(u32, FsEv)>,
    pub calls: u32,
    /// what it was like before each change
    pub past: Vec<BTreeMap<String, Node>>,
}

impl Fs {
    pub fn mkdirs(&mut self, path: &str) {
        let mut at = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            at.push('/');
            at.push_str(c);
            self.nodes.entry(at.clone()).or_insert(Node::Dir);
        }
    }

    pub fn file(&mut self, path: &str) {
        let (dir, _) = path.rsplit_once('/').unwrap();
        self.mkdirs(dir);
        self.nodes.insert(path.to_owned(), Node::File);
    }

    pub fn link(&mut self, path: &str, to: &str) {
        let (dir, _) = path.rsplit_once('/').unwrap();
        self.mkdirs(dir);
        self.nodes.insert(path.to_owned(), Node::Link(to.to_owned()));
    }

    pub fn apply(&mut self, e: &FsEv) {
        self.past.push(self.nodes.clone());
        match e {
            FsEv::Put(p, n) => {
                self.nodes.insert(p.clone(), n.clone());
            }
            FsEv::Remove(p) => {
                let pre = format!("{p}/");
                self.nodes.retain(|k, _| k != p && !k.starts_with(&pre));
            }
        }
    }

    /// The path of a name itself, whatever it links to
    pub fn resolve_parent(&self, path: &str) -> Result<String, i32> {
        let p = path.trim_end_matches('/');
        let (dir, name) = p.rsplit_once('/').unwrap_or((".", p));
        if p.len() != path.len() || matches!(name, "" | "." | "..") {
            return self.resolve(path);
        }
        let d = self.resolve(if dir.is_empty() { "/" } else { dir })?;
        let at = if d == "/" { format!("/{name}") } else { format!("{d}/{name}") };
        if self.nodes.contains_key(&at) { Ok(at) } else { Err(libc::ENOENT) }
    }

    /// realpath(3)
    pub fn resolve(&self, path: &str) -> Result<String, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let full = if path.starts_with('/') { path.to_owned() } else { format!("{}/{path}", self.cwd) };
        let mut todo: Vec<String> = full.split('/').rev().map(str::to_owned).collect();
        let mut at = String::new();
        let mut links = 0;
        let mut must_dir = false;
        while let Some(c) = todo.pop() {
            match c.as_str() {
                "" | "." => {
                    must_dir |= !todo.is_empty() || c == ".";
                    continue;
                }
                ".." => {
                    at.truncate(at.rfind('/').unwrap_or(0));
                    continue;
                }
                _ => {}
            }
            if !at.is_empty() {
                match self.nodes.get(&at) {
                    Some(Node::Dir) => {}
                    _ => return Err(libc::ENOTDIR),
                }
            }
            let next = format!("{at}/{c}");
            match self.nodes.get(&next) {
                None => return Err(libc::ENOENT),
                Some(Node::Link(to)) => {
                    links += 1;
                    if links > 40 {
                        return Err(libc::ELOOP);
                    }
                    if to.starts_with('/') {
                        at.clear();
                    }
                    todo.extend(to.split('/').rev().map(str::to_owned));
                }
                Some(_) => at = next,
            }
        }
        let _ = must_dir;
        if at.is_empty() {
            at.push('/');
        }
        if path.ends_with('/') && self.nodes.get(&at) == Some(&Node::File) {
            return Err(libc::ENOTDIR);
        }
        Ok(at)
    }
}

pub struct Kernel {
    pub now: u64,
    seq: u64,
    events: BTreeMap<(u64, u64), Ev>,
    pipes: Vec<Pipe>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    procs: Vec<Proc>,
    /// the clients, and the threads they start
    clients: Vec<Cond>,
    /// the client a thread belongs to
    owner: Vec<usize>,
    threads: BTreeMap<usize, usize>,
    current: usize,
    rng: Rng,
    pub faults: Faults,
    pub fs: Fs,
    pub spawner: Option<Spawner>,
    pub spawns: Vec<Spawn>,
    file_actions: BTreeMap<usize, (Vec<(i32, i32)>, Option<Vec<u8>>)>,
    calls: BTreeMap<&'static str, u32>,
    /// how often each fault fired, and each event of note happened
    pub counts: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub steps: u64,
    pub max_steps: u64,
    /// what went wrong in the system itself
    pub wrong: Vec<(&'static str, String)>,
    abort: bool,
    pub random: u64,
    pub switches: u64,
    pub env_writes: Vec<String>,
    /// faults that make a call fail for good: client, call, errno
    pub injected: Vec<(usize, &'static str, i32)>,
}

/// How a finished child ended, and what it really wrote
#[derive(Clone, Debug)]
pub struct ChildReport {
    pub pid: i32,
    pub status: Option<i32>,
    pub reaped: u32,
    pub wrote: [Vec<u8>; 2],
}

static K: Mutex<Option<Kernel>> = Mutex::new(None);
static CV: [Condvar; MAX_CLIENTS] = [const { Condvar::new() }; MAX_CLIENTS];
static MAIN: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    /// whether the thread is inside the kernel
    static BUSY: Cell<u32> = const { Cell::new(0) };
    /// allocations until the next switch point, the mean gap, and where the gaps come from
    static GAP: Cell<(u32, u32, u64)> = const { Cell::new((0, 0, 0)) };
}

/// The kernel, for as long as it is looked at
pub struct Guard(Option<MutexGuard<'static, Option<Kernel>>>);

impl Drop for Guard {
    fn drop(&mut self) {
        drop(self.0.take());
        BUSY.with(|b| b.set(b.get() - 1));
    }
}

impl std::ops::Deref for Guard {
    type Target = Option<Kernel>;
    fn deref(&self) -> &Option<Kernel> {
        self.0.as_ref().unwrap()
    }
}

impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Option<Kernel> {
        self.0.as_mut().unwrap()
    }
}

impl Guard {
    fn wait(&mut self, on: &Condvar) {
        let g = self.0.take().unwrap();
        self.0 = Some(on.wait(g).unwrap_or_else(|p| p.into_inner()));
    }
}

fn me() -> Option<usize> {
    let m = ME.with(Cell::get);
    (m >= 0 && QUIET.with(Cell::get) == 0).then_some(m as usize)
}

/// Runs harness code on a client thread: its system calls are its own
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

fn lock() -> Guard {
    BUSY.with(|b| b.set(b.get() + 1));
    Guard(Some(K.lock().unwrap_or_else(|p| p.into_inner())))
}

/// Runs `f` with switch points at some of its allocations
pub fn exposed<R>(f: impl FnOnce() -> R) -> R {
    struct G((u32, u32, u64));
    impl Drop for G {
        fn drop(&mut self) {
            GAP.with(|g| g.set(self.0));
        }
    }
    let _g = G(GAP.with(Cell::get));
    if me().is_some() {
        let (mean, seed) = with(|k| {
            let on = k.faults.alloc > 0 && k.clients.len() > 1;
            if on { (k.faults.alloc, k.rng.next() | 1) } else { (0, 0) }
        });
        GAP.with(|g| g.set((mean.min(1), mean, seed)));
    }
    f()
}

/// Memory, from the system
pub struct Memory;

fn allocates() {
    let (left, mean, seed) = GAP.with(Cell::get);
    if mean == 0 || me().is_none() || BUSY.with(Cell::get) > 0 {
        return;
    }
    if left > 1 {
        GAP.with(|g| g.set((left - 1, mean, seed)));
        return;
    }
    let mut s = seed;
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    GAP.with(|g| g.set((1 + ((s >> 11) % (2 * u64::from(mean))) as u32, mean, s)));
    step("allocates");
    with(|k| k.count("preempt.allocation"));
}

unsafe impl std::alloc::GlobalAlloc for Memory {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        allocates();
        unsafe { std::alloc::System.alloc(l) }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }

    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        allocates();
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }

    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        allocates();
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}

#[global_allocator]
static MEMORY: Memory = Memory;

/// Looks at, or changes, the kernel from a client or the harness
pub fn with<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
    f(lock().as_mut().expect("no simulation"))
}

impl Kernel {
    pub fn new(rng: Rng, faults: Faults) -> Self {
        Kernel {
            now: 0,
            seq: 0,
            events: BTreeMap::new(),
            pipes: Vec::new(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            procs: Vec::new(),
            clients: Vec::new(),
            owner: Vec::new(),
            threads: BTreeMap::new(),
            current: 0,
            rng,
            faults,
            fs: Fs { cwd: "/".to_owned(), ..Default::default() },
            spawner: None,
            spawns: Vec::new(),
            file_actions: BTreeMap::new(),
            calls: BTreeMap::new(),
            counts: BTreeMap::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            tracing: false,
            trace: Vec::new(),
            steps: 0,
            max_steps: 400_000,
            wrong: Vec::new(),
            abort: false,
            random: 0,
            switches: 0,
            env_writes: Vec::new(),
            injected: Vec::new(),
        }
    }

    pub fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_default() += 1;
    }

    /// An event of the run: part of its identity, and of its trace
    pub fn note(&mut self, what: &'static str, a: u64, text: impl FnOnce() -> String) {
        for w in [what.as_ptr() as u64 & 0, crate::rng::hash_str(what), a, self.current as u64] {
            self.hash = (self.hash ^ w).wrapping_mul(0x100_0000_01b3).rotate_left(29);
        }
        if self.tracing && self.trace.len() < 4000 {
            let t = text();
            self.trace.push(format!("t={:<9} client {} {what} {t}", self.now, self.current));
        }
    }

    pub fn children(&self) -> Vec<ChildReport> {
        self.procs
            .iter()
            .map(|p| ChildReport { pid: p.pid, status: p.status, reaped: p.reaped, wrote: p.wrote.clone() })
            .collect()
    }

    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }

    fn at(&mut self, dt: u64, e: Ev) {
        self.seq += 1;
        self.events.insert((self.now + dt, self.seq), e);
    }

    fn nth(&mut self, what: &'static str) -> u32 {
        let c = self.calls.entry(what).or_default();
        *c += 1;
        *c
    }

    /// The time a call takes passes, and whatever happens in it happens
    fn spend(&mut self) {
        self.steps += 1;
        if self.steps > self.max_steps && !self.abort {
            self.wrong.push(("livelock", format!("{} system calls and no end", self.steps)));
            self.abort = true;
        }
        let l = self.faults.latency;
        if l > 0 {
            let dt = self.rng.below(l as usize + 1) as u64;
            let until = self.now + dt;
            while let Some((&k, _)) = self.events.first_key_value() {
                if k.0 > until {
                    break;
                }
                self.event();
            }
            self.now = self.now.max(until);
        }
    }

    fn event(&mut self) -> bool {
        let Some(((t, _), e)) = self.events.pop_first() else {
            return false;
        };
        self.now = self.now.max(t);
        match e {
            Ev::Nothing => {}
            Ev::Step(p) => self.child_step(p),
            Ev::CloseWriter(p) => {
                self.pipes[p].writers -= 1;
                self.note("left-behind process closes", p as u64, String::new);
            }
        }
        true
    }

    fn drop_writer(&mut self, p: usize) {
        self.pipes[p].writers -= 1;
    }

    fn child_end(&mut self, i: usize, status: i32) {
        for o in 0..2 {
            if let Some(p) = self.procs[i].out[o].take() {
                self.drop_writer(p);
            }
        }
        self.procs[i].status = Some(status);
        let pid = self.procs[i].pid;
        self.note("child ends", status as u64, || format!("pid {pid} wait status {status:#x}"));
    }

    fn child_step(&mut self, i: usize) {
        if self.procs[i].status.is_some() {
            return;
        }
        let Some(act) = self.procs[i].acts.pop_front() else {
            self.child_end(i, 0);
            return;
        };
        match act {
            Act::Wait(n) => {
                self.note("child waits", n, || format!("{n}ns"));
                self.at(n, Ev::Step(i));
                return;
            }
            Act::Write(fd, data) => {
                let o = fd as usize - 1;
                if let Some(p) = self.procs[i].out[o] {
                    if self.pipes[p].readers == 0 {
                        self.count("child.sigpipe");
                        self.child_end(i, libc::SIGPIPE);
                        return;
                    }
                    let room = self.pipes[p].cap - self.pipes[p].buf.len();
                    let n = room.min(data.len());
                    self.pipes[p].buf.extend(&data[..n]);
                    self.procs[i].wrote[o].extend_from_slice(&data[..n]);
                    self.note("child writes", (n as u64) << 2 | u64::from(fd), || format!("{n} of {} bytes to fd {fd}", data.len()));
                    if n < data.len() {
                        self.procs[i].acts.push_front(Act::Write(fd, data[n..].to_vec()));
                        self.procs[i].blocked = Some(p);
                        self.count("child.pipe-full");
                        return;
                    }
                }
            }
            Act::Close(fd) => {
                if let Some(p) = self.procs[i].out[fd as usize - 1].take() {
                    self.drop_writer(p);
                    self.note("child closes", u64::from(fd), || format!("fd {fd}"));
                }
            }
            Act::Leave(fd, n) => {
                if let Some(p) = self.procs[i].out[fd as usize - 1] {
                    self.pipes[p].writers += 1;
                    self.at(n, Ev::CloseWriter(p));
                    self.count("child.left-behind");
                    self.note("child leaves a process", n, || format!("holding fd {fd} for {n}ns"));
                }
            }
            Act::Exit(c) => {
                self.child_end(i, (c & 0xff) << 8);
                return;
            }
            Act::Die(s) => {
                self.child_end(i, s);
                return;
            }
        }
        self.at(1, Ev::Step(i));
    }

    fn drained(&mut self, p: usize) {
        for i in 0..self.procs.len() {
            if self.procs[i].blocked == Some(p) {
                self.procs[i].blocked = None;
                self.at(1, Ev::Step(i));
            }
        }
    }

    fn readable(&self, fd: i32) -> bool {
        let Some(f) = self.fds.get(&fd) else { return true };
        let p = &self.pipes[f.pipe];
        !p.buf.is_empty() || p.writers == 0
    }

    fn holds(&self, c: &Cond) -> bool {
        self.abort
            || match c {
                Cond::Ready => true,
                Cond::Readable(fds) => fds.iter().any(|f| self.readable(*f)),
                Cond::Exited(pid) => self.procs.iter().all(|p| p.pid != *pid || p.status.is_some()),
                Cond::Futex(at, was, until) => {
                    let now = unsafe { (*(*at as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
                    now != *was || until.is_some_and(|t| t <= self.now)
                }
                Cond::Ended(c) => self.clients[*c] == Cond::Done,
                Cond::Done => false,
            }
    }

    fn runnable(&self) -> Vec<usize> {
        (0..self.clients.len())
            .filter(|i| self.clients[*i] != Cond::Done && self.holds(&self.clients[*i]))
            .collect()
    }

    fn eintr(&mut self, what: &'static str) -> bool {
        let p = self.faults.eintr;
        if p > 0 && self.rng.pct(p) {
            self.count(what);
            self.note("interrupted", crate::rng::hash_str(what), || what.to_owned());
            return true;
        }
        false
    }
}

fn kr(g: &mut Guard) -> &mut Kernel {
    g.as_mut().expect("no simulation")
}

fn wait_turn(mut g: Guard, me: usize) -> Guard {
    while kr(&mut g).current != me {
        g.wait(&CV[me]);
    }
    g
}

fn hand_over(mut g: Guard, me: usize, to: usize) -> Guard {
    let k = kr(&mut g);
    if to == me {
        return g;
    }
    k.switches += 1;
    k.note("runs next", to as u64, || format!("client {to}"));
    k.current = to;
    CV[to].notify_one();
    wait_turn(g, me)
}

/// A point at which another client may go first
fn preempt(mut g: Guard, me: usize) -> Guard {
    let k = kr(&mut g);
    if k.clients.len() > 1 && k.faults.preempt > 0 {
        let p = k.faults.preempt;
        if k.rng.pct(p) {
            let r = k.runnable();
            let to = *k.rng.pick(&r);
            return hand_over(g, me, to);
        }
    }
    g
}

/// Blocks the caller until `c` holds
fn block(mut g: Guard, who: Option<usize>, c: Cond) -> Guard {
    loop {
        let k = kr(&mut g);
        if k.holds(&c) {
            if let Some(m) = who {
                k.clients[m] = Cond::Ready;
            }
            return g;
        }
        if let Some(m) = who {
            k.clients[m] = c.clone();
            let r = k.runnable();
            if !r.is_empty() {
                let to = *k.rng.pick(&r);
                g = hand_over(g, m, to);
                continue;
            }
        }
        if !k.event() {
            let text = format!("every client is blocked for good: {:?}, on {c:?}", k.clients);
            k.note("deadlock", 0, || text.clone());
            k.wrong.push(("deadlock", text));
            k.abort = true;
        }
    }
}

/// A point of the client's own program where others may run
pub fn step(label: &'static str) {
    let Some(m) = me() else { return };
    let mut g = lock();
    let k = kr(&mut g);
    k.steps += 1;
    k.note(label, 1, String::new);
    drop(preempt(g, m));
}

/// A thread has ended: who goes on?
fn ended(i: usize) {
    let mut g = lock();
    let k = kr(&mut g);
    k.clients[i] = Cond::Done;
    loop {
        let k = kr(&mut g);
        let live = k.clients.iter().any(|c| *c != Cond::Done);
        if !live {
            MAIN.notify_all();
            break;
        }
        let r = k.runnable();
        if !r.is_empty() {
            let to = if r.len() > 1 { *k.rng.pick(&r) } else { r[0] };
            k.current = to;
            CV[to].notify_one();
            break;
        }
        if !k.event() {
            let text = format!("every client left is blocked for good: {:?}", k.clients);
            k.wrong.push(("deadlock", text));
            k.abort = true;
        }
    }
}

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static PTR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = PTR.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr().cast()) } as usize;
            PTR.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        assert!(p != 0, $name);
        unsafe { std::mem::transmute::<usize, $t>(p) }
    }};
}

pub type Client = Box<dyn FnOnce() + Send>;

/// A client, in a thread that does nothing but run it: the threads of the standard library take locks
/// of their own when they start and end, and clients that start threads would wait for those
struct Task {
    i: usize,
    f: Client,
    ends: Arc<Mutex<Vec<Option<std::thread::Result<()>>>>>,
}

extern "C" fn task(p: *mut c_void) -> *mut c_void {
    let Task { i, f, ends } = *unsafe { Box::from_raw(p.cast::<Task>()) };
    drop(wait_turn(lock(), i));
    ME.with(|m| m.set(i as i32));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ME.with(|m| m.set(-1));
    ends.lock().unwrap()[i] = Some(r);
    drop(ends);
    ended(i);
    std::ptr::null_mut()
}

impl Task {
    fn start(self) -> libc::pthread_t {
        type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Routine, *mut c_void) -> c_int;
        unsafe {
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            assert_eq!(libc::pthread_attr_init(&mut attr), 0);
            assert_eq!(libc::pthread_attr_setstacksize(&mut attr, 16 << 20), 0);
            let mut t = 0;
            let r = real!("pthread_create", F)(&mut t, &attr, task, Box::into_raw(Box::new(self)).cast());
            assert_eq!(r, 0, "harness: a thread for a client");
            libc::pthread_attr_destroy(&mut attr);
            t
        }
    }
}

/// Runs clients to their end. Returns the kernel and how each client ended.
pub fn run(mut kernel: Kernel, clients: Vec<Client>) -> (Kernel, Vec<std::thread::Result<()>>) {
    let n = clients.len();
    assert!(n > 0 && n <= MAX_CLIENTS);
    kernel.clients = vec![Cond::Ready; n];
    kernel.owner = (0..n).collect();
    kernel.current = if n > 1 { kernel.rng.below(n) } else { 0 };
    *lock() = Some(kernel);
    let ends = Arc::new(Mutex::new((0..n).map(|_| None).collect::<Vec<_>>()));
    let threads: Vec<_> =
        clients.into_iter().enumerate().map(|(i, f)| Task { i, f, ends: ends.clone() }.start()).collect();
    for t in threads {
        type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
        unsafe { real!("pthread_join", F)(t, std::ptr::null_mut()) };
    }
    let res = ends.lock().unwrap().iter_mut().map(|r| r.take().expect("a client has no end")).collect();
    // threads nobody waited for go on, too
    let mut g = lock();
    while kr(&mut g).clients.iter().any(|c| *c != Cond::Done) {
        g.wait(&MAIN);
    }
    let mut k = g.take().expect("no simulation");
    drop(g);
    // whatever children are still up to happens
    let mut n = 0;
    while k.event() {
        n += 1;
        if n > 2_000_000 {
            break;
        }
    }
    (k, res)
}

// ---------------------------------------------------------------------------------------
// What takes the place of libc

fn fail(errno: c_int) -> c_int {
    unsafe { *libc::__errno_location() = errno };
    -1
}

fn enter(what: &'static str) -> (Guard, Option<usize>) {
    let m = me();
    let mut g = lock();
    if let Some(m) = m {
        g = preempt(g, m);
    }
    let k = kr(&mut g);
    k.spend();
    let _ = what;
    (g, m)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if me().is_none() {
        return unsafe { libc::syscall(libc::SYS_pipe2, fds, flags) as c_int };
    }
    let (mut g, _) = enter("pipe2");
    let k = kr(&mut g);
    let n = k.nth("pipe2");
    if let Some((at, e)) = k.faults.pipe
        && at == n
    {
        k.count("fault.pipe2");
        k.injected.push((k.owner[k.current], "pipe2", e));
        k.note("pipe2 fails", e as u64, || format!("errno {e}"));
        return fail(e);
    }
    let cap = k.faults.pipe_cap.max(1);
    k.pipes.push(Pipe { buf: VecDeque::new(), cap, readers: 1, writers: 1 });
    let p = k.pipes.len() - 1;
    for (i, read) in [(0, true), (1, false)] {
        let fd = k.next_fd;
        k.next_fd += 1;
        k.fds.insert(fd, Fd { pipe: p, read, nonblock: flags & libc::O_NONBLOCK != 0 });
        unsafe { *fds.add(i) = fd };
    }
    k.note("pipe2", p as u64, || format!("-> pipe {p}"));
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < FD_BASE {
        return unsafe { libc::syscall(libc::SYS_close, fd) as c_int };
    }
    let mut g = lock();
    let Some(k) = g.as_mut() else { return fail(libc::EBADF) };
    let Some(f) = k.fds.remove(&fd) else {
        k.wrong.push(("fd", format!("fd {fd} is closed but not open")));
        return fail(libc::EBADF);
    };
    if f.read {
        k.pipes[f.pipe].readers -= 1;
        if k.pipes[f.pipe].readers == 0 {
            k.drained(f.pipe);
        }
    } else {
        k.drop_writer(f.pipe);
    }
    k.note("close", fd as u64, || format!("fd {fd}"));
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd < FD_BASE {
        return unsafe { libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t };
    }
    let (mut g, m) = enter("read");
    let k = kr(&mut g);
    let Some(f) = k.fds.get(&fd).copied() else {
        k.wrong.push(("fd", format!("read of fd {fd}, which is not open")));
        return fail(libc::EBADF) as ssize_t;
    };
    if k.eintr("fault.eintr.read") {
        return fail(libc::EINTR) as ssize_t;
    }
    if !k.readable(fd) {
        if f.nonblock {
            k.note("read", 0, || format!("fd {fd}: nothing yet"));
            return fail(libc::EAGAIN) as ssize_t;
        }
        g = block(g, m, Cond::Readable(vec![fd]));
    }
    let k = kr(&mut g);
    if k.abort {
        return fail(libc::EIO) as ssize_t;
    }
    let avail = k.pipes[f.pipe].buf.len();
    let mut take = avail.min(n);
    let p = k.faults.short_read;
    if take > 1 && p > 0 && k.rng.pct(p) {
        take = 1 + k.rng.below(take - 1);
        k.count("fault.short-read");
    }
    for i in 0..take {
        let b = k.pipes[f.pipe].buf.pop_front().unwrap();
        unsafe { *buf.cast::<u8>().add(i) = b };
    }
    if take > 0 {
        k.drained(f.pipe);
    }
    k.note("read", take as u64 + 1, || format!("fd {fd}: {take} bytes"));
    take as ssize_t
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let s: &mut [libc::pollfd] = if n == 0 { &mut [] } else { unsafe { std::slice::from_raw_parts_mut(fds, n as usize) } };
    if !s.iter().any(|p| p.fd >= FD_BASE) {
        return unsafe { libc::syscall(libc::SYS_poll, fds, n, timeout) as c_int };
    }
    let (mut g, m) = enter("poll");
    let k = kr(&mut g);
    if k.eintr("fault.eintr.poll") {
        return fail(libc::EINTR);
    }
    let want: Vec<i32> = s.iter().map(|p| p.fd).collect();
    if timeout != 0 {
        // krates never polls with a timeout; one that did would be woken by the next event
        g = block(g, m, Cond::Readable(want));
    }
    let k = kr(&mut g);
    if k.abort {
        return fail(libc::EINVAL);
    }
    let mut r = 0;
    for p in s.iter_mut() {
        p.revents = 0;
        match k.fds.get(&p.fd) {
            None => p.revents = libc::POLLNVAL,
            Some(f) => {
                let pi = &k.pipes[f.pipe];
                if !pi.buf.is_empty() {
                    p.revents |= libc::POLLIN;
                }
                if pi.writers == 0 {
                    p.revents |= libc::POLLHUP;
                }
            }
        }
        r += c_int::from(p.revents != 0);
    }
    k.note("poll", r as u64, || format!("{r} ready"));
    r
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_int) -> c_int {
    if fd < FD_BASE {
        return unsafe { libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int };
    }
    let mut g = lock();
    let k = kr(&mut g);
    if req == libc::FIONBIO
        && let Some(f) = k.fds.get_mut(&fd)
    {
        f.nonblock = unsafe { *arg } != 0;
        return 0;
    }
    k.wrong.push(("fd", format!("ioctl {req:#x} of fd {fd}")));
    fail(libc::ENOTTY)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd < FD_BASE {
        return unsafe { libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int };
    }
    let mut g = lock();
    let k = kr(&mut g);
    let Some(f) = k.fds.get(&fd).copied() else { return fail(libc::EBADF) };
    match cmd {
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_SETFD => 0,
        libc::F_GETFL => if f.nonblock { libc::O_NONBLOCK } else { 0 },
        libc::F_SETFL => {
            k.fds.get_mut(&fd).unwrap().nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            0
        }
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            let n = k.next_fd;
            k.next_fd += 1;
            k.fds.insert(n, f);
            if f.read {
                k.pipes[f.pipe].readers += 1;
            } else {
                k.pipes[f.pipe].writers += 1;
            }
            n
        }
        _ => {
            k.wrong.push(("fd", format!("fcntl {cmd} of fd {fd}")));
            fail(libc::EINVAL)
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if me().is_some() && unsafe { CStr::from_ptr(path) }.to_bytes() == b"/dev/null" {
        let (mut g, _) = enter("open");
        let k = kr(&mut g);
        let n = k.nth("open");
        if let Some((at, e)) = k.faults.open
            && at == n
        {
            k.count("fault.open");
            k.injected.push((k.owner[k.current], "open", e));
            k.note("open fails", e as u64, || format!("/dev/null: errno {e}"));
            return fail(e);
        }
    }
    if me().is_some() && !with(|k| k.fs.nodes.is_empty()) && unsafe { CStr::from_ptr(path) }.to_bytes() != b"/dev/null" {
        // its files have names, and nothing in them
        return match lookup(path, true) {
            Ok(_) => fail(libc::EACCES),
            Err(e) => fail(e),
        };
    }
    unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(
    fa: *mut libc::posix_spawn_file_actions_t,
    from: c_int,
    to: c_int,
) -> c_int {
    if me().is_some() {
        let mut g = lock();
        let k = kr(&mut g);
        k.file_actions.entry(fa as usize).or_default().0.push((from, to));
        return 0;
    }
    type F = unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, c_int, c_int) -> c_int;
    unsafe { real!("posix_spawn_file_actions_adddup2", F)(fa, from, to) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(
    fa: *mut libc::posix_spawn_file_actions_t,
    path: *const c_char,
) -> c_int {
    if me().is_some() {
        let mut g = lock();
        let k = kr(&mut g);
        let p = unsafe { CStr::from_ptr(path) }.to_bytes().to_vec();
        k.file_actions.entry(fa as usize).or_default().1 = Some(p);
        return 0;
    }
    type F = unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t, *const c_char) -> c_int;
    unsafe { real!("posix_spawn_file_actions_addchdir_np", F)(fa, path) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if me().is_some() {
        let mut g = lock();
        kr(&mut g).file_actions.remove(&(fa as usize));
    }
    type F = unsafe extern "C" fn(*mut libc::posix_spawn_file_actions_t) -> c_int;
    unsafe { real!("posix_spawn_file_actions_destroy", F)(fa) }
}

unsafe fn strings(mut p: *const *mut c_char) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    if p.is_null() {
        return v;
    }
    unsafe {
        while !(*p).is_null() {
            v.push(CStr::from_ptr(*p).to_bytes().to_vec());
            p = p.add(1);
        }
    }
    v
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if me().is_none() {
        type F = unsafe extern "C" fn(
            *mut libc::pid_t,
            *const c_char,
            *const libc::posix_spawn_file_actions_t,
            *const libc::posix_spawnattr_t,
            *const *mut c_char,
            *const *mut c_char,
        ) -> c_int;
        return unsafe { real!("posix_spawnp", F)(pid, file, fa, attr, argv, envp) };
    }
    let (mut g, m) = enter("spawn");
    let k = kr(&mut g);
    let (dups, cwd) = k.file_actions.get(&(fa as usize)).cloned().unwrap_or_default();
    let mut out = [None, None];
    for (from, to) in dups {
        if let (1 | 2, Some(f)) = (to, k.fds.get(&from)) {
            out[to as usize - 1] = (!f.read).then_some(f.pipe);
        }
    }
    let new_pid = PID_BASE + k.spawns.len() as i32;
    let sp = Spawn {
        client: m.map_or(usize::MAX, |m| k.owner[m]),
        program: unsafe { CStr::from_ptr(file) }.to_bytes().to_vec(),
        argv: unsafe { strings(argv) },
        env: unsafe { strings(envp) },
        cwd,
        piped: [out[0].is_some(), out[1].is_some()],
        pid: new_pid,
    };
    let n = k.nth("spawn");
    let scripted = k.faults.spawn.filter(|(at, _)| *at == n).map(|(_, e)| e);
    let r = if let Some(e) = scripted {
        Err(e)
    } else if let Some(e) = sp.cwd.as_ref().filter(|_| !k.fs.nodes.is_empty()).and_then(|c| {
        k.fs.resolve(&text(c)).err()
    }) {
        Err(e)
    } else {
        let mut f = k.spawner.take().expect("no spawner");
        let r = f(&sp, &k.fs);
        k.spawner = Some(f);
        r
    };
    let acts = match r {
        Ok(a) => a,
        Err(e) => {
            k.count("fault.spawn");
            k.injected.push((k.owner[k.current], "spawn", e));
            k.note("spawn fails", e as u64, || format!("errno {e}"));
            k.spawns.push(sp);
            return e;
        }
    };
    k.note("spawn", acts.len() as u64, || {
        format!(
            "pid {new_pid}: {} in {:?}",
            sp.argv.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect::<Vec<_>>().join(" "),
            sp.cwd.as_ref().map(|c| String::from_utf8_lossy(c).into_owned())
        )
    });
    k.count("spawn");
    // what a process says takes time to read, and may come a byte at a time
    k.max_steps += acts.iter().map(|a| if let Act::Write(_, w) = a { 8 * w.len() as u64 } else { 1 }).sum::<u64>();
    for p in out.iter().flatten() {
        k.pipes[*p].writers += 1;
    }
    k.spawns.push(sp);
    k.procs.push(Proc {
        pid: new_pid,
        acts: acts.into(),
        out,
        blocked: None,
        status: None,
        reaped: 0,
        wrote: Default::default(),
    });
    let i = k.procs.len() - 1;
    k.at(1, Ev::Step(i));
    unsafe { *pid = new_pid };
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opts: c_int) -> libc::pid_t {
    if pid < PID_BASE {
        return unsafe { libc::syscall(libc::SYS_wait4, pid, status, opts, std::ptr::null_mut::<c_void>()) as libc::pid_t };
    }
    let (mut g, m) = enter("waitpid");
    let k = kr(&mut g);
    if k.eintr("fault.eintr.waitpid") {
        return fail(libc::EINTR);
    }
    let n = k.nth("waitpid");
    if let Some((at, e)) = k.faults.wait
        && at == n
    {
        k.count("fault.waitpid");
        k.injected.push((k.owner[k.current], "waitpid", e));
        k.note("waitpid fails", e as u64, || format!("errno {e}"));
        // somebody else (the host's SIGCHLD handler) has reaped it
        if let Some(p) = k.procs.iter_mut().find(|p| p.pid == pid) {
            p.reaped += 1;
        }
        return fail(e);
    }
    if opts & libc::WNOHANG != 0 && !k.holds(&Cond::Exited(pid)) {
        return 0;
    }
    g = block(g, m, Cond::Exited(pid));
    let k = kr(&mut g);
    let aborted = k.abort;
    let Some(p) = k.procs.iter_mut().find(|p| p.pid == pid && p.reaped == 0) else {
        k.wrong.push(("reap", format!("wait for {pid}, which is not a child")));
        return fail(libc::ECHILD);
    };
    let Some(st) = p.status else {
        assert!(aborted);
        return fail(libc::ECHILD);
    };
    p.reaped += 1;
    if !status.is_null() {
        unsafe { *status = st };
    }
    k.note("reaped", st as u64, || format!("pid {pid} status {st:#x}"));
    pid
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if pid < PID_BASE {
        return unsafe { libc::syscall(libc::SYS_kill, pid, sig) as c_int };
    }
    let mut g = lock();
    let k = kr(&mut g);
    k.count("kill");
    if let Some(i) = k.procs.iter().position(|p| p.pid == pid && p.status.is_none()) {
        k.child_end(i, sig);
    }
    0
}

/// A question to the simulated filesystem: it may have changed, or it may fail
fn consult<T>(what: &'static str, path: &str, f: impl FnOnce(&Fs) -> Result<T, i32>) -> Result<T, i32> {
    let (mut g, _) = enter(what);
    let k = kr(&mut g);
    k.fs.calls += 1;
    let n = k.fs.calls;
    while k.fs.script.front().is_some_and(|(at, _)| *at <= n) {
        let (_, e) = k.fs.script.pop_front().unwrap();
        k.fs.apply(&e);
        k.count("fs.change");
        k.note("filesystem changes", 0, || format!("{e:?}"));
    }
    let mut r = f(&k.fs);
    if k.fs.fail > 0 {
        let pc = k.fs.fail;
        if k.rng.pct(pc) {
            let e = k.fs.errnos.clone();
            let e = *k.rng.pick(&e);
            k.count("fault.fs");
            r = Err(e);
        }
    }
    k.note(what, r.is_ok() as u64, || match &r {
        Ok(_) => path.to_owned(),
        Err(e) => format!("{path} -> errno {e}"),
    });
    r
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if me().is_none() {
        type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
        return unsafe { real!("realpath", F)(path, out) };
    }
    let p = text(unsafe { CStr::from_ptr(path) }.to_bytes());
    match consult("realpath", &p, |fs| fs.resolve(&p)) {
        Ok(s) => {
            let c = CString::new(s).unwrap();
            if out.is_null() {
                unsafe { libc::strdup(c.as_ptr()) }
            } else {
                unsafe { libc::strcpy(out, c.as_ptr()) }
            }
        }
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if me().is_none() {
        type F = unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char;
        return unsafe { real!("getcwd", F)(buf, n) };
    }
    let c = CString::new(with(|k| k.fs.cwd.clone())).unwrap();
    if buf.is_null() {
        return unsafe { libc::strdup(c.as_ptr()) };
    }
    if c.as_bytes_with_nul().len() > n {
        fail(libc::ERANGE);
        return std::ptr::null_mut();
    }
    unsafe { libc::strcpy(buf, c.as_ptr()) }
}

/// Which file a path names, and what it is
fn lookup(path: *const c_char, follow: bool) -> Result<(String, Node), i32> {
    let p = text(unsafe { CStr::from_ptr(path) }.to_bytes());
    consult("stat", &p, |fs| {
        let at = if follow { fs.resolve(&p)? } else { fs.resolve_parent(&p)? };
        let node = if at == "/" { Node::Dir } else { fs.nodes.get(&at).cloned().ok_or(libc::ENOENT)? };
        Ok((at, node))
    })
}

fn mode_of(n: &Node) -> u32 {
    match n {
        Node::Dir => libc::S_IFDIR | 0o755,
        Node::File => libc::S_IFREG | 0o644,
        Node::Link(_) => libc::S_IFLNK | 0o777,
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: libc::c_uint,
    out: *mut libc::statx,
) -> c_int {
    let named = dir == libc::AT_FDCWD && !path.is_null() && unsafe { *path } != 0;
    if me().is_none() || !named {
        return unsafe { libc::syscall(libc::SYS_statx, dir, path, flags, mask, out) as c_int };
    }
    match lookup(path, flags & libc::AT_SYMLINK_NOFOLLOW == 0) {
        Ok((at, n)) => {
            let mut s: libc::statx = unsafe { std::mem::zeroed() };
            s.stx_mask = libc::STATX_BASIC_STATS;
            s.stx_mode = mode_of(&n) as u16;
            s.stx_ino = crate::rng::hash_str(&at);
            s.stx_dev_major = 7;
            s.stx_nlink = 1;
            unsafe { *out = s };
            0
        }
        Err(e) => fail(e),
    }
}

unsafe fn stat_to(path: *const c_char, follow: bool, out: *mut libc::stat64) -> c_int {
    match lookup(path, follow) {
        Ok((at, n)) => {
            let mut s: libc::stat64 = unsafe { std::mem::zeroed() };
            s.st_mode = mode_of(&n);
            s.st_ino = crate::rng::hash_str(&at);
            s.st_dev = 7;
            s.st_nlink = 1;
            unsafe { *out = s };
            0
        }
        Err(e) => fail(e),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if me().is_none() {
        return unsafe { libc::syscall(libc::SYS_stat, path, out) as c_int };
    }
    unsafe { stat_to(path, true, out) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if me().is_none() {
        return unsafe { libc::syscall(libc::SYS_lstat, path, out) as c_int };
    }
    unsafe { stat_to(path, false, out) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if me().is_none() {
        return unsafe { libc::syscall(libc::SYS_access, path, mode) as c_int };
    }
    match lookup(path, true) {
        Ok(_) => 0,
        Err(e) => fail(e),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if me().is_none() {
        return unsafe { libc::syscall(libc::SYS_readlink, path, buf, n) as ssize_t };
    }
    match lookup(path, false) {
        Ok((_, Node::Link(to))) => {
            let l = to.len().min(n);
            unsafe { std::ptr::copy_nonoverlapping(to.as_ptr(), buf.cast::<u8>(), l) };
            l as ssize_t
        }
        Ok(_) => fail(libc::EINVAL) as ssize_t,
        Err(e) => fail(e) as ssize_t,
    }
}

/// There is no simulated cargo in a copy of this process
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if me().is_none() {
        type F = unsafe extern "C" fn() -> libc::pid_t;
        return unsafe { real!("fork", F)() };
    }
    let mut g = lock();
    kr(&mut g).wrong.push(("harness", "a client forked".to_owned()));
    fail(libc::ENOSYS)
}

/// The state of the process a library has no business changing
fn process_state(what: &str, arg: *const c_char) {
    if me().is_some() {
        let a = if arg.is_null() { String::new() } else { unsafe { CStr::from_ptr(arg) }.to_string_lossy().into_owned() };
        let mut g = lock();
        kr(&mut g).env_writes.push(format!("{what} {a}"));
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    process_state("chdir", path);
    if me().is_some() {
        let mut g = lock();
        let k = kr(&mut g);
        let p = text(unsafe { CStr::from_ptr(path) }.to_bytes());
        k.fs.cwd = if p.starts_with('/') { p } else { format!("{}/{p}", k.fs.cwd) };
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_chdir, path) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn setenv(name: *const c_char, val: *const c_char, over: c_int) -> c_int {
    process_state("setenv", name);
    type F = unsafe extern "C" fn(*const c_char, *const c_char, c_int) -> c_int;
    unsafe { real!("setenv", F)(name, val, over) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn unsetenv(name: *const c_char) -> c_int {
    process_state("unsetenv", name);
    type F = unsafe extern "C" fn(*const c_char) -> c_int;
    unsafe { real!("unsetenv", F)(name) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if me().is_some() {
        let (mut g, _) = enter("nanosleep");
        let k = kr(&mut g);
        let dt = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
        let until = k.now + dt;
        k.note("sleeps", dt, || format!("{dt}ns"));
        while let Some((&key, _)) = k.events.first_key_value() {
            if key.0 > until {
                break;
            }
            k.event();
        }
        k.now = k.now.max(until);
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_nanosleep, req, rem) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(
    clock: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if me().is_some() && flags == 0 {
        return unsafe { nanosleep(req, rem) };
    }
    let r = unsafe { libc::syscall(libc::SYS_clock_nanosleep, clock, flags, req, rem) };
    if r < 0 { unsafe { *libc::__errno_location() } } else { 0 }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if me().is_some() {
        let mut g = lock();
        if let Some(k) = g.as_mut() {
            k.now += 1;
            unsafe {
                (*ts).tv_sec = 1_700_000_000 + (k.now / 1_000_000_000) as i64;
                (*ts).tv_nsec = (k.now % 1_000_000_000) as i64;
            }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clock, ts) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    if me().is_some() {
        let mut g = lock();
        if let Some(k) = g.as_mut() {
            k.count("entropy");
            for i in 0..n {
                let b = crate::rng::splitmix(&mut k.random) as u8;
                unsafe { *buf.cast::<u8>().add(i) = b };
            }
            return n as ssize_t;
        }
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, n, flags) as ssize_t }
}

// ---------------------------------------------------------------------------------------
// Threads, and how they wait for each other

type Routine = extern "C" fn(*mut c_void) -> *mut c_void;

struct Start {
    f: Routine,
    arg: *mut c_void,
    id: usize,
    gap: (u32, u32, u64),
}

extern "C" fn started(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p.cast::<Start>()) };
    drop(wait_turn(lock(), s.id));
    ME.with(|m| m.set(s.id as i32));
    GAP.with(|g| g.set(s.gap));
    let r = (s.f)(s.arg);
    ME.with(|m| m.set(-1));
    ended(s.id);
    r
}

/// A thread a client starts is scheduled as the clients are
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: Routine,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Routine, *mut c_void) -> c_int;
    if me().is_none() {
        return unsafe { real!("pthread_create", F)(out, attr, f, arg) };
    }
    let (mut g, m) = enter("thread");
    let k = kr(&mut g);
    let id = k.clients.len();
    if id == MAX_CLIENTS {
        return libc::EAGAIN;
    }
    let owner = k.owner[m.unwrap()];
    k.clients.push(Cond::Ready);
    k.owner.push(owner);
    k.count("thread");
    k.note("starts a thread", id as u64, || format!("{id}"));
    let mean = GAP.with(Cell::get).1;
    let gap = if mean > 0 { (1, mean, k.rng.next() | 1) } else { (0, 0, 0) };
    let s = Box::into_raw(Box::new(Start { f, arg, id, gap }));
    let r = unsafe { real!("pthread_create", F)(out, attr, started, s.cast()) };
    assert_eq!(r, 0, "harness: a thread");
    kr(&mut g).threads.insert(unsafe { *out } as usize, id);
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    if me().is_some() {
        let (mut g, m) = enter("join");
        if let Some(id) = kr(&mut g).threads.remove(&(t as usize)) {
            g = block(g, m, Cond::Ended(id));
            give_up(&mut g);
            kr(&mut g).note("joins a thread", id as u64, || format!("{id}"));
        }
    }
    unsafe { real!("pthread_join", F)(t, ret) }
}

/// Threads that wait for memory or for threads can not be told that there is no hope
fn give_up(g: &mut Guard) {
    let k = kr(g);
    if k.abort {
        let livelock = k.wrong.iter().any(|w| w.0 == "livelock");
        unsafe { libc::_exit(if livelock { 72 } else { 71 }) };
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    step("yields");
    unsafe { raw(libc::SYS_sched_yield, [0; 6]) as c_int }
}

unsafe fn raw(n: libc::c_long, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _,
        );
    }
    if (-4095..0).contains(&r) { fail(-r as c_int) as isize } else { r }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let cmd = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let waits = n == libc::SYS_futex && (cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET);
    if !waits || BUSY.with(Cell::get) > 0 || me().is_none() {
        return unsafe { raw(n, [a, b, c, d, e, f]) };
    }
    let (mut g, m) = enter("futex");
    let k = kr(&mut g);
    let mut until = None;
    if d != 0 {
        let t = unsafe { *(d as *const libc::timespec) };
        let t = t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
        let at = if cmd == libc::FUTEX_WAIT { k.now + t } else { t.saturating_sub(1_700_000_000 * 1_000_000_000) };
        k.at(at.saturating_sub(k.now), Ev::Nothing);
        until = Some(at);
    }

    let was = c as u32;
    if k.holds(&Cond::Futex(a, was, None)) {
        give_up(&mut g);
        return fail(libc::EAGAIN) as isize;
    }
    let k = kr(&mut g);
    k.count("futex-wait");
    k.note("waits for memory", 0, String::new);
    g = block(g, m, Cond::Futex(a, was, until));
    give_up(&mut g);
    let k = kr(&mut g);
    if until.is_some_and(|t| t <= k.now) && !k.holds(&Cond::Futex(a, was, None)) {
        return fail(libc::ETIMEDOUT) as isize;
    }
    0
}
