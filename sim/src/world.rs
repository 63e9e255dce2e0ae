//! The simulated world: nodes (real threads released one at a time), byte pipes,
//! a discrete-event clock, fault injection, and the event trace.
use crate::alloc;
use crate::tape::{mix, Tape};
use futures::task::Task;
use std::any::Any;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::thread::{JoinHandle, Thread};

pub type W = Arc<World>;
pub type DirId = usize;
pub type NodeId = usize;
const DRIVER: usize = usize::MAX;

/// Fault and event kinds, counted when they actually happen.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum K {
    Run, Preempt, TimePass, Write, ShortWrite, WriteBlocked, WriteWouldBlock, WriteEintr, WriteError,
    Read, ShortRead, ReadBlocked, ReadWouldBlock, ReadTimeout, ReadEintr, SpuriousWouldBlock, ReadEof, ReadReset,
    Deliver, PartialDeliver, Fin, Rst, CutFin, CutRst, PeerGone, SpuriousPoll, NodeDone, NodePanic, Inject, Note,
    AcceptError, Accept, Connect, SysShutdown, EpollWait, AcceptAbort, FcntlError, Corrupt, WriteZero, Stall, Resolve,
    COUNT,
}
pub const KNAMES: [&str; K::COUNT as usize] = [
    "run", "preempt", "time_passes_while_runnable", "write", "short_write", "write_blocked_by_backpressure", "write_would_block", "write_eintr", "write_error",
    "read", "short_read", "read_blocked", "read_would_block", "read_timeout", "read_eintr", "spurious_would_block", "read_eof", "read_reset",
    "deliver", "partial_delivery", "fin", "rst", "cut_fin", "cut_rst", "write_to_closed_peer", "spurious_poll", "node_done", "node_panic", "inject", "note",
    "accept_error", "accept", "connect", "shutdown", "epoll_wait", "accept_aborted", "fcntl_error", "corrupt_bytes", "write_zero", "peer_stall", "resolve_name",
];

#[derive(Clone, Copy)]
pub struct Ev {
    pub t: u64,
    pub node: u8,
    pub k: K,
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NState {
    Ready,
    Blocked,
    /// asynchronous executor idle until its wake flag is set
    Idle,
    Done,
}

pub struct Node {
    pub name: String,
    pub state: NState,
    pub why: String,
    thread: Option<Thread>,
    pub woken: Arc<AtomicBool>,
    pub panic: Option<String>,
    pub harness_panic: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cut {
    Fin,
    Rst,
}

#[derive(Clone, Copy, Debug)]
pub enum Deliver {
    /// available to the reader at once
    Instant,
    /// everything in flight arrives together after a delay up to this many µs
    Whole(u32),
    /// chunks of 1..=n bytes, each after a delay up to d µs
    Chunks(u32, u32),
}

/// One direction of a connection.
pub struct Dir {
    pub sent: Vec<u8>,
    pub pending: VecDeque<u8>,
    pub rx: VecDeque<u8>,
    pub cap: usize,
    pub deliver: Deliver,
    scheduled: bool,
    pub fin: bool,
    pub eof: bool,
    pub rst: bool,
    pub reader_gone: bool,
    pub shut_read: bool,
    pub cut: Option<(u64, Cut)>,
    pub wfail: Option<(u64, ErrorKind)>,
    pub delivered: u64,
    pub read_total: u64,
    pub short_w: u32,
    pub short_r: u32,
    pub eintr_r: u32,
    pub eintr_w: u32,
    pub spurious_r: u32,
    pub spurious_w: u32,
    /// transient faults still allowed
    pub flaky: u32,
    pub peer_dir: DirId,
    pub read_wait: Vec<NodeId>,
    pub write_wait: Vec<NodeId>,
    read_task: Option<Task>,
    write_task: Option<Task>,
    pub eof_reads: u32,
    /// a byte in transit is damaged: where, and with what
    pub corrupt: Option<(u64, u8)>,
    /// called (through the kernel layer) when readiness changes
    pub fd_watch: bool,
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
pub enum Event {
    Deliver(DirId),
    WakeRead(DirId),
    WakeWrite(DirId),
    WakeNode(NodeId),
    Kern(u32),
    User(u32),
}

pub struct Inner {
    pub tape: Tape,
    pub now: u64,
    pub clock: Arc<std::sync::atomic::AtomicU64>,
    seq: u64,
    events: BinaryHeap<Reverse<(u64, u64, Event)>>,
    pub nodes: Vec<Node>,
    joins: Vec<JoinHandle<()>>,
    pub dirs: Vec<Dir>,
    pub steps: u64,
    pub max_steps: u64,
    /// what traffic may still add to the step bound
    pub byte_steps: u64,
    pub dead: bool,
    pub stuck: bool,
    pub trace: Vec<Ev>,
    pub hash: u64,
    pub shape: u64,
    pub notes: Vec<String>,
    pub stats: [u64; K::COUNT as usize],
    pub viols: Vec<Violation>,
    pub preempt: u32,
    pub time_pass: u32,
    pub spurious_poll: u32,
    pub keep_trace: bool,
    pub user_events: Vec<u32>,
    pub kern: crate::kernel::Kern,
    pub entropy: u64,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    pub desc: String,
    pub nontrivial: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub class: String,
    pub msg: String,
}

pub struct World {
    m: Mutex<Inner>,
    turn: AtomicUsize,
    driver: Thread,
    pub clock: Arc<std::sync::atomic::AtomicU64>,
    /// seconds since 1970 when the run begins
    pub epoch: std::sync::atomic::AtomicI64,
}

/// Unwinds a node when its run is over.
struct SimAbort;

thread_local! {
    static CUR: RefCell<Option<(W, NodeId)>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let is_node = CUR.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(true)).unwrap_or(false);
        if is_node {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        } else {
            default(info)
        }
    }));
}

pub fn cur() -> Option<(W, NodeId)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

impl Inner {
    pub fn ev(&mut self, node: NodeId, k: K, a: u64, b: u64) {
        self.stats[k as usize] += 1;
        let n = if node == DRIVER { 255 } else { node as u8 };
        let h = (n as u64) << 56 ^ (k as u64) << 48 ^ a << 16 ^ b ^ self.now.rotate_left(32);
        self.hash = mix(self.hash ^ h);
        // the shape of an interleaving: who did what, without times and sizes
        if !matches!(k, K::Run | K::Note) {
            self.shape = mix(self.shape ^ (n as u64) << 8 ^ k as u64);
        }
        if self.keep_trace {
            self.trace.push(Ev { t: self.now, node: n, k, a: a as u32, b: b as u32 });
        }
    }
    pub fn note(&mut self, s: String) {
        if self.keep_trace {
            let i = self.notes.len();
            self.notes.push(s);
            self.ev(DRIVER, K::Note, i as u64, 0);
            self.stats[K::Note as usize] -= 1;
        }
    }
    pub fn at(&mut self, dt: u64, e: Event) {
        self.seq += 1;
        let t = self.now + dt;
        self.events.push(Reverse((t, self.seq, e)));
    }
    pub fn delay(&mut self, max: u32) -> u64 {
        if max == 0 {
            0
        } else {
            // mostly short, sometimes long
            let m = if self.tape.chance(100) { max.saturating_mul(50) } else { max };
            self.tape.choose(m.saturating_add(1)) as u64
        }
    }
    pub fn wake_readers(&mut self, d: DirId) {
        let ws = std::mem::take(&mut self.dirs[d].read_wait);
        for n in ws {
            if self.nodes[n].state == NState::Blocked {
                self.nodes[n].state = NState::Ready;
            }
        }
        if let Some(t) = self.dirs[d].read_task.take() {
            t.notify();
        }
        if self.dirs[d].fd_watch {
            crate::kernel::dir_changed(self, d);
        }
    }
    pub fn wake_writers(&mut self, d: DirId) {
        let ws = std::mem::take(&mut self.dirs[d].write_wait);
        for n in ws {
            if self.nodes[n].state == NState::Blocked {
                self.nodes[n].state = NState::Ready;
            }
        }
        if let Some(t) = self.dirs[d].write_task.take() {
            t.notify();
        }
        if self.dirs[d].fd_watch {
            crate::kernel::dir_changed(self, d);
        }
    }
    pub fn new_conn(&mut self) -> (DirId, DirId) {
        let a = self.dirs.len();
        let b = a + 1;
        for p in [b, a] {
            self.dirs.push(Dir {
                sent: Vec::new(), pending: VecDeque::new(), rx: VecDeque::new(), cap: usize::MAX,
                deliver: Deliver::Instant, scheduled: false, fin: false, eof: false, rst: false, reader_gone: false,
                shut_read: false, cut: None, wfail: None, delivered: 0, read_total: 0, short_w: 0, short_r: 0,
                eintr_r: 0, eintr_w: 0, spurious_r: 0, spurious_w: 0, flaky: 0, peer_dir: p,
                read_wait: vec![], write_wait: vec![], read_task: None, write_task: None, eof_reads: 0, corrupt: None, fd_watch: false,
            });
        }
        (a, b)
    }
    fn deliver_some(&mut self, d: DirId, k: usize) {
        let now_cut = self.dirs[d].cut;
        let dir = &mut self.dirs[d];
        let mut k = k.min(dir.pending.len());
        if dir.rst || dir.eof {
            dir.pending.clear();
            return;
        }
        let mut cut_now = None;
        if let Some((at, c)) = now_cut {
            let left = at.saturating_sub(dir.delivered) as usize;
            if k >= left {
                k = left;
                cut_now = Some(c);
            }
        }
        for _ in 0..k {
            let b = dir.pending.pop_front().unwrap();
            if !dir.shut_read {
                dir.rx.push_back(b);
            }
        }
        dir.delivered += k as u64;
        let partial = !dir.pending.is_empty();
        self.ev(DRIVER, if partial { K::PartialDeliver } else { K::Deliver }, d as u64, k as u64);
        if let Some(c) = cut_now {
            self.dirs[d].pending.clear();
            match c {
                Cut::Fin => {
                    self.dirs[d].eof = true;
                    self.ev(DRIVER, K::CutFin, d as u64, 0);
                }
                Cut::Rst => {
                    self.do_rst(d);
                    self.ev(DRIVER, K::CutRst, d as u64, 0);
                }
            }
        } else if self.dirs[d].pending.is_empty() && self.dirs[d].fin {
            self.dirs[d].eof = true;
        }
        self.wake_readers(d);
        self.wake_writers(d);
    }
    pub fn do_rst(&mut self, d: DirId) {
        let p = self.dirs[d].peer_dir;
        for x in [d, p] {
            self.dirs[x].rst = true;
            self.dirs[x].pending.clear();
            self.dirs[x].rx.clear();
            self.wake_readers(x);
            self.wake_writers(x);
        }
    }
    fn schedule_delivery(&mut self, d: DirId) {
        if self.dirs[d].scheduled {
            return;
        }
        match self.dirs[d].deliver {
            Deliver::Instant => {
                let n = self.dirs[d].pending.len();
                self.deliver_some(d, n);
            }
            Deliver::Whole(m) | Deliver::Chunks(_, m) => {
                let dt = self.delay(m);
                self.dirs[d].scheduled = true;
                self.at(dt, Event::Deliver(d));
            }
        }
    }
    fn on_event(&mut self, e: Event) {
        match e {
            Event::Deliver(d) => {
                self.dirs[d].scheduled = false;
                let n = self.dirs[d].pending.len();
                let k = match self.dirs[d].deliver {
                    Deliver::Chunks(c, _) => 1 + self.tape.choose(c) as usize,
                    _ => n,
                };
                self.deliver_some(d, k);
                if !self.dirs[d].pending.is_empty() {
                    self.schedule_delivery(d);
                }
            }
            Event::WakeRead(d) => self.wake_readers(d),
            Event::WakeWrite(d) => self.wake_writers(d),
            Event::WakeNode(n) => {
                if self.nodes[n].state == NState::Blocked {
                    self.nodes[n].state = NState::Ready;
                }
            }
            Event::Kern(a) => crate::kernel::on_event(self, a),
            Event::User(u) => self.user_events.push(u),
        }
    }
    /// Appends bytes to a direction, as if the far end had written them.
    pub fn put(&mut self, d: DirId, data: &[u8]) {
        // every byte may be worth a few steps, up to a point
        let more = (data.len() as u64 * 8).min(self.byte_steps);
        self.byte_steps -= more;
        self.max_steps += more;
        let dir = &mut self.dirs[d];
        dir.sent.extend_from_slice(data);
        if dir.rst || dir.eof || dir.reader_gone {
            return;
        }
        dir.pending.extend(data.iter().copied());
        if let Some((at, x)) = dir.corrupt {
            let start = (dir.sent.len() - data.len()) as u64;
            if at >= start && at < dir.sent.len() as u64 {
                let i = dir.pending.len() - (dir.sent.len() as u64 - at) as usize;
                dir.pending[i] ^= x;
                self.ev(DRIVER, K::Corrupt, d as u64, at);
            }
        }
        self.schedule_delivery(d);
    }
    pub fn do_fin(&mut self, d: DirId) {
        if self.dirs[d].fin {
            return;
        }
        self.dirs[d].fin = true;
        self.ev(DRIVER, K::Fin, d as u64, 0);
        if self.dirs[d].pending.is_empty() {
            self.dirs[d].eof = true;
            self.wake_readers(d);
        } else {
            self.schedule_delivery(d);
        }
    }
    /// What this run is about, in words.
    pub fn describe(&mut self, s: String) {
        self.desc = s;
    }
    /// A rare condition was reached.
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn probe_max(&mut self, name: &'static str, v: u64) {
        let e = self.probes.entry(name).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn viol(&mut self, props: &[&'static str], class: &str, msg: String) {
        self.viols.push(Violation { props: props.to_vec(), class: class.to_string(), msg });
    }
    fn runnable(&self, i: usize) -> bool {
        let n = &self.nodes[i];
        match n.state {
            NState::Ready => true,
            NState::Idle => n.woken.load(Ordering::SeqCst),
            _ => false,
        }
    }
    fn next(&mut self, me: usize) -> usize {
        self.steps += 1;
        if self.steps > self.max_steps && !self.dead {
            self.stuck = true;
            return DRIVER;
        }
        if self.dead {
            return DRIVER;
        }
        loop {
            let mut count = 0;
            let mut only = 0;
            let mut me_ok = false;
            for i in 0..self.nodes.len() {
                if self.runnable(i) {
                    count += 1;
                    only = i;
                    if i == me {
                        me_ok = true;
                    }
                }
            }
            let has_ev = !self.events.is_empty();
            if count == 0 {
                if has_ev {
                    let Reverse((t, _, e)) = self.events.pop().unwrap();
                    self.now = self.now.max(t);
                    self.clock.store(self.now, Ordering::SeqCst);
                    self.on_event(e);
                    continue;
                }
                return DRIVER;
            }
            if has_ev && self.time_pass > 0 {
                let p = self.time_pass;
                if self.tape.chance(p) {
                    let Reverse((t, _, e)) = self.events.pop().unwrap();
                    self.now = self.now.max(t);
                    self.clock.store(self.now, Ordering::SeqCst);
                    self.ev(DRIVER, K::TimePass, 0, 0);
                    self.on_event(e);
                    continue;
                }
            }
            if count == 1 {
                return only;
            }
            if me_ok {
                let p = self.preempt;
                if !self.tape.chance(p) {
                    return me;
                }
            }
            let k = self.tape.choose(count as u32) as usize;
            let mut j = 0;
            for i in 0..self.nodes.len() {
                if self.runnable(i) {
                    if j == k {
                        if i != me && me_ok {
                            self.ev(i, K::Preempt, me as u64, 0);
                        }
                        return i;
                    }
                    j += 1;
                }
            }
            unreachable!()
        }
    }
}

impl World {
    pub fn new(tape: Tape, keep_trace: bool, entropy: u64) -> W {
        let clock = Arc::new(std::sync::atomic::AtomicU64::new(0));
        Arc::new(World {
            clock: clock.clone(),
            epoch: std::sync::atomic::AtomicI64::new(1_700_000_000),
            m: Mutex::new(Inner {
                tape, now: 0, clock, seq: 0, events: BinaryHeap::new(), nodes: vec![], joins: vec![], dirs: vec![],
                steps: 0, max_steps: 400_000, byte_steps: 4_000_000, dead: false, stuck: false, trace: vec![], hash: 0, shape: 0, notes: vec![],
                stats: [0; K::COUNT as usize], viols: vec![], preempt: 0, time_pass: 0, spurious_poll: 0, keep_trace,
                user_events: vec![], kern: Default::default(), entropy, probes: Default::default(), desc: String::new(), nontrivial: true,
            }),
            turn: AtomicUsize::new(DRIVER),
            driver: std::thread::current(),
        })
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    fn hand(&self, g: MutexGuard<'_, Inner>, next: usize, me: usize) {
        if next == me {
            return;
        }
        if next != DRIVER {
            let mut g = g;
            if g.nodes[next].state == NState::Idle {
                g.nodes[next].state = NState::Ready;
            }
            let th = g.nodes[next].thread.clone();
            drop(g);
            self.turn.store(next, Ordering::SeqCst);
            if let Some(t) = th {
                t.unpark();
            }
        } else {
            drop(g);
            self.turn.store(DRIVER, Ordering::SeqCst);
            self.driver.unpark();
        }
    }
    fn wait_turn(&self, me: usize) {
        while self.turn.load(Ordering::SeqCst) != me {
            std::thread::park();
        }
    }
    /// A scheduling point in node `me` (still runnable).
    pub fn step(&self, me: NodeId) {
        if !self.step_nu(me) {
            abort();
        }
    }
    /// As `step`, for code that must not unwind. False: the run is over.
    pub fn step_nu(&self, me: NodeId) -> bool {
        let mut g = self.lock();
        if g.dead {
            return false;
        }
        let next = g.next(me);
        if next != me {
            self.hand(g, next, me);
            self.wait_turn(me);
            return !self.lock().dead;
        }
        true
    }
    /// Parks node `me` (already marked blocked or idle in `g`) until it is woken.
    pub fn block(&self, g: MutexGuard<'_, Inner>, me: NodeId) {
        if !self.block_nu(g, me) {
            abort();
        }
    }
    pub fn block_nu(&self, mut g: MutexGuard<'_, Inner>, me: NodeId) -> bool {
        if g.dead {
            return false;
        }
        let next = g.next(me);
        if next == me {
            g.nodes[me].state = NState::Ready;
            return true;
        }
        self.hand(g, next, me);
        self.wait_turn(me);
        let mut g = self.lock();
        if g.nodes[me].state == NState::Idle {
            g.nodes[me].state = NState::Ready;
        }
        !g.dead
    }
    /// Sleeps for simulated time.
    pub fn sleep(&self, me: NodeId, dt: u64) {
        let mut g = self.lock();
        g.at(dt, Event::WakeNode(me));
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = "sleep".into();
        self.block(g, me);
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(self: &Arc<Self>, name: &str, f: F) -> NodeId {
        let mut g = self.lock();
        let id = g.nodes.len();
        let w = self.clone();
        let woken = Arc::new(AtomicBool::new(false));
        g.nodes.push(Node { name: name.to_string(), state: NState::Ready, why: String::new(), thread: None, woken, panic: None, harness_panic: false });
        let ent = mix(g.entropy ^ ((id as u64 + 1) << 40));
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                rand_os::set_thread_seed(ent);
                crate::tls::set_thread_seed(ent);
                w.wait_turn(id);
                let dead = w.lock().dead;
                let mut panic = None;
                let mut harness = false;
                if !dead {
                    alloc::set_cap(1 << 30);
                    CUR.with(|c| *c.borrow_mut() = Some((w.clone(), id)));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    if let Err(p) = r {
                        if !p.is::<SimAbort>() {
                            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                            harness = loc.starts_with("src/");
                            panic = Some(format!("{} at {}", msg, loc));
                        }
                        drop_payload(p);
                    }
                    CUR.with(|c| *c.borrow_mut() = None);
                    alloc::set_cap(usize::MAX);
                } else {
                    drop(f);
                }
                let mut g = w.lock();
                g.nodes[id].state = NState::Done;
                g.nodes[id].harness_panic = harness;
                if panic.is_some() {
                    g.ev(id, K::NodePanic, 0, 0);
                }
                g.nodes[id].panic = panic;
                g.ev(id, K::NodeDone, 0, 0);
                let next = g.next(usize::MAX - 1);
                w.hand(g, next, usize::MAX - 1);
            })
            .expect("spawn");
        g.nodes[id].thread = Some(h.thread().clone());
        g.joins.push(h);
        id
    }
    /// Runs until nothing can happen without the driver. False if the step cap was hit.
    pub fn run(&self) -> bool {
        let mut g = self.lock();
        let next = g.next(DRIVER);
        self.hand(g, next, DRIVER);
        self.wait_turn(DRIVER);
        !self.lock().stuck
    }
    /// Ends the run: unwinds every node that is still blocked, and joins the threads.
    pub fn finish(&self) {
        let n = self.lock().nodes.len();
        self.lock().dead = true;
        for i in 0..n {
            let g = self.lock();
            if g.nodes[i].state == NState::Done {
                continue;
            }
            self.hand(g, i, DRIVER);
            self.wait_turn(DRIVER);
        }
        let joins = std::mem::take(&mut self.lock().joins);
        for j in joins {
            let _ = j.join();
        }
    }
    pub fn done(&self, n: NodeId) -> bool {
        self.lock().nodes[n].state == NState::Done
    }
    pub fn all_done(&self) -> bool {
        self.lock().nodes.iter().all(|n| n.state == NState::Done)
    }
}

fn drop_payload(p: Box<dyn Any + Send>) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(p)));
}

fn abort() {
    if !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(SimAbort));
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Blocking,
    /// reads on an empty pipe fail with this kind
    Fail(ErrorKind),
    Async,
}

/// The outcome of one attempt at a pipe operation.
pub enum Try {
    Done(io::Result<usize>),
    Wait,
}

impl Inner {
    pub fn try_read(&mut self, me: NodeId, d: DirId, buf: &mut [u8], mode: Mode) -> Try {
        let (eintr, spur, flaky) = { let x = &self.dirs[d]; (x.eintr_r, x.spurious_r, x.flaky) };
        if flaky > 0 {
            if mode == Mode::Blocking && eintr > 0 && self.tape.chance(eintr) {
                self.dirs[d].flaky -= 1;
                self.ev(me, K::ReadEintr, d as u64, 0);
                return Try::Done(Err(ErrorKind::Interrupted.into()));
            }
            if mode != Mode::Blocking && spur > 0 && self.tape.chance(spur) {
                self.dirs[d].flaky -= 1;
                self.ev(me, K::SpuriousWouldBlock, d as u64, 0);
                let k = match mode { Mode::Fail(k) => k, _ => ErrorKind::WouldBlock };
                return Try::Done(Err(k.into()));
            }
        }
        let rx = self.dirs[d].rx.len();
        if rx > 0 {
            let mut n = rx.min(buf.len());
            let sr = self.dirs[d].short_r;
            if n > 1 && sr > 0 && self.tape.chance(sr) {
                n = 1 + self.tape.choose(n as u32) as usize;
                n = n.min(rx.min(buf.len()));
                self.ev(me, K::ShortRead, d as u64, n as u64);
            } else {
                self.ev(me, K::Read, d as u64, n as u64);
            }
            let dir = &mut self.dirs[d];
            let (a, b) = dir.rx.as_slices();
            let k = n.min(a.len());
            buf[..k].copy_from_slice(&a[..k]);
            buf[k..n].copy_from_slice(&b[..n - k]);
            dir.rx.drain(..n);
            dir.read_total += n as u64;
            if dir.cap != usize::MAX {
                self.wake_writers(d);
            }
            return Try::Done(Ok(n));
        }
        if self.dirs[d].rst {
            self.ev(me, K::ReadReset, d as u64, 0);
            return Try::Done(Err(ErrorKind::ConnectionReset.into()));
        }
        if self.dirs[d].eof || self.dirs[d].shut_read {
            self.dirs[d].eof_reads += 1;
            self.ev(me, K::ReadEof, d as u64, 0);
            return Try::Done(Ok(0));
        }
        match mode {
            Mode::Fail(k) => {
                self.ev(me, if k == ErrorKind::TimedOut { K::ReadTimeout } else { K::ReadWouldBlock }, d as u64, 0);
                Try::Done(Err(k.into()))
            }
            _ => Try::Wait,
        }
    }
    pub fn try_write(&mut self, me: NodeId, d: DirId, buf: &[u8], mode: Mode) -> Try {
        let (eintr, spur, flaky) = { let x = &self.dirs[d]; (x.eintr_w, x.spurious_w, x.flaky) };
        if self.dirs[d].rst || self.dirs[d].reader_gone || self.dirs[d].fin {
            self.ev(me, K::PeerGone, d as u64, 0);
            return Try::Done(Err(ErrorKind::BrokenPipe.into()));
        }
        if flaky > 0 {
            if mode == Mode::Blocking && eintr > 0 && self.tape.chance(eintr) {
                self.dirs[d].flaky -= 1;
                self.ev(me, K::WriteEintr, d as u64, 0);
                return Try::Done(Err(ErrorKind::Interrupted.into()));
            }
            if mode == Mode::Async && spur > 0 && self.tape.chance(spur) {
                self.dirs[d].flaky -= 1;
                self.ev(me, K::SpuriousWouldBlock, d as u64, 1);
                return Try::Done(Err(ErrorKind::WouldBlock.into()));
            }
        }
        let mut max = buf.len();
        if let Some((at, kind)) = self.dirs[d].wfail {
            let left = at.saturating_sub(self.dirs[d].sent.len() as u64) as usize;
            if left == 0 {
                if kind == ErrorKind::WriteZero {
                    self.ev(me, K::WriteZero, d as u64, 0);
                    return Try::Done(Ok(0));
                }
                self.ev(me, K::WriteError, d as u64, 0);
                return Try::Done(Err(kind.into()));
            }
            max = max.min(left);
        }
        let used = self.dirs[d].pending.len() + self.dirs[d].rx.len();
        let room = self.dirs[d].cap.saturating_sub(used);
        if room == 0 {
            return Try::Wait;
        }
        let mut n = max.min(room);
        let sw = self.dirs[d].short_w;
        if n > 1 && sw > 0 && self.tape.chance(sw) {
            n = 1 + self.tape.choose(n as u32 - 1) as usize;
        }
        self.ev(me, if n < buf.len() { K::ShortWrite } else { K::Write }, d as u64, n as u64);
        self.put(d, &buf[..n]);
        Try::Done(Ok(n))
    }
}

pub struct SockInner {
    pub w: W,
    pub rd: DirId,
    pub wr: DirId,
    pub mode: Mutex<Mode>,
}

impl Drop for SockInner {
    fn drop(&mut self) {
        let mut g = self.w.lock();
        if g.dead {
            return;
        }
        g.do_fin(self.wr);
        let rd = self.rd;
        g.dirs[rd].reader_gone = true;
        g.wake_writers(rd);
    }
}

/// One end of a simulated connection.
#[derive(Clone)]
pub struct SimSock(pub Arc<SockInner>);

impl SimSock {
    /// A connected pair.
    pub fn pair(w: &W) -> (SimSock, SimSock) {
        let (a, b) = w.lock().new_conn();
        let mk = |rd, wr| SimSock(Arc::new(SockInner { w: w.clone(), rd, wr, mode: Mutex::new(Mode::Blocking) }));
        (mk(b, a), mk(a, b))
    }
    pub fn pair_in(g: &mut Inner, w: &W) -> (SimSock, SimSock) {
        let (a, b) = g.new_conn();
        let mk = |rd, wr| SimSock(Arc::new(SockInner { w: w.clone(), rd, wr, mode: Mutex::new(Mode::Blocking) }));
        (mk(b, a), mk(a, b))
    }
    /// As `raw`, for a caller that already holds the world.
    pub fn raw_in(g: &mut Inner, w: &W) -> (SimSock, DirId, DirId) {
        let (a, b) = g.new_conn();
        (SimSock(Arc::new(SockInner { w: w.clone(), rd: a, wr: b, mode: Mutex::new(Mode::Blocking) })), a, b)
    }
    /// One end only; the driver plays the other end. Returns (sock, dir into sock, dir out of sock).
    pub fn raw(w: &W) -> (SimSock, DirId, DirId) {
        let (a, b) = w.lock().new_conn();
        (SimSock(Arc::new(SockInner { w: w.clone(), rd: a, wr: b, mode: Mutex::new(Mode::Blocking) })), a, b)
    }
    pub fn set_mode(&self, m: Mode) {
        *self.0.mode.lock().unwrap() = m;
    }
    pub fn mode(&self) -> Mode {
        *self.0.mode.lock().unwrap()
    }
    pub fn close_write(&self) {
        let mut g = self.0.w.lock();
        if !g.dead {
            g.do_fin(self.0.wr);
        }
    }
    fn me(&self) -> NodeId {
        match cur() {
            Some((_, n)) => n,
            None => panic!("simulated socket used outside a node"),
        }
    }
}

/// Waits (in simulated time) until a read on `d` would not block.
pub fn wait_readable(w: &W, d: DirId) {
    let (_, me) = cur().expect("node");
    loop {
        let mut g = w.lock();
        let x = &g.dirs[d];
        if !x.rx.is_empty() || x.eof || x.rst || g.dead {
            return;
        }
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = format!("poll dir{}", d);
        g.dirs[d].read_wait.push(me);
        w.block(g, me);
    }
}

impl Read for SimSock {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let me = self.me();
        let w = self.0.w.clone();
        let d = self.0.rd;
        w.step(me);
        let mode = self.mode();
        loop {
            let mut g = w.lock();
            if g.dead {
                return Err(ErrorKind::ConnectionAborted.into());
            }
            match g.try_read(me, d, buf, mode) {
                Try::Done(Err(ref e)) if mode == Mode::Async && e.kind() == ErrorKind::WouldBlock => {
                    // a spurious would-block: the task is woken a little later
                    g.dirs[d].read_task = Some(futures::task::current());
                    let dt = g.delay(5);
                    g.at(dt, Event::WakeRead(d));
                    return Err(ErrorKind::WouldBlock.into());
                }
                Try::Done(r) => return r,
                Try::Wait if mode == Mode::Async => {
                    g.ev(me, K::ReadWouldBlock, d as u64, 0);
                    g.dirs[d].read_task = Some(futures::task::current());
                    return Err(ErrorKind::WouldBlock.into());
                }
                Try::Wait => {
                    g.ev(me, K::ReadBlocked, d as u64, 0);
                    g.nodes[me].state = NState::Blocked;
                    g.nodes[me].why = format!("read dir{}", d);
                    g.dirs[d].read_wait.push(me);
                    w.block(g, me);
                }
            }
        }
    }
}

impl Write for SimSock {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let me = self.me();
        let w = self.0.w.clone();
        let d = self.0.wr;
        w.step(me);
        let mode = self.mode();
        loop {
            let mut g = w.lock();
            if g.dead {
                return Err(ErrorKind::ConnectionAborted.into());
            }
            match g.try_write(me, d, buf, mode) {
                Try::Done(Err(ref e)) if mode == Mode::Async && e.kind() == ErrorKind::WouldBlock => {
                    g.dirs[d].write_task = Some(futures::task::current());
                    let dt = g.delay(5);
                    g.at(dt, Event::WakeWrite(d));
                    return Err(ErrorKind::WouldBlock.into());
                }
                Try::Done(r) => return r,
                Try::Wait if mode == Mode::Async => {
                    g.ev(me, K::WriteWouldBlock, d as u64, 0);
                    g.dirs[d].write_task = Some(futures::task::current());
                    return Err(ErrorKind::WouldBlock.into());
                }
                Try::Wait => {
                    g.ev(me, K::WriteBlocked, d as u64, 0);
                    g.nodes[me].state = NState::Blocked;
                    g.nodes[me].why = format!("write dir{}", d);
                    g.dirs[d].write_wait.push(me);
                    w.block(g, me);
                }
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl tokio_io::AsyncRead for SimSock {}
impl tokio_io::AsyncWrite for SimSock {
    fn shutdown(&mut self) -> futures::Poll<(), io::Error> {
        self.close_write();
        Ok(futures::Async::Ready(()))
    }
}

impl websocket::sync::stream::Splittable for SimSock {
    type Reader = SimSock;
    type Writer = SimSock;
    fn split(self) -> io::Result<(SimSock, SimSock)> {
        Ok((self.clone(), self))
    }
}

impl hyper::net::NetworkStream for SimSock {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> {
        Ok("10.0.0.2:4000".parse().unwrap())
    }
    fn set_read_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
}
