//! Simulated kernel sockets: the system calls std::net, mio and tokio make on TCP sockets,
//! epoll and pipes are interposed in this binary. On a thread of the simulator they act on the
//! simulated network; anywhere else they go straight to the real kernel.
#![allow(non_camel_case_types)]
use crate::world::{cur, Deliver, DirId, Event, Inner, Mode, NState, NodeId, SimSock, SockInner, Try, K, W};
use libc::{c_int, c_long, c_void, size_t, sockaddr, socklen_t, ssize_t};
use std::collections::{BTreeMap, VecDeque};
use std::io::ErrorKind;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4};
use std::sync::{Arc, Mutex};

/// Simulated descriptors start here; real ones never get this far.
pub const SIMFD: c_int = 1_000_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Obj {
    Sock(usize),
    Epoll(usize),
    PipeR(usize),
    PipeW(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Fresh,
    Listening,
    Connecting,
    Connected(DirId, DirId),
    Failed(c_int),
}

pub struct Sock {
    pub st: St,
    pub refs: u32,
    pub nonblock: bool,
    /// addresses of this socket are shown as IPv6
    pub v6: bool,
    pub local: SocketAddrV4,
    pub peer: SocketAddrV4,
    pub rcvtimeo: u64,
    so_error: c_int,
    pub queue: VecDeque<usize>,
    wait: Vec<NodeId>,
    pub dial_delay: u32,
}

struct Item {
    obj: Obj,
    events: u32,
    data: u64,
    pending: bool,
}

#[derive(Default)]
struct Ep {
    refs: u32,
    items: BTreeMap<c_int, Item>,
    wait: Vec<NodeId>,
}

#[derive(Default)]
struct Pipe {
    n: usize,
    refs: u32,
}

pub struct Kern {
    pub fds: BTreeMap<c_int, Obj>,
    next_fd: c_int,
    pub socks: Vec<Sock>,
    eps: Vec<Ep>,
    pipes: Vec<Pipe>,
    dir_sock: BTreeMap<DirId, Vec<usize>>,
    next_port: u16,
    /// probability (per mille) and budget of failing accepts
    pub accept_fail: u32,
    pub accept_budget: u32,
    pub spurious_ep: u32,
    pub spurious_budget: u32,
    pub dup_fail: bool,
    /// what accept returned, to which node, in order
    pub acc: Vec<(NodeId, Acc)>,
    /// peers whose connection was aborted while it waited to be accepted
    pub aborted: Vec<SocketAddrV4>,
    /// directions (up, down) of every connection that reached its destination
    pub conns: Vec<(DirId, DirId)>,
    /// how network directions of new connections behave: drawn by this function
    pub net: Option<fn(&mut Inner, DirId)>,
    /// addresses connected to, in order
    pub dialed: Vec<SocketAddrV4>,
    pub latency: u32,
    /// what the next connections are given: directions made beforehand, or a refusal
    pub plan: VecDeque<Option<(DirId, DirId)>>,
    /// what names resolve to; any other name is unknown
    pub names: BTreeMap<String, Vec<Ipv4Addr>>,
    pub resolved: Vec<String>,
}

impl Default for Kern {
    fn default() -> Kern {
        Kern {
            fds: BTreeMap::new(), next_fd: SIMFD, socks: vec![], eps: vec![], pipes: vec![], dir_sock: BTreeMap::new(), next_port: 40_000,
            accept_fail: 0, accept_budget: 0, spurious_ep: 0, spurious_budget: 30, dup_fail: false, acc: vec![], aborted: vec![], conns: vec![], net: None,
            dialed: vec![], latency: 0, plan: VecDeque::new(), names: BTreeMap::new(), resolved: vec![],
        }
    }
}

/// One return of accept.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Acc {
    Conn(usize, SocketAddrV4),
    Err(c_int),
    Again,
}

const ANY: SocketAddrV4 = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0);

impl Kern {
    fn fd(&mut self, o: Obj) -> c_int {
        let f = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(f, o);
        f
    }
    fn sock(&mut self, st: St) -> usize {
        self.socks.push(Sock { st, refs: 1, nonblock: false, v6: false, local: ANY, peer: ANY, rcvtimeo: 0, so_error: 0, queue: VecDeque::new(), wait: vec![], dial_delay: 0 });
        self.socks.len() - 1
    }
    /// The directions (in, out) of the connection behind a descriptor.
    pub fn dirs_of(&self, fd: c_int) -> Option<(DirId, DirId)> {
        match self.fds.get(&fd) {
            Some(Obj::Sock(s)) => match self.socks[*s].st {
                St::Connected(r, w) => Some((r, w)),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn listener(&self, a: SocketAddrV4) -> Option<usize> {
        self.socks.iter().position(|s| s.st == St::Listening && s.refs > 0 && s.local.port() == a.port() && (s.local.ip() == a.ip() || s.local.ip().is_unspecified()))
    }
}

fn ready(g: &Inner, o: Obj) -> u32 {
    let (i, u, e, h, rh) = (libc::EPOLLIN as u32, libc::EPOLLOUT as u32, libc::EPOLLERR as u32, libc::EPOLLHUP as u32, libc::EPOLLRDHUP as u32);
    match o {
        Obj::Sock(s) => match g.kern.socks[s].st {
            St::Fresh => u | h,
            St::Listening => if g.kern.socks[s].queue.is_empty() { 0 } else { i },
            St::Connecting => 0,
            St::Failed(_) => i | u | e | h,
            St::Connected(r, w) => {
                let (r, w) = (&g.dirs[r], &g.dirs[w]);
                let mut x = 0;
                if !r.rx.is_empty() || r.eof || r.rst || r.shut_read {
                    x |= i;
                }
                if r.eof || r.shut_read {
                    x |= rh;
                }
                if w.rst || w.fin || w.reader_gone || w.pending.len() + w.rx.len() < w.cap {
                    x |= u;
                }
                if r.rst {
                    x |= e | h;
                }
                if r.eof && w.fin {
                    x |= h;
                }
                x
            }
        },
        Obj::PipeR(p) => if g.kern.pipes[p].n > 0 { i } else { 0 },
        Obj::PipeW(_) => u,
        Obj::Epoll(_) => 0,
    }
}

/// Something happened to an object: mark it in every epoll set that watches it.
fn poke(g: &mut Inner, o: Obj) {
    let mut wake = vec![];
    for ep in g.kern.eps.iter_mut() {
        let mut hit = false;
        for it in ep.items.values_mut() {
            if it.obj == o {
                it.pending = true;
                hit = true;
            }
        }
        if hit {
            wake.append(&mut ep.wait);
        }
    }
    if let Obj::Sock(s) = o {
        wake.append(&mut g.kern.socks[s].wait);
    }
    wake_nodes(g, wake);
}

fn wake_nodes(g: &mut Inner, ns: Vec<NodeId>) {
    for n in ns {
        if g.nodes[n].state == NState::Blocked {
            g.nodes[n].state = NState::Ready;
        }
    }
}

pub fn dir_changed(g: &mut Inner, d: DirId) {
    if let Some(v) = g.kern.dir_sock.get(&d).cloned() {
        for s in v {
            poke(g, Obj::Sock(s));
        }
    }
}

fn attach(g: &mut Inner, s: usize, r: DirId, w: DirId) {
    g.kern.socks[s].st = St::Connected(r, w);
    for d in [r, w] {
        g.dirs[d].fd_watch = true;
        g.kern.dir_sock.entry(d).or_default().push(s);
    }
}

/// A connection request reaches its destination. Returns the directions (towards the server, towards the client).
fn arrive(g: &mut Inner, to: SocketAddrV4, from: SocketAddrV4) -> Option<(DirId, DirId)> {
    if let Some(p) = g.kern.plan.pop_front() {
        return p;
    }
    let l = g.kern.listener(to)?;
    let (up, down) = g.new_conn();
    g.kern.conns.push((up, down));
    if let Some(f) = g.kern.net {
        f(g, up);
        f(g, down);
    }
    let s = g.kern.sock(St::Fresh);
    g.kern.socks[s].refs = 0;
    g.kern.socks[s].local = to;
    g.kern.socks[s].peer = from;
    attach(g, s, up, down);
    g.kern.socks[l].queue.push_back(s);
    poke(g, Obj::Sock(l));
    Some((up, down))
}

pub fn on_event(g: &mut Inner, a: u32) {
    let s = a as usize;
    if g.kern.socks[s].st != St::Connecting {
        return;
    }
    let (to, from) = (g.kern.socks[s].peer, g.kern.socks[s].local);
    match arrive(g, to, from) {
        Some((up, down)) => {
            attach(g, s, down, up);
        }
        None => {
            g.kern.socks[s].st = St::Failed(libc::ECONNREFUSED);
            g.kern.socks[s].so_error = libc::ECONNREFUSED;
        }
    }
    poke(g, Obj::Sock(s));
}

/// Connects a raw peer: the harness's own end of a connection to a listening socket.
pub fn dial(w: &W, me: NodeId, to: SocketAddrV4, from: SocketAddrV4) -> Option<SimSock> {
    let mut g = w.lock();
    g.ev(me, K::Connect, to.port() as u64, from.port() as u64);
    let (up, down) = arrive(&mut g, to, from)?;
    Some(SimSock(Arc::new(SockInner { w: w.clone(), rd: down, wr: up, mode: Mutex::new(Mode::Blocking) })))
}

// ------------------------------------------------------------------ the system calls

fn errno(k: ErrorKind) -> c_int {
    match k {
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::ConnectionAborted => libc::ECONNABORTED,
        ErrorKind::Interrupted => libc::EINTR,
        ErrorKind::WouldBlock => libc::EAGAIN,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::PermissionDenied => libc::EPERM,
        _ => libc::EIO,
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn fail(e: c_int) -> c_int {
    set_errno(e);
    -1
}

fn sim(fd: c_int) -> Option<(W, NodeId)> {
    if fd >= SIMFD {
        cur()
    } else {
        None
    }
}

/// The simulated network is one of IPv4; its hosts have IPv6 addresses too.
fn six(a: Ipv4Addr) -> Ipv6Addr {
    if a == Ipv4Addr::LOCALHOST {
        return Ipv6Addr::LOCALHOST;
    }
    let o = a.octets();
    Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, (o[0] as u16) << 8 | o[1] as u16, (o[2] as u16) << 8 | o[3] as u16)
}
fn four(a: Ipv6Addr) -> Option<Ipv4Addr> {
    if a == Ipv6Addr::LOCALHOST {
        return Some(Ipv4Addr::LOCALHOST);
    }
    let s = a.segments();
    let x = Ipv4Addr::new((s[6] >> 8) as u8, s[6] as u8, (s[7] >> 8) as u8, s[7] as u8);
    if six(x) == a { Some(x) } else { None }
}

unsafe fn put_addr(a: SocketAddrV4, v6: bool, out: *mut sockaddr, len: *mut socklen_t) {
    if out.is_null() || len.is_null() {
        return;
    }
    if v6 {
        let mut sa: libc::sockaddr_in6 = std::mem::zeroed();
        sa.sin6_family = libc::AF_INET6 as _;
        sa.sin6_port = a.port().to_be();
        sa.sin6_addr.s6_addr = six(*a.ip()).octets();
        let n = (*len as usize).min(std::mem::size_of_val(&sa));
        std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, out as *mut u8, n);
        *len = std::mem::size_of_val(&sa) as _;
        return;
    }
    let sa = libc::sockaddr_in {
        sin_family: libc::AF_INET as _,
        sin_port: a.port().to_be(),
        sin_addr: libc::in_addr { s_addr: u32::from(*a.ip()).to_be() },
        sin_zero: [0; 8],
    };
    let n = (*len as usize).min(std::mem::size_of_val(&sa));
    std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, out as *mut u8, n);
    *len = std::mem::size_of_val(&sa) as _;
}

unsafe fn get_addr(a: *const sockaddr, len: socklen_t) -> Option<SocketAddrV4> {
    if a.is_null() || (len as usize) < std::mem::size_of::<libc::sockaddr_in>() {
        return None;
    }
    if (*a).sa_family as c_int == libc::AF_INET6 && len as usize >= std::mem::size_of::<libc::sockaddr_in6>() {
        let s = &*(a as *const libc::sockaddr_in6);
        return Some(SocketAddrV4::new(four(Ipv6Addr::from(s.sin6_addr.s6_addr))?, u16::from_be(s.sin6_port)));
    }
    if (*a).sa_family as c_int != libc::AF_INET {
        return None;
    }
    let s = &*(a as *const libc::sockaddr_in);
    Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)))
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    match cur() {
        Some((w, _)) if domain == libc::AF_INET || domain == libc::AF_INET6 => {
            let mut g = w.lock();
            let s = g.kern.sock(St::Fresh);
            g.kern.socks[s].v6 = domain == libc::AF_INET6;
            g.kern.socks[s].nonblock = ty & libc::SOCK_NONBLOCK != 0;
            g.kern.fd(Obj::Sock(s))
        }
        Some(_) => fail(libc::EAFNOSUPPORT),
        None => libc::syscall(libc::SYS_socket, domain, ty, proto) as c_int,
    }
}

fn sock_of(g: &Inner, fd: c_int) -> Result<usize, c_int> {
    match g.kern.fds.get(&fd) {
        Some(Obj::Sock(s)) => Ok(*s),
        Some(_) => Err(libc::ENOTSOCK),
        None => Err(libc::EBADF),
    }
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_bind, fd, a, len) as c_int,
    };
    let mut g = w.lock();
    let (s, mut a) = match (sock_of(&g, fd), get_addr(a, len)) {
        (Ok(s), Some(a)) => (s, a),
        (Err(e), _) => return fail(e),
        _ => return fail(libc::EINVAL),
    };
    if a.port() == 0 {
        g.kern.next_port += 1;
        a.set_port(g.kern.next_port);
    } else if g.kern.listener(a).is_some() {
        return fail(libc::EADDRINUSE);
    }
    g.kern.socks[s].local = a;
    0
}

#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_listen, fd, n) as c_int,
    };
    let mut g = w.lock();
    match sock_of(&g, fd) {
        Ok(s) => {
            g.kern.socks[s].st = St::Listening;
            0
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    let (w, me) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_accept4, fd, a, len, flags) as c_int,
    };
    if !w.step_nu(me) {
        return fail(libc::EIO);
    }
    loop {
        let mut g = w.lock();
        if g.dead {
            return fail(libc::EIO);
        }
        let s = match sock_of(&g, fd) {
            Ok(s) if g.kern.socks[s].st == St::Listening => s,
            Ok(_) => return fail(libc::EINVAL),
            Err(e) => return fail(e),
        };
        if g.kern.accept_budget > 0 && g.kern.accept_fail > 0 {
            let p = g.kern.accept_fail;
            if g.tape.chance(p) {
                g.kern.accept_budget -= 1;
                let es = [libc::EMFILE, libc::ECONNABORTED, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPROTO];
                let e = es[g.tape.choose(6) as usize];
                if e == libc::ECONNABORTED {
                    // the connection at the head of the queue is gone
                    match g.kern.socks[s].queue.pop_front() {
                        Some(c) => {
                            if let St::Connected(r, _) = g.kern.socks[c].st {
                                g.do_rst(r);
                            }
                            let a = g.kern.socks[c].peer;
                            g.kern.aborted.push(a);
                            g.ev(me, K::AcceptAbort, c as u64, 0);
                        }
                        None => continue,
                    }
                }
                g.kern.acc.push((me, Acc::Err(e)));
                g.ev(me, K::AcceptError, e as u64, 0);
                return fail(e);
            }
        }
        if let Some(c) = g.kern.socks[s].queue.pop_front() {
            g.kern.socks[c].refs = 1;
            g.kern.socks[c].nonblock = flags & libc::SOCK_NONBLOCK != 0;
            let f = g.kern.fd(Obj::Sock(c));
            let peer = g.kern.socks[c].peer;
            g.kern.acc.push((me, Acc::Conn(c, peer)));
            g.ev(me, K::Accept, c as u64, f as u64);
            let v6 = g.kern.socks[s].v6;
            g.kern.socks[c].v6 = v6;
            put_addr(peer, v6, a, len);
            return f;
        }
        if g.kern.socks[s].nonblock {
            g.ev(me, K::ReadWouldBlock, 999, 0);
            g.kern.acc.push((me, Acc::Again));
            return fail(libc::EAGAIN);
        }
        g.kern.socks[s].wait.push(me);
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = "accept".into();
        if !w.block_nu(g, me) {
            return fail(libc::EIO);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    accept4(fd, a, len, 0)
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    let (w, me) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_connect, fd, a, len) as c_int,
    };
    if !w.step_nu(me) {
        return fail(libc::EIO);
    }
    let mut g = w.lock();
    let (s, to) = match (sock_of(&g, fd), get_addr(a, len)) {
        (Ok(s), Some(a)) => (s, a),
        (Err(e), _) => return fail(e),
        _ => return fail(libc::EINVAL),
    };
    match g.kern.socks[s].st {
        St::Fresh => {}
        St::Connected(..) => return fail(libc::EISCONN),
        St::Connecting => return fail(libc::EALREADY),
        _ => return fail(libc::EINVAL),
    }
    g.kern.next_port += 1;
    let p = g.kern.next_port;
    g.kern.dialed.push(to);
    g.kern.socks[s].st = St::Connecting;
    g.kern.socks[s].local = SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 2), p);
    g.kern.socks[s].peer = to;
    g.ev(me, K::Connect, to.port() as u64, p as u64);
    let l = g.kern.latency;
    let dt = g.delay(l);
    g.at(dt, Event::Kern(s as u32));
    if g.kern.socks[s].nonblock {
        return fail(libc::EINPROGRESS);
    }
    loop {
        match g.kern.socks[s].st {
            St::Connected(..) => return 0,
            St::Failed(e) => {
                g.kern.socks[s].so_error = 0;
                return fail(e);
            }
            _ => {}
        }
        g.kern.socks[s].wait.push(me);
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = "connect".into();
        if !w.block_nu(g, me) {
            return fail(libc::EIO);
        }
        g = w.lock();
    }
}

fn conn_of(g: &Inner, fd: c_int) -> Result<(usize, DirId, DirId), c_int> {
    let s = sock_of(g, fd)?;
    match g.kern.socks[s].st {
        St::Connected(r, w) => Ok((s, r, w)),
        _ => Err(libc::ENOTCONN),
    }
}

fn sim_read(w: &W, me: NodeId, fd: c_int, buf: &mut [u8]) -> ssize_t {
    {
        let mut g = w.lock();
        if let Some(Obj::PipeR(p)) = g.kern.fds.get(&fd).copied() {
            let n = g.kern.pipes[p].n.min(buf.len());
            if n == 0 {
                return fail(libc::EAGAIN) as ssize_t;
            }
            g.kern.pipes[p].n -= n;
            buf[..n].fill(1);
            return n as ssize_t;
        }
    }
    if !w.step_nu(me) {
        return fail(libc::EIO) as ssize_t;
    }
    let mut deadline = None;
    loop {
        let mut g = w.lock();
        if g.dead {
            return fail(libc::EIO) as ssize_t;
        }
        let (s, r, _) = match conn_of(&g, fd) {
            Ok(x) => x,
            Err(e) => return fail(e) as ssize_t,
        };
        if buf.is_empty() {
            return 0;
        }
        let nb = g.kern.socks[s].nonblock;
        let mode = if nb { Mode::Fail(ErrorKind::WouldBlock) } else { Mode::Blocking };
        match g.try_read(me, r, buf, mode) {
            Try::Done(Ok(n)) => return n as ssize_t,
            Try::Done(Err(e)) => return fail(errno(e.kind())) as ssize_t,
            Try::Wait => {
                let t = g.kern.socks[s].rcvtimeo;
                if t > 0 {
                    let now = g.now;
                    let d = *deadline.get_or_insert(now + t);
                    if now >= d {
                        g.ev(me, K::ReadTimeout, r as u64, 0);
                        return fail(libc::EAGAIN) as ssize_t;
                    }
                    g.at(d - now, Event::WakeNode(me));
                }
                g.ev(me, K::ReadBlocked, r as u64, 0);
                g.nodes[me].state = NState::Blocked;
                g.nodes[me].why = format!("recv dir{}", r);
                g.dirs[r].read_wait.push(me);
                if !w.block_nu(g, me) {
                    return fail(libc::EIO) as ssize_t;
                }
            }
        }
    }
}

fn sim_write(w: &W, me: NodeId, fd: c_int, buf: &[u8]) -> ssize_t {
    {
        let mut g = w.lock();
        if let Some(Obj::PipeW(p)) = g.kern.fds.get(&fd).copied() {
            if g.kern.pipes[p].n > 60_000 {
                return fail(libc::EAGAIN) as ssize_t;
            }
            g.kern.pipes[p].n += buf.len();
            poke(&mut g, Obj::PipeR(p));
            return buf.len() as ssize_t;
        }
    }
    if !w.step_nu(me) {
        return fail(libc::EIO) as ssize_t;
    }
    loop {
        let mut g = w.lock();
        if g.dead {
            return fail(libc::EIO) as ssize_t;
        }
        let (s, _, d) = match conn_of(&g, fd) {
            Ok(x) => x,
            Err(e) => return fail(e) as ssize_t,
        };
        if buf.is_empty() {
            return 0;
        }
        let nb = g.kern.socks[s].nonblock;
        let mode = if nb { Mode::Fail(ErrorKind::WouldBlock) } else { Mode::Blocking };
        match g.try_write(me, d, buf, mode) {
            Try::Done(Ok(n)) => return n as ssize_t,
            Try::Done(Err(e)) => return fail(errno(e.kind())) as ssize_t,
            Try::Wait if nb => {
                g.ev(me, K::WriteWouldBlock, d as u64, 0);
                return fail(libc::EAGAIN) as ssize_t;
            }
            Try::Wait => {
                g.ev(me, K::WriteBlocked, d as u64, 0);
                g.nodes[me].state = NState::Blocked;
                g.nodes[me].why = format!("send dir{}", d);
                g.dirs[d].write_wait.push(me);
                if !w.block_nu(g, me) {
                    return fail(libc::EIO) as ssize_t;
                }
            }
        }
    }
}

unsafe fn sl<'a>(p: *const c_void, n: size_t) -> &'a [u8] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(p as *const u8, n) }
}
unsafe fn slm<'a>(p: *mut c_void, n: size_t) -> &'a mut [u8] {
    if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(p as *mut u8, n) }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    match sim(fd) {
        Some((w, me)) => sim_read(&w, me, fd, slm(p, n)),
        None => libc::syscall(libc::SYS_read, fd, p, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    match sim(fd) {
        Some((w, me)) => sim_write(&w, me, fd, sl(p, n)),
        None => libc::syscall(libc::SYS_write, fd, p, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    match sim(fd) {
        Some((w, me)) => sim_read(&w, me, fd, slm(p, n)),
        None => libc::syscall(libc::SYS_recvfrom, fd, p, n, flags, 0usize, 0usize) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    match sim(fd) {
        Some((w, me)) => sim_write(&w, me, fd, sl(p, n)),
        None => libc::syscall(libc::SYS_sendto, fd, p, n, flags, 0usize, 0usize) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let (w, me) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t,
    };
    let v = std::slice::from_raw_parts(iov, n as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    let mut tmp = vec![0u8; total.min(65_536)];
    let r = sim_read(&w, me, fd, &mut tmp);
    if r > 0 {
        let mut at = 0;
        for x in v {
            let k = x.iov_len.min(r as usize - at);
            std::ptr::copy_nonoverlapping(tmp[at..].as_ptr(), x.iov_base as *mut u8, k);
            at += k;
            if at == r as usize {
                break;
            }
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let (w, me) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t,
    };
    let v = std::slice::from_raw_parts(iov, n as usize);
    let mut tmp = vec![];
    for x in v {
        tmp.extend_from_slice(sl(x.iov_base, x.iov_len));
    }
    sim_write(&w, me, fd, &tmp)
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let (w, me) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_shutdown, fd, how) as c_int,
    };
    if !w.step_nu(me) {
        return fail(libc::EIO);
    }
    let mut g = w.lock();
    let (_, r, d) = match conn_of(&g, fd) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    if g.dirs[r].rst {
        return fail(libc::ENOTCONN);
    }
    g.ev(me, K::SysShutdown, how as u64, r as u64);
    if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
        g.dirs[r].shut_read = true;
        g.wake_readers(r);
        g.wake_writers(r);
    }
    if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
        g.do_fin(d);
        g.wake_writers(d);
    }
    0
}

/// Drops one reference to an object.
fn release(g: &mut Inner, o: Obj) {
    match o {
        Obj::Sock(s) => {
            g.kern.socks[s].refs -= 1;
            if g.kern.socks[s].refs > 0 {
                return;
            }
            match g.kern.socks[s].st {
                St::Connected(r, d) => {
                    g.do_fin(d);
                    g.dirs[r].reader_gone = true;
                    g.wake_writers(r);
                }
                St::Listening => {
                    // connections nobody accepted are reset
                    let q = std::mem::take(&mut g.kern.socks[s].queue);
                    for c in q {
                        if let St::Connected(r, _) = g.kern.socks[c].st {
                            g.do_rst(r);
                        }
                    }
                }
                _ => {}
            }
        }
        Obj::Epoll(e) => {
            g.kern.eps[e].refs -= 1;
            if g.kern.eps[e].refs == 0 {
                g.kern.eps[e].items.clear();
            }
            return;
        }
        Obj::PipeR(p) | Obj::PipeW(p) => {
            g.kern.pipes[p].refs -= 1;
        }
    }
    if g.kern.fds.values().all(|x| *x != o) {
        for ep in g.kern.eps.iter_mut() {
            ep.items.retain(|_, i| i.obj != o);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd < SIMFD {
        return libc::syscall(libc::SYS_close, fd) as c_int;
    }
    // a simulated descriptor may be dropped when its run is already over
    if let Some((w, _)) = cur() {
        let mut g = w.lock();
        match g.kern.fds.remove(&fd) {
            Some(o) if !g.dead => release(&mut g, o),
            Some(_) => {}
            None => return fail(libc::EBADF),
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let (w, me) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int,
    };
    let mut g = w.lock();
    let o = match g.kern.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF),
    };
    match cmd {
        libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => {
            if g.kern.dup_fail {
                g.ev(me, K::FcntlError, 0, 0);
                return fail(libc::EMFILE);
            }
            match o {
                Obj::Sock(s) => g.kern.socks[s].refs += 1,
                Obj::Epoll(e) => g.kern.eps[e].refs += 1,
                Obj::PipeR(p) | Obj::PipeW(p) => g.kern.pipes[p].refs += 1,
            }
            g.kern.fd(o)
        }
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_SETFD => 0,
        libc::F_GETFL => match o {
            Obj::Sock(s) if !g.kern.socks[s].nonblock => libc::O_RDWR,
            _ => libc::O_RDWR | libc::O_NONBLOCK,
        },
        libc::F_SETFL => {
            if let Obj::Sock(s) = o {
                g.kern.socks[s].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            }
            0
        }
        _ => fail(libc::EINVAL),
    }
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int,
    };
    let mut g = w.lock();
    if req == libc::FIONBIO {
        if let Ok(s) = sock_of(&g, fd) {
            g.kern.socks[s].nonblock = *(arg as *const c_int) != 0;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_getsockname, fd, a, len) as c_int,
    };
    let g = w.lock();
    match sock_of(&g, fd) {
        Ok(s) => {
            put_addr(g.kern.socks[s].local, g.kern.socks[s].v6, a, len);
            0
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_getpeername, fd, a, len) as c_int,
    };
    let g = w.lock();
    match conn_of(&g, fd) {
        Ok((_, r, _)) if g.dirs[r].rst => fail(libc::ENOTCONN),
        Ok((s, ..)) => {
            put_addr(g.kern.socks[s].peer, g.kern.socks[s].v6, a, len);
            0
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as c_int,
    };
    let mut g = w.lock();
    match sock_of(&g, fd) {
        Ok(s) => {
            if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
                let tv = &*(val as *const libc::timeval);
                g.kern.socks[s].rcvtimeo = tv.tv_sec as u64 * 1_000_000 + tv.tv_usec as u64;
            }
            0
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    let (w, _) = match sim(fd) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_getsockopt, fd, level, name, val, len) as c_int,
    };
    let mut g = w.lock();
    match sock_of(&g, fd) {
        Ok(s) => {
            let mut v = 0;
            if level == libc::SOL_SOCKET && name == libc::SO_ERROR {
                v = std::mem::take(&mut g.kern.socks[s].so_error);
            }
            if *len >= 4 {
                *(val as *mut c_int) = v;
                *len = 4;
            }
            0
        }
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    match cur() {
        Some((w, _)) => {
            let mut g = w.lock();
            g.kern.pipes.push(Pipe { n: 0, refs: 2 });
            let p = g.kern.pipes.len() - 1;
            *fds = g.kern.fd(Obj::PipeR(p));
            *fds.add(1) = g.kern.fd(Obj::PipeW(p));
            0
        }
        None => libc::syscall(libc::SYS_pipe2, fds, flags) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    match cur() {
        Some((w, _)) => {
            let mut g = w.lock();
            g.kern.eps.push(Ep { refs: 1, ..Ep::default() });
            let e = g.kern.eps.len() - 1;
            g.kern.fd(Obj::Epoll(e))
        }
        None => libc::syscall(libc::SYS_epoll_create1, flags) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    let (w, _) = match sim(ep) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_epoll_ctl, ep, op, fd, ev) as c_int,
    };
    let mut g = w.lock();
    let (e, o) = match (g.kern.fds.get(&ep), g.kern.fds.get(&fd)) {
        (Some(Obj::Epoll(e)), Some(o)) => (*e, *o),
        _ => return fail(libc::EBADF),
    };
    match op {
        libc::EPOLL_CTL_ADD | libc::EPOLL_CTL_MOD => {
            let have = g.kern.eps[e].items.contains_key(&fd);
            if op == libc::EPOLL_CTL_ADD && have {
                return fail(libc::EEXIST);
            }
            if op == libc::EPOLL_CTL_MOD && !have {
                return fail(libc::ENOENT);
            }
            let (events, data) = ((*ev).events, (*ev).u64);
            g.kern.eps[e].items.insert(fd, Item { obj: o, events, data, pending: true });
            let ws = std::mem::take(&mut g.kern.eps[e].wait);
            wake_nodes(&mut g, ws);
            0
        }
        _ => match g.kern.eps[e].items.remove(&fd) {
            Some(_) => 0,
            None => fail(libc::ENOENT),
        },
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let (w, me) = match sim(ep) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_epoll_wait, ep, out, max, timeout) as c_int,
    };
    if !w.step_nu(me) {
        return fail(libc::EBADF);
    }
    let mut deadline = None;
    loop {
        let mut g = w.lock();
        if g.dead {
            return fail(libc::EBADF);
        }
        let e = match g.kern.fds.get(&ep) {
            Some(Obj::Epoll(e)) => *e,
            _ => return fail(libc::EBADF),
        };
        let cand: Vec<(c_int, Obj, u32, u64)> = g.kern.eps[e].items.iter().filter(|(_, i)| i.pending).map(|(f, i)| (*f, i.obj, i.events, i.data)).collect();
        let always = (libc::EPOLLERR | libc::EPOLLHUP) as u32;
        let mut evs = vec![];
        for (fd, o, want, data) in cand {
            let r = ready(&g, o) & (want | always);
            let et = want & libc::EPOLLET as u32 != 0;
            if r != 0 {
                evs.push((fd, r, data, et));
            } else {
                g.kern.eps[e].items.get_mut(&fd).unwrap().pending = false;
            }
        }
        if g.kern.spurious_ep > 0 && g.kern.spurious_budget > 0 {
            let p = g.kern.spurious_ep;
            if g.tape.chance(p) {
                // an event without cause
                let all: Vec<(c_int, u64)> = g.kern.eps[e].items.iter().filter(|(_, i)| matches!(i.obj, Obj::Sock(_))).map(|(f, i)| (*f, i.data)).collect();
                if !all.is_empty() {
                    g.kern.spurious_budget -= 1;
                    let k = g.tape.choose(all.len() as u32) as usize;
                    if evs.iter().all(|x| x.0 != all[k].0) {
                        if let Some(Obj::Sock(s)) = g.kern.fds.get(&all[k].0).copied() {
                            if matches!(g.kern.socks[s].st, St::Connected(..) | St::Listening) {
                                let bits = if g.tape.choose(2) == 0 { libc::EPOLLIN } else { libc::EPOLLIN | libc::EPOLLOUT };
                                evs.push((all[k].0, bits as u32, all[k].1, true));
                            }
                        }
                    }
                }
            }
        }
        if !evs.is_empty() {
            // the order of events, and how many of them are told at once, is not fixed
            if evs.len() > 1 {
                let k = g.tape.choose(evs.len() as u32) as usize;
                evs.rotate_left(k);
                if g.tape.chance(150) {
                    let n = 1 + g.tape.choose(evs.len() as u32 - 1) as usize;
                    evs.truncate(n);
                }
            }
            evs.truncate(max as usize);
            for (i, (fd, r, data, et)) in evs.iter().enumerate() {
                *out.add(i) = libc::epoll_event { events: *r, u64: *data };
                if *et {
                    if let Some(it) = g.kern.eps[e].items.get_mut(fd) {
                        it.pending = false;
                    }
                }
            }
            g.ev(me, K::EpollWait, evs.len() as u64, 0);
            return evs.len() as c_int;
        }
        if timeout == 0 {
            return 0;
        }
        if timeout > 0 {
            let now = g.now;
            let d = *deadline.get_or_insert(now + timeout as u64 * 1000);
            if now >= d {
                return 0;
            }
            g.at(d - now, Event::WakeNode(me));
        }
        g.kern.eps[e].wait.push(me);
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = "epoll_wait".into();
        if !w.block_nu(g, me) {
            return fail(libc::EBADF);
        }
    }
}

/// `poll` on one simulated socket at least (std uses it for `connect_timeout`).
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let fds = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(fds, n as usize) };
    let (w, me) = match fds.iter().find(|f| f.fd >= SIMFD).and_then(|f| sim(f.fd)) {
        Some(x) => x,
        None => return libc::syscall(libc::SYS_poll, fds.as_mut_ptr(), n, timeout) as c_int,
    };
    if !w.step_nu(me) {
        return fail(libc::EBADF);
    }
    let mut deadline = None;
    loop {
        let mut g = w.lock();
        if g.dead {
            return fail(libc::EBADF);
        }
        let mut hits = 0;
        for f in fds.iter_mut() {
            f.revents = match g.kern.fds.get(&f.fd).copied() {
                // the bits of epoll and poll are the same
                Some(o) => (ready(&g, o) & (f.events as u32 | (libc::EPOLLERR | libc::EPOLLHUP) as u32)) as i16,
                None => libc::POLLNVAL,
            };
            hits += (f.revents != 0) as c_int;
        }
        if hits > 0 || timeout == 0 {
            return hits;
        }
        if timeout > 0 {
            let now = g.now;
            let d = *deadline.get_or_insert(now + timeout as u64 * 1000);
            if now >= d {
                return 0;
            }
            g.at(d - now, Event::WakeNode(me));
        }
        for f in fds.iter() {
            if let Some(Obj::Sock(s)) = g.kern.fds.get(&f.fd).copied() {
                g.kern.socks[s].wait.push(me);
                if let St::Connected(r, d) = g.kern.socks[s].st {
                    g.dirs[r].read_wait.push(me);
                    g.dirs[d].write_wait.push(me);
                }
            }
        }
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = "poll".into();
        if !w.block_nu(g, me) {
            return fail(libc::EBADF);
        }
    }
}

/// Sleeping takes simulated time on the threads of the simulator.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    match cur() {
        Some((w, me)) if flags & libc::TIMER_ABSTIME == 0 => {
            let us = (*t).tv_sec as u64 * 1_000_000 + (*t).tv_nsec as u64 / 1000;
            let mut g = w.lock();
            if !g.dead {
                g.at(us, Event::WakeNode(me));
                g.nodes[me].state = NState::Blocked;
                g.nodes[me].why = "sleep".into();
                w.block_nu(g, me);
            }
            0
        }
        _ => {
            if libc::syscall(libc::SYS_clock_nanosleep, clk, flags, t, rem) == 0 { 0 } else { *libc::__errno_location() }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    match clock_nanosleep(libc::CLOCK_MONOTONIC, 0, t, rem) {
        0 => 0,
        e => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const libc::c_char, service: *const libc::c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    let (w, me) = match cur() {
        Some(x) if !node.is_null() => x,
        _ => {
            let next: unsafe extern "C" fn(*const libc::c_char, *const libc::c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int =
                std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"getaddrinfo".as_ptr()));
            return next(node, service, hints, res);
        }
    };
    if !w.step_nu(me) {
        return libc::EAI_SYSTEM;
    }
    let name = std::ffi::CStr::from_ptr(node).to_string_lossy().to_string();
    let mut g = w.lock();
    g.ev(me, K::Resolve, name.len() as u64, 0);
    g.kern.resolved.push(name.clone());
    let addrs = match g.kern.names.get(&name) {
        Some(a) if !a.is_empty() => a.clone(),
        _ => return libc::EAI_NONAME,
    };
    let mut head: *mut libc::addrinfo = std::ptr::null_mut();
    for a in addrs.iter().rev() {
        let sa = Box::new(libc::sockaddr_in { sin_family: libc::AF_INET as _, sin_port: 0, sin_addr: libc::in_addr { s_addr: u32::from(*a).to_be() }, sin_zero: [0; 8] });
        let mut ai: libc::addrinfo = std::mem::zeroed();
        ai.ai_family = libc::AF_INET;
        ai.ai_socktype = libc::SOCK_STREAM;
        ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as _;
        ai.ai_addr = Box::into_raw(sa) as *mut sockaddr;
        ai.ai_next = head;
        head = Box::into_raw(Box::new(ai));
    }
    *res = head;
    0
}

/// Everything resolved on a simulated thread is freed there too.
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut ai: *mut libc::addrinfo) {
    if cur().is_none() {
        let next: unsafe extern "C" fn(*mut libc::addrinfo) = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"freeaddrinfo".as_ptr()));
        return next(ai);
    }
    while !ai.is_null() {
        let b = Box::from_raw(ai);
        drop(Box::from_raw(b.ai_addr as *mut libc::sockaddr_in));
        ai = b.ai_next;
    }
}

fn now_us(w: &W) -> (i64, u64) {
    (w.epoch.load(std::sync::atomic::Ordering::SeqCst), w.clock.load(std::sync::atomic::Ordering::SeqCst))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    match cur() {
        Some((w, _)) => {
            let (epoch, us) = now_us(&w);
            let base = if clk == libc::CLOCK_REALTIME { epoch } else { 100_000 };
            (*ts).tv_sec = base + (us / 1_000_000) as libc::time_t;
            (*ts).tv_nsec = (us % 1_000_000) as c_long * 1000;
            0
        }
        None => libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    match cur() {
        Some((w, _)) => {
            let (epoch, us) = now_us(&w);
            if !tv.is_null() {
                (*tv).tv_sec = epoch + (us / 1_000_000) as libc::time_t;
                (*tv).tv_usec = (us % 1_000_000) as _;
            }
            0
        }
        None => libc::syscall(libc::SYS_gettimeofday, tv, tz) as c_int,
    }
}

/// The clock certificates are judged by.
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let t = match cur() {
        Some((w, _)) => {
            let (epoch, us) = now_us(&w);
            epoch + (us / 1_000_000) as libc::time_t
        }
        None => {
            let mut ts: libc::timespec = std::mem::zeroed();
            libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_REALTIME, &mut ts);
            ts.tv_sec
        }
    };
    if !out.is_null() {
        *out = t;
    }
    t
}

pub fn v4(a: SocketAddr) -> Option<SocketAddrV4> {
    match a {
        SocketAddr::V4(a) => Some(a),
        SocketAddr::V6(a) => Some(SocketAddrV4::new(four(*a.ip())?, a.port())),
    }
}

/// Leaves a connection of this run alone: no delay, no limit.
pub fn calm(g: &mut Inner, d: DirId) {
    g.dirs[d].deliver = Deliver::Instant;
    g.dirs[d].cap = usize::MAX;
}

/// A descriptor for one end of a connection: reads from `r`, writes to `d`.
pub fn stream_fd(g: &mut Inner, r: DirId, d: DirId, local: SocketAddrV4, peer: SocketAddrV4) -> c_int {
    let s = g.kern.sock(St::Fresh);
    g.kern.socks[s].local = local;
    g.kern.socks[s].peer = peer;
    attach(g, s, r, d);
    g.kern.fd(Obj::Sock(s))
}
