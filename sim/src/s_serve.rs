//! Scenario "serve": a listening server of the library (synchronous, several acceptors, or
//! asynchronous on a real tokio reactor) over simulated kernel sockets, and many peers: valid, slow,
//! silent, invalid, truncated, reset, aborted while queued, not reading, and crowds of idle ones.
use crate::exec;
use crate::gen;
use crate::http_gen::{self, Gen};
use crate::kernel::{self, Acc};
use crate::refws::{accept_for, parse_frame, parse_head, Head, F};
use crate::s_server::cause;
use crate::tape::Tape;
use crate::tls::{self, Cert, Trust};
use crate::world::{cur, Deliver, DirId, Inner, NState, NodeId, SimSock, K, W};
use futures::{Async, Future, Poll, Sink, Stream as _};
use hyper::header::Headers;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpStream};
use std::sync::{Arc, Mutex};
use tokio_reactor::Reactor;
use websocket::server::upgrade::HyperIntoWsError;
use websocket::server::{InvalidConnection, OptionalTlsAcceptor, WsServer};
use websocket::stream::sync::AsTcpStream;
use websocket::OwnedMessage;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// a valid request; then messages are exchanged
    Valid,
    /// a valid request whose sender never reads
    Clogged,
    Invalid,
    /// part of a valid request
    Partial,
    Silent,
    /// what no TLS server understands (to a TLS server only)
    Junk,
}

/// A peer's end of its connection.
enum Conn {
    Plain(SimSock),
    Tls(Box<native_tls::TlsStream<SimSock>>),
}
impl Conn {
    fn dirs(&self) -> (DirId, DirId) {
        let s = match self {
            Conn::Plain(s) => s,
            Conn::Tls(t) => t.get_ref(),
        };
        (s.0.wr, s.0.rd)
    }
}
impl Read for Conn {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Conn::Plain(s) => s.read(b),
            Conn::Tls(s) => s.read(b),
        }
    }
}
impl Write for Conn {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Conn::Plain(s) => s.write(b),
            Conn::Tls(s) => s.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Then {
    Close,
    Stay,
    Reset,
}

#[derive(Clone, Debug)]
struct Peer {
    id: usize,
    kind: Kind,
    then: Then,
    rq: Gen,
    start: u64,
    /// what to write, each after a pause
    parts: Vec<(u64, Vec<u8>)>,
    /// a message sent right behind the head
    early: bool,
    msgs: u32,
    linger: u64,
    addr: SocketAddrV4,
    cap: usize,
    rejected: bool,
    tls: bool,
    /// it never gets through the TLS handshake
    raw: bool,
    /// it says so in TLS when it closes
    polite: bool,
}

#[derive(Default, Debug)]
struct PeerOut {
    dialed: bool,
    dirs: Option<(DirId, DirId)>,
    served: bool,
    fail: Option<String>,
    ended: bool,
    /// it broke its own connection
    reset: bool,
}

#[derive(Clone, Debug)]
enum Res {
    Up { item: Option<SocketAddr>, stream: Option<SocketAddr>, peer: Option<usize> },
    Err { cause: &'static str, os: Option<i32>, would_block: bool, has_stream: bool, stream: Option<SocketAddr>, peer: Option<usize>, parsed: bool },
    Ended,
}

#[derive(Default)]
struct Shared {
    res: Mutex<Vec<(NodeId, Res)>>,
    outs: Mutex<BTreeMap<usize, PeerOut>>,
    park: Mutex<Vec<Conn>>,
    addr: Mutex<Option<SocketAddrV4>>,
    fatal: Mutex<Option<String>>,
    policy: Mutex<Vec<bool>>,
    /// would-block was reported although the server was in blocking mode, or the like
    oddity: Mutex<Option<String>>,
}
type Sh = Arc<Shared>;

fn xpeer(h: &Headers) -> Option<usize> {
    let v = h.get_raw("X-Peer")?;
    std::str::from_utf8(v.first()?).ok()?.trim().parse().ok()
}

fn refused<S, R>(stream: Option<S>, parsed: &Option<R>, error: &HyperIntoWsError, addr: impl Fn(&S) -> Option<SocketAddr>, headers: impl Fn(&R) -> Option<usize>) -> Res {
    let (os, would_block) = match error {
        HyperIntoWsError::Io(e) => (e.raw_os_error(), e.kind() == std::io::ErrorKind::WouldBlock),
        _ => (None, false),
    };
    Res::Err {
        cause: cause(error),
        os,
        would_block,
        has_stream: stream.is_some(),
        stream: stream.as_ref().and_then(|s| addr(s)),
        peer: parsed.as_ref().and_then(|r| headers(r)),
        parsed: parsed.is_some(),
    }
}

// ------------------------------------------------------------------ the peers

fn text(peer: usize, k: u32) -> String {
    format!("peer {} says {}", peer, k)
}

fn frame(peer: usize, k: u32) -> Vec<u8> {
    let mut v = vec![];
    F { fin: true, rsv: 0, op: 1, mask: Some([peer as u8, 7, k as u8, 9]), data: text(peer, k).into_bytes() }.encode(&mut v);
    v
}

struct Rx {
    buf: Vec<u8>,
}
impl Rx {
    fn more(&mut self, s: &mut Conn) -> Result<(), String> {
        let mut b = [0u8; 600];
        match s.read(&mut b) {
            Ok(0) => Err("end of stream".into()),
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(())
            }
            Err(e) => Err(format!("{:?}", e.kind())),
        }
    }
}

fn talk(p: &Peer, s: &mut Conn) -> Result<(), String> {
    let mut rx = Rx { buf: vec![] };
    let head = loop {
        if let Some(h) = parse_head(&rx.buf).map_err(|e| format!("reply: {}", e))? {
            break h;
        }
        rx.more(s).map_err(|e| format!("{} before the reply", e))?;
    };
    rx.buf.drain(..head.len);
    if p.rejected {
        if !head.line.starts_with("HTTP/1.1 400 ") {
            return Err(format!("rejection expected, got {:?}", head.line));
        }
        return Ok(());
    }
    if !head.line.starts_with("HTTP/1.1 101 ") {
        return Err(format!("upgrade expected, got {:?}", head.line));
    }
    if head.one("Sec-WebSocket-Accept") != Some(&accept_for(&p.rq.key)) {
        return Err("the accept value answers another request".into());
    }
    for k in 0..p.msgs {
        if k > 0 || !p.early {
            s.write_all(&frame(p.id, k)).map_err(|e| format!("write: {:?}", e.kind()))?;
        }
        loop {
            if let Head::Have(f) = parse_frame(&rx.buf, 0) {
                if f.complete {
                    let want = text(p.id, k);
                    if f.f.op != 1 || f.f.data != want.as_bytes() {
                        return Err(format!("echo of {:?} is {}", want, f.f.short()));
                    }
                    rx.buf.drain(..f.end);
                    break;
                }
            }
            rx.more(s).map_err(|e| format!("{} before echo {}", e, k))?;
        }
    }
    if !rx.buf.is_empty() {
        return Err(format!("{} bytes nobody asked for", rx.buf.len()));
    }
    Ok(())
}

fn connect(w: &W, me: NodeId, sh: &Sh, from: SocketAddrV4) -> Option<SimSock> {
    for _ in 0..200 {
        let to = *sh.addr.lock().unwrap();
        if let Some(to) = to {
            if let Some(s) = kernel::dial(w, me, to, from) {
                return Some(s);
            }
        }
        w.sleep(me, 100);
    }
    None
}

fn peer_node(w: W, p: Peer, sh: Sh) {
    let (_, me) = cur().unwrap();
    if p.start > 0 {
        w.sleep(me, p.start);
    }
    let set = |f: &dyn Fn(&mut PeerOut)| f(sh.outs.lock().unwrap().entry(p.id).or_default());
    let s = match connect(&w, me, &sh, p.addr) {
        Some(s) => s,
        None => return set(&|o| o.fail = Some("no server".into())),
    };
    let dirs = (s.0.wr, s.0.rd);
    set(&|o| {
        o.dialed = true;
        o.dirs = Some(dirs);
    });
    let mut broken = None;
    let mut s = if p.tls && !p.raw {
        match tls::connector(Trust::Ca, false).unwrap().connect("sim.example", s) {
            Ok(t) => Conn::Tls(Box::new(t)),
            Err(e) => {
                let why = match e {
                    native_tls::HandshakeError::Failure(e) => e.to_string(),
                    native_tls::HandshakeError::WouldBlock(_) => "would block".into(),
                };
                return set(&|o| o.fail = Some(format!("TLS handshake: {}", why)));
            }
        }
    } else {
        Conn::Plain(s)
    };
    if p.cap != usize::MAX {
        w.lock().dirs[dirs.1].cap = p.cap;
    }
    for (d, b) in &p.parts {
        if *d > 0 {
            w.sleep(me, *d);
        }
        if let Err(e) = s.write_all(b) {
            broken = Some(format!("write: {:?}", e.kind()));
            break;
        }
    }
    if p.kind == Kind::Valid && broken.is_none() {
        match talk(&p, &mut s) {
            Ok(()) => set(&|o| o.served = true),
            Err(e) => broken = Some(e),
        }
    }
    set(&|o| o.fail = broken.clone());
    if p.linger > 0 && p.then != Then::Stay {
        w.sleep(me, p.linger);
    }
    match p.then {
        Then::Close => {
            set(&|o| o.ended = true);
            if let (Conn::Tls(t), true) = (&mut s, p.polite) {
                let _ = t.shutdown();
            }
            drop(s);
        }
        Then::Stay => sh.park.lock().unwrap().push(s),
        Then::Reset => {
            set(&|o| {
                o.ended = true;
                o.reset = true
            });
            let mut g = w.lock();
            g.ev(me, K::CutRst, dirs.0 as u64, 0);
            g.do_rst(dirs.0);
            drop(g);
        }
    }
}

const CROWD: usize = 10_000;

fn crowd_addr(i: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 9, (i >> 8) as u8, i as u8), 6000)
}

/// Many connections that say nothing, or not enough.
fn crowd_node(w: W, n: usize, half: bool, tls: bool, sh: Sh) {
    let (_, me) = cur().unwrap();
    for i in 0..n {
        if let Some(mut s) = connect(&w, me, &sh, crowd_addr(i)) {
            if half && i % 2 == 0 {
                let _ = s.write_all(if tls { &HELLO[..20] } else { b"GET / HTTP/1.1\r\nHost: x\r\n" });
            }
            let d = (s.0.wr, s.0.rd);
            let mut o = sh.outs.lock().unwrap();
            let o = o.entry(CROWD + i).or_default();
            o.dialed = true;
            o.dirs = Some(d);
            sh.park.lock().unwrap().push(Conn::Plain(s));
        }
    }
}

/// The beginning of a ClientHello that is never finished.
const HELLO: [u8; 30] = [22, 3, 1, 2, 0, 1, 0, 1, 252, 3, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];

// ------------------------------------------------------------------ the synchronous server

fn sync_serve<S: Read + Write>(u: websocket::server::upgrade::sync::Upgrade<S>, reject: bool) {
    if reject {
        let _ = u.reject();
        return;
    }
    let mut c = match u.accept() {
        Ok(c) => c,
        Err(_) => return,
    };
    loop {
        match c.recv_message() {
            Ok(m @ OwnedMessage::Text(_)) | Ok(m @ OwnedMessage::Binary(_)) => {
                if c.send_message(&m).is_err() {
                    return;
                }
            }
            Ok(OwnedMessage::Close(_)) | Err(_) => return,
            Ok(_) => {}
        }
    }
}

#[derive(Clone, Debug)]
struct SyncPlan {
    threads: bool,
    iter: bool,
    acceptors: usize,
    nonblocking: bool,
    tls: bool,
    /// after so many results the mode is changed
    toggle: Option<usize>,
}

fn acceptor<A, S>(w: W, mut srv: WsServer<A, std::net::TcpListener>, accept: fn(&mut WsServer<A, std::net::TcpListener>) -> websocket::server::sync::AcceptResult<S>, p: SyncPlan, sh: Sh)
where
    A: OptionalTlsAcceptor,
    S: Read + Write + AsTcpStream + Send + 'static,
    WsServer<A, std::net::TcpListener>: Iterator<Item = websocket::server::sync::AcceptResult<S>>,
{
    let (_, me) = cur().unwrap();
    let mut nb = false;
    if p.nonblocking {
        if srv.set_nonblocking(true).is_err() {
            *sh.oddity.lock().unwrap() = Some("set_nonblocking failed".into());
        }
        nb = true;
    }
    let mut n = 0;
    loop {
        if p.toggle == Some(n) && p.acceptors == 1 {
            nb = !nb;
            let _ = srv.set_nonblocking(nb);
        }
        n += 1;
        let r = if p.iter {
            match srv.next() {
                Some(r) => r,
                None => {
                    sh.res.lock().unwrap().push((me, Res::Ended));
                    return;
                }
            }
        } else {
            accept(&mut srv)
        };
        w.step(me);
        match r {
            Ok(u) => {
                let peer = xpeer(&u.request.headers);
                let stream = u.tcp_stream().peer_addr().ok();
                sh.res.lock().unwrap().push((me, Res::Up { item: None, stream, peer }));
                let reject = peer.map_or(false, |p| sh.policy.lock().unwrap().get(p).copied().unwrap_or(false));
                if p.threads {
                    w.spawn("connection", move || sync_serve(u, reject));
                } else {
                    sync_serve(u, reject);
                }
            }
            Err(e) => {
                let r = refused(e.stream, &e.parsed, &e.error, |s| s.as_tcp().peer_addr().ok(), |r| xpeer(&r.headers));
                let wb = matches!(r, Res::Err { would_block: true, has_stream: false, .. });
                sh.res.lock().unwrap().push((me, r));
                if wb {
                    if !nb {
                        *sh.oddity.lock().unwrap() = Some("would-block was reported in blocking mode".into());
                        return;
                    }
                    // look again later; every wait is longer
                    let idle = w.lock().now > 3_000_000;
                    if idle && n > 60 {
                        return;
                    }
                    w.sleep(me, 200 + 50 * n as u64 * n as u64);
                }
            }
        }
    }
}

fn sync_server(w: W, p: SyncPlan, port: u16, sh: Sh) {
    if p.tls {
        let srv = match websocket::sync::Server::bind_secure(("10.0.0.1", port), tls::acceptor(Cert::Good)) {
            Ok(s) => s,
            Err(e) => return *sh.fatal.lock().unwrap() = Some(format!("bind: {}", e)),
        };
        publish(srv.local_addr(), port, &sh);
        return acceptor(w, srv, |s| s.accept(), p, sh);
    }
    let srv = match websocket::sync::Server::bind(("10.0.0.1", port)) {
        Ok(s) => s,
        Err(e) => return *sh.fatal.lock().unwrap() = Some(format!("bind: {}", e)),
    };
    publish(srv.local_addr(), port, &sh);
    for _ in 1..p.acceptors {
        match srv.try_clone() {
            Ok(s2) => {
                let (w2, p2, sh2) = (w.clone(), p.clone(), sh.clone());
                w.spawn("acceptor", move || acceptor(w2, s2, |s| s.accept(), p2, sh2));
            }
            Err(e) => return *sh.fatal.lock().unwrap() = Some(format!("try_clone: {}", e)),
        }
    }
    acceptor(w, srv, |s| s.accept(), p, sh);
}

fn publish(a: std::io::Result<SocketAddr>, port: u16, sh: &Sh) {
    match a.ok().and_then(kernel::v4) {
        Some(a) if *a.ip() == Ipv4Addr::new(10, 0, 0, 1) && (port == 0 && a.port() != 0 || a.port() == port) => *sh.addr.lock().unwrap() = Some(a),
        a => *sh.fatal.lock().unwrap() = Some(format!("local_addr is {:?}", a)),
    }
}

// ------------------------------------------------------------------ the asynchronous server

struct Serve<I, S> {
    inc: I,
    addr: fn(&S) -> Option<SocketAddr>,
    sh: Sh,
    me: NodeId,
    patient: bool,
}

impl<I, S> Future for Serve<I, S>
where
    S: tokio_io::AsyncRead + tokio_io::AsyncWrite + Send + 'static,
    I: futures::Stream<Item = (websocket::server::upgrade::r#async::Upgrade<S>, SocketAddr), Error = InvalidConnection<S, bytes::BytesMut>>,
{
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        loop {
            match self.inc.poll() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Ok(Async::Ready(None)) => {
                    self.sh.res.lock().unwrap().push((self.me, Res::Ended));
                    return Ok(Async::Ready(()));
                }
                Ok(Async::Ready(Some((u, a)))) => {
                    let peer = xpeer(&u.request.headers);
                    let stream = (self.addr)(&u.stream);
                    self.sh.res.lock().unwrap().push((self.me, Res::Up { item: Some(a), stream, peer }));
                    let reject = peer.map_or(false, |p| self.sh.policy.lock().unwrap().get(p).copied().unwrap_or(false));
                    if reject {
                        exec::spawn_task(Box::new(u.reject().map(|_| ()).map_err(|_| ())));
                        continue;
                    }
                    let f = u.accept().and_then(|(c, _)| {
                        let (si, st) = c.split();
                        st.take_while(|m| Ok(!m.is_close())).filter(|m| m.is_data()).forward(si)
                    });
                    exec::spawn_task(Box::new(f.map(|_| ()).map_err(|_| ())));
                }
                Err(e) => {
                    let r = refused(e.stream.as_ref(), &e.parsed, &e.error, |s| (self.addr)(s), |r| xpeer(&r.headers));
                    self.sh.res.lock().unwrap().push((self.me, r));
                }
            }
            if self.patient {
                // one item at a time; be polled again
                futures::task::current().notify();
                return Ok(Async::NotReady);
            }
        }
    }
}

fn async_server(w: W, via_sync: bool, patient: bool, tls: bool, port: u16, sh: Sh) {
    let (_, me) = cur().unwrap();
    let mut reactor = Reactor::new().expect("reactor");
    let handle = reactor.handle();
    let _default = tokio_reactor::set_default(&handle);
    let at = ("10.0.0.1", port);
    let task: exec::Task = if tls {
        let acc = tls::acceptor(Cert::Good);
        let srv = if via_sync {
            websocket::sync::Server::bind_secure(at, acc).and_then(|s| s.into_async(&handle))
        } else {
            websocket::r#async::Server::bind_secure(at, acc, &handle)
        };
        let srv = match srv {
            Ok(s) => s,
            Err(e) => return *sh.fatal.lock().unwrap() = Some(format!("bind: {}", e)),
        };
        publish(srv.local_addr(), port, &sh);
        Box::new(Serve { inc: srv.incoming(), addr: |s: &tokio_tls::TlsStream<tokio_tcp::TcpStream>| s.get_ref().get_ref().peer_addr().ok(), sh, me, patient })
    } else {
        let srv = if via_sync {
            websocket::sync::Server::bind(at).and_then(|s| s.into_async(&handle))
        } else {
            websocket::r#async::Server::bind(at, &handle)
        };
        let srv = match srv {
            Ok(s) => s,
            Err(e) => return *sh.fatal.lock().unwrap() = Some(format!("bind: {}", e)),
        };
        publish(srv.local_addr(), port, &sh);
        Box::new(Serve { inc: srv.incoming(), addr: |s: &tokio_tcp::TcpStream| s.peer_addr().ok(), sh, me, patient })
    };
    exec::run_tasks_with(vec![task], move || {
        if reactor.turn(None).is_err() {
            w.step(me);
        }
        true
    });
}

// ------------------------------------------------------------------ the scenario

fn mark(rq: &mut Gen, id: usize) {
    if rq.malformed {
        return;
    }
    let mut at = 0;
    while rq.bytes[at..].starts_with(b"\r\n") {
        at += 2;
    }
    let e = rq.bytes[at..].windows(2).position(|x| x == b"\r\n").unwrap() + at + 2;
    let l = format!("X-Peer: {}\r\n", id);
    rq.bytes.splice(e..e, l.into_bytes());
}

fn gen_peer(t: &mut Tape, id: usize, kind: Kind, sync: bool, inline: bool, crowded: bool, tls: bool) -> Peer {
    let mut rq = loop {
        let muts = if kind == Kind::Invalid { 1 + t.choose(2) } else { 0 };
        let r = http_gen::request(t, muts, true);
        if kind != Kind::Invalid || !r.causes.is_empty() && !r.either {
            break r;
        }
        if t.spent() {
            // the simplest invalid request
            let mut r = http_gen::request(t, 0, false);
            let s = String::from_utf8(r.bytes.clone()).unwrap().replacen("GET ", "PUT ", 1);
            r.bytes = s.into_bytes();
            r.causes = vec!["method"];
            break r;
        }
    };
    mark(&mut rq, id);
    let early = kind == Kind::Valid && t.chance(300);
    let msgs = if kind == Kind::Valid { 1 + t.choose(3) } else { 0 };
    let rejected = kind == Kind::Valid && !early && t.chance(100);
    let mut bytes = rq.bytes.clone();
    match kind {
        Kind::Partial => bytes.truncate(t.range(1, rq.bytes.len() - 1)),
        Kind::Silent => bytes.clear(),
        _ => {}
    }
    if early {
        bytes.extend(frame(id, 0));
    }
    let raw = tls && (kind == Kind::Junk || matches!(kind, Kind::Partial | Kind::Silent) && t.choose(2) == 0);
    if raw && kind == Kind::Partial {
        bytes = HELLO[..t.range(1, 29)].to_vec();
    }
    if raw && kind == Kind::Junk {
        match t.choose(3) {
            0 => {
                // an honest request, only not in TLS
                let n = t.range(8, 40);
                bytes = format!("GET /{} HTTP/1.1\r\n\r\n", "x".repeat(n)).into_bytes();
            }
            1 => bytes = vec![22, 9, 9, 0, 100, 1, 0, 0, 96, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1],
            _ => bytes = vec![b'x'; t.range(20, 3000)],
        }
    }
    // how it trickles out
    let mut parts = vec![];
    let n = t.weighted(&[50, 30, 15, 5]);
    let cuts = match n {
        0 => 1,
        1 => 2,
        2 => 6,
        _ => 60,
    };
    let slow = if crowded { 50 } else { *t.pick(&[0u64, 500, 20_000, 400_000]) };
    let mut at = 0;
    for i in 0..cuts {
        if at >= bytes.len() {
            break;
        }
        let left = bytes.len() - at;
        let k = if i + 1 == cuts { left } else { 1 + t.choose((left as u32).min(2 * bytes.len() as u32 / cuts as u32 + 1)) as usize };
        let d = if i == 0 { 0 } else if slow > 0 { t.choose(slow as u32) as u64 } else { 0 };
        parts.push((d, bytes[at..at + k.min(left)].to_vec()));
        at += k.min(left);
    }
    let mut then = match t.weighted(&[50, 35, 15]) {
        0 => Then::Close,
        1 => Then::Stay,
        _ => Then::Reset,
    };
    if sync && (inline || matches!(kind, Kind::Partial | Kind::Silent)) && then == Then::Stay {
        then = Then::Close;
    }
    // an invalid request is answered for before its sender goes away
    if kind == Kind::Invalid && then != Then::Stay {
        then = Then::Close;
    }
    let start = *t.pick(&[0u64, 0, 300, 5_000, 1_000_000]);
    let start = if start > 0 { t.choose(start as u32) as u64 } else { 0 };
    let linger = *t.pick(&[0u64, 1_000, 700_000]);
    Peer {
        id, kind, then, rq, start, parts, early, msgs, linger, rejected, tls, raw,
        polite: tls && t.choose(2) == 1,
        addr: SocketAddrV4::new(Ipv4Addr::new(10, 1, 0, id as u8 + 1), 5000 + id as u16),
        cap: if kind == Kind::Clogged { *t.pick(&[1usize, 20, 100]) } else { usize::MAX },
    }
}

fn net(g: &mut Inner, d: DirId) {
    let mode = g.tape.weighted(&[50, 20, 30]);
    let delay = *g.tape.pick(&[0u32, 10, 1000]);
    g.dirs[d].deliver = match mode {
        0 => Deliver::Instant,
        1 => Deliver::Whole(delay),
        _ => {
            let c = *g.tape.pick(&[40u32, 5, 1000]);
            Deliver::Chunks(c, delay)
        }
    };
    let p = *g.tape.pick(&[0, 0, 300]);
    g.dirs[d].short_r = p;
    let p = *g.tape.pick(&[0, 0, 300]);
    g.dirs[d].short_w = p;
}

pub fn serve(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    g.max_steps = 2_000_000;
    let sync = g.tape.chance(400);
    let tls = g.tape.chance(if id == "W21" { 1000 } else { 80 });
    let t = &mut g.tape;
    let plan = SyncPlan {
        threads: t.chance(600),
        iter: t.chance(400),
        acceptors: if !tls && t.chance(300) { 2 } else { 1 },
        tls,
        nonblocking: t.chance(300),
        toggle: if t.chance(150) { Some(t.choose(5) as usize) } else { None },
    };
    let inline = sync && !plan.threads;
    let crowd = if sync { 0 } else {
        match t.weighted(&[850, 90, 25, 28, 6, 1]) {
            0 => 0,
            1 => t.range(2, 20),
            2 => 70,
            3 => 140,
            4 => 300,
            _ => 1100,
        }
    };
    let half = t.choose(2) == 1;
    let n = t.range(1, 7);
    let mut peers = vec![];
    for id in 0..n {
        let kind = match t.weighted(&[50, 20, 12, 10, 8]) {
            0 => Kind::Valid,
            1 => Kind::Invalid,
            2 => Kind::Partial,
            3 => Kind::Silent,
            _ => Kind::Clogged,
        };
        // (in TLS a server that cannot write does not answer: a clogged peer would hold up the handshake)
        let kind = if (inline || sync && tls) && kind == Kind::Clogged { Kind::Valid } else { kind };
        let kind = if tls && t.chance(100) { Kind::Junk } else { kind };
        peers.push(gen_peer(t, id, kind, sync, inline, crowd > 100, tls));
    }
    let port = *t.pick(&[9000u16, 0, 80]);
    let via_sync = t.chance(300);
    let patient = t.chance(300);
    g.kern.net = Some(net);
    if g.tape.chance(300) {
        g.kern.accept_fail = *g.tape.pick(&[100, 400]);
        g.kern.accept_budget = 1 + g.tape.choose(6);
    }
    if !sync {
        g.kern.spurious_ep = *g.tape.pick(&[0, 0, 50, 300]);
    }
    let desc = format!(
        "serve: {}{} crowd={} accept_fail={} peers: {}",
        if tls { "TLS " } else { "" },
        if sync { format!("{:?}", plan) } else { format!("async via_sync={} patient={}", via_sync, patient) },
        crowd, g.kern.accept_fail,
        peers.iter().map(|p| format!("{}:{:?}{}{}/{:?}", p.id, p.kind, if p.raw { "(raw)" } else { "" }, if p.rejected { "(rejected)" } else { "" }, p.then)).collect::<Vec<_>>().join(" ")
    );
    g.describe(desc.clone());
    if g.keep_trace {
        for p in &peers {
            let s = format!("peer {} {} causes {:?} start {} pauses {:?} request {:?}", p.id, p.addr, p.rq.causes, p.start, p.parts.iter().map(|x| x.0).collect::<Vec<_>>(), String::from_utf8_lossy(&p.rq.bytes));
            g.note(s);
        }
    }
    g.nontrivial = n > 1 || crowd > 0;
    if crowd >= 70 {
        g.probe("crowd_of_idle_connections");
        g.probe_max("connections_max", crowd as u64);
    }
    drop(g);
    let sh: Sh = Default::default();
    *sh.policy.lock().unwrap() = peers.iter().map(|p| p.rejected).chain([false]).collect();
    let (w2, sh2, p2) = (w.clone(), sh.clone(), plan.clone());
    let server = if sync {
        w.spawn("server", move || sync_server(w2, p2, port, sh2))
    } else {
        w.spawn("server", move || async_server(w2, via_sync, patient, tls, port, sh2))
    };
    if crowd > 0 {
        let (w2, sh2) = (w.clone(), sh.clone());
        w.spawn("crowd", move || crowd_node(w2, crowd, half, tls, sh2));
    }
    let mut nodes = vec![];
    for p in &peers {
        let (w2, sh2, p2) = (w.clone(), sh.clone(), p.clone());
        nodes.push(w.spawn("peer", move || peer_node(w2, p2, sh2)));
    }
    let c = Case { w, sh: &sh, peers: &peers, crowd, sync, tls, plan: &plan, server, desc };
    let mut go = w.run();
    go = go && c.verify(1);
    if go && !sync {
        // the silent ones give up
        let park = std::mem::take(&mut *sh.park.lock().unwrap());
        let ids: Vec<(DirId, DirId)> = park.iter().map(|s| s.dirs()).collect();
        drop(park);
        for o in sh.outs.lock().unwrap().values_mut() {
            if o.dirs.map_or(false, |d| ids.contains(&d)) {
                o.ended = true;
            }
        }
        go = w.run() && c.verify(2);
    }
    if go && !(sync && (plan.nonblocking || plan.toggle.is_some())) {
        // and one more comes
        let mut p = peers[0].clone();
        p.id = peers.len();
        p.kind = Kind::Valid;
        p.rejected = false;
        p.early = false;
        p.msgs = 1;
        p.start = 0;
        p.then = Then::Close;
        p.cap = usize::MAX;
        p.raw = false;
        p.addr = SocketAddrV4::new(Ipv4Addr::new(10, 2, 0, 1), 7000);
        p.rq = Gen { key: "AAECAwQFBgcICQoLDA0ODw==".into(), ..Default::default() };
        p.rq.bytes = format!("GET /late HTTP/1.1\r\nX-Peer: {}\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {}\r\nSec-WebSocket-Version: 13\r\n\r\n", p.id, p.rq.key).into_bytes();
        p.parts = vec![(0, p.rq.bytes.clone())];
        let (w2, sh2, p2) = (w.clone(), sh.clone(), p.clone());
        let node = w.spawn("late peer", move || peer_node(w2, p2, sh2));
        w.lock().kern.accept_budget = 0;
        if w.run() {
            let mut all = peers.clone();
            all.push(p);
            let c = Case { peers: &all, ..c };
            let done = w.lock().nodes[node].state == NState::Done;
            if done || c.verify(3) {
                c.verify(3);
            }
        }
    }
    let (pan, stuck) = {
        let g = w.lock();
        (g.nodes.iter().filter(|n| n.panic.is_some()).map(|n| format!("{}: {}", n.name, n.panic.clone().unwrap())).collect::<Vec<_>>(), g.stuck)
    };
    for p in pan {
        c_bad(w, if tls { &["W14", "W17", "W21"] } else { &["W14", "W17"] }, "panic", format!("panic in {}", p));
    }
    if stuck {
        c_bad(w, if tls { &["W17", "W14", "W15", "W21"] } else { &["W17", "W14", "W15"] }, "livelock", "the server is busy without progress".into());
    }
}

fn c_bad(w: &W, t: &[&'static str], class: &str, m: String) {
    w.lock().viol(t, class, m);
}

struct Case<'a> {
    w: &'a W,
    sh: &'a Sh,
    peers: &'a [Peer],
    crowd: usize,
    sync: bool,
    tls: bool,
    plan: &'a SyncPlan,
    server: NodeId,
    desc: String,
}

impl<'a> Case<'a> {
    fn bad(&self, t: &[&'static str], class: &str, m: String) -> bool {
        let mut t = t.to_vec();
        if self.tls {
            t.push("W21");
        }
        c_bad(self.w, &t, class, format!("{} [{}]", m, self.desc));
        false
    }
    fn verify(&self, phase: u32) -> bool {
        if self.w.lock().nodes.iter().any(|n| n.panic.is_some()) {
            return false;
        }
        if let Some(e) = self.sh.fatal.lock().unwrap().clone() {
            return self.bad(&["W17"], "no-server", e);
        }
        if let Some(e) = self.sh.oddity.lock().unwrap().clone() {
            return self.bad(&["W17"], "mode", e);
        }
        let res = self.sh.res.lock().unwrap().clone();
        let (acc, aborted, waiting) = {
            let g = self.w.lock();
            let q: usize = g.kern.socks.iter().map(|s| s.queue.len()).sum();
            (g.kern.acc.clone(), g.kern.aborted.clone(), q)
        };
        if res.iter().any(|r| matches!(r.1, Res::Ended)) {
            return self.bad(&["W17"], "ended", format!("phase {}: the server ended", phase));
        }
        let (sstate, swhy) = { let g = self.w.lock(); (g.nodes[self.server].state, g.nodes[self.server].why.clone()) };
        if !self.sync && sstate == NState::Done {
            return self.bad(&["W17"], "ended", format!("phase {}: the server finished", phase));
        }
        // ------------------------------------------------- one result per accept
        // connections that failed before the library had a TLS stream to report
        let mut lost: Vec<SocketAddrV4> = vec![];
        let raw_at = |a: SocketAddrV4| self.tls && (self.peers.iter().any(|p| p.raw && p.addr == a) || a.ip().octets()[1] == 9);
        if self.sync {
            let mut who: Vec<NodeId> = acc.iter().map(|a| a.0).chain(res.iter().map(|r| r.0)).collect();
            who.sort_unstable();
            who.dedup();
            for n in who {
                let a: Vec<&Acc> = acc.iter().filter(|x| x.0 == n).map(|x| &x.1).collect();
                let r: Vec<&Res> = res.iter().filter(|x| x.0 == n).map(|x| &x.1).collect();
                for (i, r) in r.iter().enumerate() {
                    let ok = match (a.get(i), r) {
                        (None, _) => false,
                        (Some(Acc::Again), Res::Err { would_block, has_stream, .. }) => *would_block && !has_stream,
                        (Some(Acc::Err(e)), Res::Err { os, has_stream, .. }) => *os == Some(*e) && !has_stream,
                        (Some(Acc::Conn(_, p)), Res::Up { stream, peer, .. }) => {
                            stream.map_or(true, |s| s == SocketAddr::V4(*p)) && peer.and_then(|k| self.peers.get(k)).map_or(false, |k| k.addr == *p)
                        }
                        (Some(Acc::Conn(_, p)), Res::Err { has_stream: false, peer: None, parsed: false, cause, .. }) if raw_at(*p) => {
                            lost.push(*p);
                            *cause == "io"
                        }
                        (Some(Acc::Conn(_, p)), Res::Err { has_stream, stream, peer, .. }) => {
                            !raw_at(*p) && *has_stream && stream.map_or(true, |s| s == SocketAddr::V4(*p)) && peer.and_then(|k| self.peers.get(k)).map_or(true, |k| k.addr == *p)
                        }
                        _ => false,
                    };
                    if !ok {
                        return self.bad(&["W17"], "result", format!("result {} is {:?}, accept returned {:?}", i, r, a.get(i)));
                    }
                }
                if a.len() > r.len() {
                    return self.bad(&["W17", "W15"], "no-result", format!("{} accepts returned, {} results were reported", a.len(), r.len()));
                }
            }
            // nothing may be left waiting
            if waiting > 0 {
                return self.bad(&["W17", "W15"], "not-accepted", format!("{} connections wait, the server is at: {} ({:?})", waiting, swhy, sstate));
            }
        } else if waiting > 0 {
            return self.bad(&["W17", "W15"], "not-accepted", format!("phase {}: {} connections wait to be accepted and nothing happens", phase, waiting));
        }
        // ------------------------------------------------- peer by peer
        let outs = self.sh.outs.lock().unwrap();
        let none = PeerOut::default();
        let mut attributed = 0;
        let mut loose = 0;
        for id in (0..self.peers.len()).chain(CROWD..CROWD + self.crowd) {
            let p = self.peers.get(id);
            let o = outs.get(&id).unwrap_or(&none);
            let addr = p.map_or_else(|| crowd_addr(id - CROWD), |p| p.addr);
            if !o.dialed {
                if let Some(e) = &o.fail {
                    return self.bad(&["W17"], "no-server", format!("peer {}: {}", id, e));
                }
                return self.bad(&["W17", "W15"], "no-server", format!("peer {} has not connected", id));
            }
            if aborted.contains(&addr) {
                continue;
            }
            let a = SocketAddr::V4(addr);
            let ups = res.iter().filter(|r| match &r.1 { Res::Up { item, stream, peer } => *peer == Some(id) || peer.is_none() && (*item == Some(a) || *stream == Some(a)), _ => false }).count();
            let errs: Vec<&Res> = res.iter().map(|r| &r.1).filter(|r| match r { Res::Err { stream, peer, .. } => *peer == Some(id) || *stream == Some(a), _ => false }).collect();
            let gone = lost.iter().filter(|l| **l == addr).count();
            attributed += ups + errs.len();
            let kind = p.map_or(Kind::Silent, |p| p.kind);
            let what = format!("phase {}: peer {} ({:?})", phase, id, p.map(|p| (p.kind, p.then)));
            if ups + errs.len() > 1 {
                return self.bad(&["W17"], "twice", format!("{}: {} upgrades and {} errors", what, ups, errs.len()));
            }
            for r in &res {
                if let Res::Up { item, stream, peer } = &r.1 {
                    if *peer == Some(id) && (item.map_or(false, |i| i != a) || stream.map_or(false, |i| i != a)) {
                        return self.bad(&["W17"], "wrong-peer", format!("{}: upgrade with address {:?}, stream of {:?}, it is at {}", what, item, stream, a));
                    }
                }
            }
            // what its own connection did
            let rst = { let g = self.w.lock(); o.dirs.map_or(false, |d| g.dirs[d.0].rst) };
            if rst || o.reset {
                loose += 1 - (ups + errs.len()) as i64;
                if o.reset {
                    continue;
                }
            }
            if raw_at(addr) {
                // refused in TLS: there is nothing to tell whose connection it was
                let want = (kind == Kind::Junk || o.ended) as usize;
                loose += want as i64;
                if ups + errs.len() > 0 || self.sync && gone != want {
                    return self.bad(&["W17"], "not-reported", format!("{}: no TLS was spoken, {} upgrades, {} errors, {} failed handshakes reported, {} expected", what, ups, errs.len(), gone, want));
                }
                continue;
            }
            match kind {
                Kind::Junk => unreachable!(),
                Kind::Valid | Kind::Clogged => {
                    if ups != 1 {
                        let e = errs.first().map_or("nothing was reported".to_string(), |e| format!("{:?}", e));
                        return self.bad(&["W17", "W09", "W15"], "not-served", format!("{}: its valid request got no upgrade, {}", what, e));
                    }
                    if kind == Kind::Valid && !o.served {
                        let m = o.fail.clone().unwrap_or_else(|| "it is still waiting".into());
                        return self.bad(&["W17", "W15", "W01", "W10"], "not-served", format!("{}: upgrade offered, but {}", what, m));
                    }
                }
                Kind::Invalid => {
                    let ok = match errs.first() {
                        Some(Res::Err { has_stream, parsed, cause, .. }) => {
                            let p = p.unwrap();
                            *has_stream && (*parsed == !p.rq.malformed || p.rq.malformed) && !(p.rq.malformed && !matches!(*cause, "parsing" | "io"))
                        }
                        _ => false,
                    };
                    if !ok {
                        return self.bad(&["W17", "W09", "W15"], "not-reported", format!("{}: invalid request ({:?}) reported as {:?}", what, p.unwrap().rq.causes, errs.first()));
                    }
                }
                Kind::Partial | Kind::Silent => {
                    if !o.ended {
                        if ups + errs.len() > 0 {
                            return self.bad(&["W17", "W09"], "early", format!("{}: reported although its request is not complete: {:?}", what, errs.first()));
                        }
                    } else {
                        let ok = matches!(errs.first(), Some(Res::Err { has_stream: true, .. }));
                        if !ok {
                            return self.bad(&["W17", "W14", "W15"], "not-reported", format!("{}: it closed before its request was complete, reported: {:?}", what, errs.first()));
                        }
                    }
                }
            }
        }
        // ------------------------------------------------- nothing is reported out of thin air
        if !self.sync {
            let failed = acc.iter().filter(|a| matches!(a.1, Acc::Err(_))).count() as i64;
            let total = res.len() as i64;
            let want = attributed as i64 + failed + loose;
            if total != want {
                return self.bad(&["W17"], "count", format!("phase {}: {} results, {} expected ({} for connections, {} failed accepts, {} broken connections): {:?}", phase, total, want, attributed, failed, loose, res.iter().map(|r| &r.1).filter(|r| matches!(r, Res::Err { .. })).collect::<Vec<_>>()));
            }
            for e in acc.iter().filter_map(|a| match a.1 { Acc::Err(e) => Some(e), _ => None }) {
                let n = res.iter().filter(|r| matches!(r.1, Res::Err { os: Some(x), has_stream: false, .. } if x == e)).count();
                if n == 0 {
                    return self.bad(&["W17"], "accept-error", format!("accept failed with errno {}, which was not reported", e));
                }
            }
        }
        let _ = self.plan;
        true
    }
}
