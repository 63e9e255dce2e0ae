//! Scenario "halves": a connection of one endpoint over simulated TCP sockets is used as a whole,
//! split, and its halves are read, written, shut down and dropped by two threads in an order the
//! simulator chooses, while the simulator plays the peer: sending, stalling, resetting, reading late.
use crate::ep::*;
use crate::gen::{self, Sizes};
use crate::kernel::{self, stream_fd};
use crate::refws::{accept_for, expect, parse_head, strict_decode, Expect, Item, Limits, DEFAULT_LIMITS, F, M};
use crate::s_frames::{check_recv, item_end, item_is, item_short};
use crate::s_server::settle;
use crate::world::{cur, DirId, NState, NodeId, K, W};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::collections::VecDeque;
use std::net::{Ipv4Addr, SocketAddrV4, TcpStream};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use websocket::server::upgrade::sync::IntoWs as SyncIntoWs;
use websocket::sync::Client;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bring {
    Raw,
    Hs,
    /// the client makes the TCP connection itself
    Connect,
}

#[derive(Clone, PartialEq, Debug)]
enum Cmd {
    /// receive one item, waiting for it
    Recv,
    /// try to receive one item without waiting (nonblocking) or for a while (timeout)
    Poll(bool),
    Send(M),
    ShutRead,
    ShutWrite,
    ShutAll,
    Split,
    Drop,
}

#[derive(Default)]
struct Port {
    q: VecDeque<Cmd>,
    busy: Option<Cmd>,
    node: NodeId,
    /// what was carried out, with its result
    done: Vec<(Cmd, Result<(), String>)>,
    gone: bool,
}
type P = Arc<Mutex<Port>>;

fn pop(w: &W, me: NodeId, p: &P) -> Cmd {
    loop {
        {
            let mut p = p.lock().unwrap();
            if let Some(c) = p.q.pop_front() {
                p.busy = Some(c.clone());
                return c;
            }
        }
        let mut g = w.lock();
        g.nodes[me].state = NState::Blocked;
        g.nodes[me].why = "command".into();
        w.block(g, me);
    }
}

fn fin(p: &P, c: Cmd, r: Result<(), String>) {
    let mut p = p.lock().unwrap();
    p.busy = None;
    p.done.push((c, r));
}

fn push(w: &W, p: &P, c: Cmd) {
    let n = {
        let mut p = p.lock().unwrap();
        p.q.push_back(c);
        p.node
    };
    let mut g = w.lock();
    if g.nodes[n].state == NState::Blocked && g.nodes[n].why == "command" {
        g.nodes[n].state = NState::Ready;
    }
}

/// Records a receive; false when there is nothing more to receive.
fn note<T>(r: Result<T, websocket::WebSocketError>, conv: impl Fn(T) -> Got, log: &Log) -> Result<(), String> {
    match r {
        Ok(x) => {
            log.push(conv(x));
            Ok(())
        }
        Err(e) => match classify(&e) {
            Cls::Retry => match e {
                websocket::WebSocketError::IoError(e) if e.kind() != std::io::ErrorKind::Interrupted => Err("would block".into()),
                _ => Err("retry".into()),
            },
            Cls::Proto(s) => {
                log.push(Got::Proto(s));
                Err("protocol".into())
            }
            Cls::End(s) => {
                log.push(Got::End(s));
                Err("end".into())
            }
        },
    }
}

struct Shared {
    rd: P,
    wr: P,
    log: Log,
    frames: bool,
    split: Mutex<Option<Result<(), String>>>,
    up: Mutex<Option<Result<(), String>>>,
}

fn es<T>(r: std::io::Result<T>) -> Result<(), String> {
    r.map(|_| ()).map_err(|e| format!("{:?}", e.kind()))
}

fn whole(w: &W, me: NodeId, mut c: Client<TcpStream>, sh: Arc<Shared>) {
    let m = |x| Got::Msg(to_m(x));
    let f = |x| Got::Frame(to_f(x));
    loop {
        let cmd = pop(w, me, &sh.rd);
        let r = match &cmd {
            Cmd::Recv if sh.frames => note(c.recv_dataframe(), f, &sh.log),
            Cmd::Recv => note(c.recv_message(), m, &sh.log),
            Cmd::Poll(nb) => {
                if *nb {
                    let _ = c.set_nonblocking(true);
                } else {
                    let _ = c.stream_ref().set_read_timeout(Some(Duration::from_millis(3)));
                }
                let r = if sh.frames { note(c.recv_dataframe(), f, &sh.log) } else { note(c.recv_message(), m, &sh.log) };
                if *nb {
                    let _ = c.set_nonblocking(false);
                } else {
                    let _ = c.stream_ref().set_read_timeout(None);
                }
                r
            }
            Cmd::Send(m) => c.send_message(&to_borrowed(m)).map_err(|e| format!("{:?}", e)),
            Cmd::ShutRead => es(c.shutdown_receiver()),
            Cmd::ShutWrite => es(c.shutdown_sender()),
            Cmd::ShutAll => es(c.shutdown()),
            Cmd::Drop => {
                drop(c);
                sh.rd.lock().unwrap().gone = true;
                sh.wr.lock().unwrap().gone = true;
                return fin(&sh.rd, cmd, Ok(()));
            }
            Cmd::Split => break,
        };
        fin(&sh.rd, cmd, r);
    }
    match c.split() {
        Err(e) => {
            *sh.split.lock().unwrap() = Some(Err(format!("{:?}", e.kind())));
            fin(&sh.rd, Cmd::Split, Ok(()));
        }
        Ok((mut r, mut wr)) => {
            let s2 = sh.clone();
            let n = w.spawn("writer half", move || {
                let (w, me) = cur().unwrap();
                loop {
                    let cmd = pop(&w, me, &s2.wr);
                    let r = match &cmd {
                        Cmd::Send(m) => wr.send_message(&to_borrowed(m)).map_err(|e| format!("{:?}", e)),
                        Cmd::ShutWrite => es(wr.shutdown()),
                        Cmd::ShutAll => es(wr.shutdown_all()),
                        Cmd::Drop => {
                            drop(wr);
                            s2.wr.lock().unwrap().gone = true;
                            return fin(&s2.wr, cmd, Ok(()));
                        }
                        _ => Err("harness".into()),
                    };
                    fin(&s2.wr, cmd, r);
                }
            });
            sh.wr.lock().unwrap().node = n;
            *sh.split.lock().unwrap() = Some(Ok(()));
            fin(&sh.rd, Cmd::Split, Ok(()));
            loop {
                let cmd = pop(w, me, &sh.rd);
                let r = match &cmd {
                    Cmd::Recv if sh.frames => note(r.recv_dataframe(), f, &sh.log),
                    Cmd::Recv => note(r.recv_message(), m, &sh.log),
                    Cmd::ShutRead => es(r.shutdown()),
                    Cmd::ShutAll => es(r.shutdown_all()),
                    Cmd::Drop => {
                        drop(r);
                        sh.rd.lock().unwrap().gone = true;
                        return fin(&sh.rd, cmd, Ok(()));
                    }
                    _ => Err("harness".into()),
                };
                fin(&sh.rd, cmd, r);
            }
        }
    }
}

const KEY: &str = "dGhlIHNhbXBsZSBub25jZQ==";

struct Run<'a> {
    w: &'a W,
    sh: Arc<Shared>,
    into: DirId,
    out: DirId,
    /// the wire up to here belongs to the handshake
    head_out: usize,
    head_in: usize,
    masked_out: bool,
    lim: Limits,
    desc: String,
    rst: bool,
    peer_fin: bool,
    /// the peer is not reading at the moment
    clogged: bool,
    tried: Vec<M>,
    split: bool,
    with_limits: bool,
    fed: Vec<u8>,
}

impl<'a> Run<'a> {
    fn bad(&self, t: &[&'static str], class: &str, msg: String) -> bool {
        let mut p = vec!["W16"];
        p.extend_from_slice(t);
        let done: Vec<String> = {
            let (r, w) = (self.sh.rd.lock().unwrap(), self.sh.wr.lock().unwrap());
            r.done.iter().chain(w.done.iter()).map(|(c, r)| format!("{}={}", short(c), r.as_ref().map_or_else(|e| e.clone(), |_| "ok".into()))).collect()
        };
        self.w.lock().viol(&p, class, format!("{} [{}; done: {}]", msg, self.desc, done.join(" ")));
        false
    }
    /// Lets everything run until nothing happens any more, then judges.
    fn step(&self) -> bool {
        let ok = if self.clogged { self.w.run() } else { settle(self.w, self.out) };
        if !ok {
            return self.bad(&["W15"], "livelock", "no progress".into());
        }
        let (nodes, sent, fin, avail, eof) = {
            let g = self.w.lock();
            if g.dead || !g.viols.is_empty() {
                return false;
            }
            let ns: Vec<(String, NState, Option<String>)> = g.nodes.iter().map(|n| (n.name.clone(), n.state, n.panic.clone())).collect();
            (ns, g.dirs[self.out].sent.clone(), g.dirs[self.out].fin, g.dirs[self.into].delivered as usize, g.dirs[self.into].eof)
        };
        for (n, _, p) in &nodes {
            if let Some(p) = p {
                return self.bad(&["W14"], "panic", format!("{} panicked: {}", n, p));
            }
        }
        let (rdone, rbusy, rgone) = { let p = self.sh.rd.lock().unwrap(); (p.done.clone(), p.busy.clone(), p.gone) };
        let (wdone, wbusy, wgone) = { let p = self.sh.wr.lock().unwrap(); (p.done.clone(), p.busy.clone(), p.gone) };
        let all = || rdone.iter().chain(wdone.iter());
        let ran = |c: Cmd| all().any(|x| x.0 == c);
        let shut_w = ran(Cmd::ShutWrite) || ran(Cmd::ShutAll);
        let shut_r = ran(Cmd::ShutRead) || ran(Cmd::ShutAll);
        let closing = [&rbusy, &wbusy].iter().any(|b| matches!(b, Some(Cmd::ShutAll)));
        let split_failed = matches!(*self.sh.split.lock().unwrap(), Some(Err(_)));
        let closed = rgone && wgone || split_failed;
        // ------------------------------------------------- directions
        if fin && !(shut_w || closed || closing) {
            return self.bad(&["W12"], "ended-sending", "the sending direction has ended although nobody ended it".into());
        }
        if !fin && (shut_w || closed) && !self.rst {
            return self.bad(&[], "still-open", format!("the sending direction is still open ({})", if closed { "the connection was dropped" } else { "it was shut down" }));
        }
        for (c, r) in all() {
            if let (Cmd::ShutRead | Cmd::ShutWrite | Cmd::ShutAll, Err(e)) = (c, r) {
                if !self.rst && all().filter(|x| matches!(x.0, Cmd::ShutRead | Cmd::ShutWrite | Cmd::ShutAll)).count() == 1 {
                    return self.bad(&[], "shutdown-failed", format!("{:?} failed: {}", c, e));
                }
            }
        }
        // ------------------------------------------------- sending
        let ends = shut_w || closing || self.rst || self.clogged || wgone;
        let oks: Vec<bool> = all().filter(|x| matches!(x.0, Cmd::Send(_))).map(|x| x.1.is_ok()).collect();
        match strict_decode(&sent[self.head_out.min(sent.len())..], self.masked_out) {
            Err(e) => return self.bad(&["W06", "W20", "W12"], "bad-frames", format!("malformed output: {}", e)),
            Ok((fs, left)) => {
                for (k, (f, _)) in fs.iter().enumerate() {
                    let m = M::from_parts(f.op, &f.data);
                    if !f.fin || f.rsv != 0 || m.as_ref() != self.tried.get(k) {
                        return self.bad(&["W01", "W12", "W20", "W06"], "wrong-frame", format!("frame {} on the wire is {}", k, f.short()));
                    }
                }
                let n = oks.iter().filter(|o| **o).count();
                if fs.len() < n {
                    return self.bad(&["W01", "W12"], "lost-frame", format!("{} sends succeeded, {} frames are on the wire", n, fs.len()));
                }
                if fs.len() > oks.len() + wbusy.is_some() as usize + rbusy.is_some() as usize {
                    return self.bad(&["W12"], "extra-frame", format!("{} frames on the wire", fs.len()));
                }
                if left > 0 && !ends {
                    return self.bad(&["W12", "W15"], "torn-frame", format!("{} bytes of an unfinished frame", left));
                }
            }
        }
        if oks.contains(&false) && !(shut_w || closing || self.rst) {
            return self.bad(&["W12"], "send-failed", "a send failed although the sending direction is open".into());
        }
        if all().any(|x| x.0 == Cmd::Recv && x.1 == Err("would block".into())) {
            return self.bad(&["W03", "W15"], "would-block", "a receive on a blocking connection did not wait".into());
        }
        // what was tried after the direction had been shut down in an earlier step must fail
        let mut shut = false;
        for (c, r) in if self.split { &wdone } else { &rdone } {
            match c {
                Cmd::ShutWrite | Cmd::ShutAll => shut = true,
                Cmd::Send(m) if shut && r.is_ok() => return self.bad(&["W12"], "sent-after-shutdown", format!("sending {} after the shutdown succeeded", m.short())),
                _ => {}
            }
        }
        let wsending = |b: &Option<Cmd>| matches!(b, Some(Cmd::Send(_)));
        if (wsending(&wbusy) || wsending(&rbusy)) && (!self.clogged || fin || self.rst) {
            return self.bad(&["W15"], "stalled-send", format!("a send does not finish although {}", if fin { "the direction was shut down" } else { "the peer reads everything" }));
        }
        for (b, who) in [(&rbusy, "reader"), (&wbusy, "writer")] {
            if matches!(b, Some(Cmd::ShutRead | Cmd::ShutWrite | Cmd::ShutAll | Cmd::Split | Cmd::Drop | Cmd::Poll(_))) {
                return self.bad(&["W15"], "hang", format!("the {} is stuck in {:?}", who, b));
            }
        }
        if !wgone && self.split && !wsending(&wbusy) && !self.sh.wr.lock().unwrap().q.is_empty() {
            return self.bad(&["W15"], "blocked-half", format!("the writer does not run although it is not waiting for the peer"));
        }
        // ------------------------------------------------- receiving
        let got = self.sh.log.snapshot();
        let exp = expect(&self.fed, !self.masked_out, self.lim, self.sh.frames);
        let at = avail.saturating_sub(self.head_in);
        let ended = eof || shut_r || self.rst;
        let mut t = vec!["W01", "W10"];
        if self.with_limits {
            t.push("W07");
        }
        if rdone.iter().any(|x| matches!(x.0, Cmd::Poll(_))) {
            t.push("W03");
        }
        let waiting = matches!(rbusy, Some(Cmd::Recv));
        if let Err((class, msg)) = self.judge(&exp, &got, at, waiting, ended, shut_r || self.rst) {
            if class == "missing" || class == "hang" {
                t.push("W15");
            }
            return self.bad(&t, class, msg);
        }
        true
    }
    fn judge(&self, exp: &Expect, got: &[Got], avail: usize, waiting: bool, ended: bool, lost: bool) -> Result<(), (&'static str, String)> {
        if got.iter().any(|g| matches!(g, Got::Proto(_) | Got::End(_))) {
            let k = got.iter().take_while(|g| matches!(g, Got::Msg(_) | Got::Frame(_))).count();
            let once = &got[..(k + 1).min(got.len())];
            return check_recv(exp, once, avail, ended, lost);
        }
        let opt: &[(M, usize)] = exp.viol.as_ref().map_or(&[], |v| &v.optional[..]);
        for (k, g) in got.iter().enumerate() {
            match exp.items.get(k) {
                Some(i) if item_end(i) <= avail && item_is(i, g) => {}
                Some(i) => return Err(("wrong-item", format!("item {}: expected {} (byte {} of {}), got {}", k, item_short(i), item_end(i), avail, g.short()))),
                None => match opt.get(k - exp.items.len()) {
                    Some((m, e)) if *e <= avail && *g == Got::Msg(m.clone()) => {}
                    _ => return Err(("extra-item", format!("unexpected {} after {} items", g.short(), k))),
                },
            }
        }
        if !waiting {
            return Ok(());
        }
        if let Some(i) = exp.items.get(got.len()) {
            if item_end(i) <= avail {
                return Err(("missing", format!("item {} ({}) has arrived and is not reported", got.len(), item_short(i))));
            }
        }
        if let Some(v) = &exp.viol {
            if v.latest <= avail && got.len() >= exp.items.len() {
                return Err(("no-error", format!("{}: not reported", v.why)));
            }
        }
        if ended {
            return Err(("hang", "the reader still waits although its direction has ended".into()));
        }
        Ok(())
    }
}

fn short(c: &Cmd) -> String {
    match c {
        Cmd::Send(m) => format!("Send({})", m.short()),
        c => format!("{:?}", c),
    }
}

pub fn halves(w: &W, _id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let t = &mut g.tape;
    let role = if t.choose(2) == 0 { Role::Client } else { Role::Server };
    let bring = match role {
        Role::Client => *t.pick(&[Bring::Raw, Bring::Hs, Bring::Connect]),
        Role::Server => *t.pick(&[Bring::Raw, Bring::Hs]),
    };
    let frames = t.chance(300);
    let limits = if t.chance(350) { Some((*t.pick(&[130usize, 300, 2000, u32::MAX as usize]), *t.pick(&[300usize, 1000, 5000, u32::MAX as usize]))) } else { None };
    let (a1, a2) = (SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 2), 5000), SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), 80));
    let (into, out) = g.new_conn();
    gen::net(&mut g, into);
    gen::net(&mut g, out);
    g.dirs[out].cap = *g.tape.pick(&[usize::MAX, usize::MAX, 1, 50, 300]);
    let fd = if bring == Bring::Connect {
        g.kern.plan.push_back(Some((out, into)));
        0
    } else {
        stream_fd(&mut g, into, out, a1, a2)
    };
    g.nontrivial = true;
    let desc = format!("halves: {:?} {:?} frames={} limits={:?} cap={:?} net {:?}", role, bring, frames, limits, g.dirs[out].cap, g.dirs[into].deliver);
    g.describe(desc.clone());
    // what the peer sends in the course of the run
    let t = &mut g.tape;
    let masked = role == Role::Server;
    let mut fs: Vec<F> = vec![];
    let mut nid = 0;
    let big = *t.pick(&[40, 300, 3000]);
    for _ in 0..2 + t.choose(6) {
        nid += 1;
        let m = gen::message(t, nid, Sizes { big, huge: false });
        gen::fragments(t, &m, masked, &mut nid, 500, 250, &mut fs);
    }
    let mut script = vec![];
    for f in &fs {
        f.encode(&mut script);
    }
    let lim = match limits {
        Some((f, m)) => Limits { frame: f as u64, msg: m as u64 },
        None => DEFAULT_LIMITS,
    };
    let mut limits = limits;
    let mut lim = lim;
    while expect(&script, masked, lim, frames).viol.as_ref().map_or(false, |v| v.why == "message limit reached exactly") {
        lim.msg += 1;
        limits = Some((lim.frame as usize, lim.msg as usize));
    }
    let behind = if t.chance(500) { t.range(0, script.len()) } else { 0 };
    drop(g);
    let sh = Arc::new(Shared { rd: P::default(), wr: P::default(), log: Log::default(), frames, split: Mutex::new(None), up: Mutex::new(None) });
    let s2 = sh.clone();
    let node = w.spawn("endpoint", move || {
        let (w, me) = cur().unwrap();
        let s = || unsafe { TcpStream::from_raw_fd(fd) };
        let c = match (role, bring) {
            (_, Bring::Raw) => {
                let (o, i) = (role == Role::Client, role == Role::Server);
                let br = BufReader::new(s());
                Ok(match limits {
                    Some((f, m)) => Client::unchecked_with_limits(br, Headers::new(), o, i, f, m),
                    None => Client::unchecked(br, Headers::new(), o, i),
                })
            }
            (Role::Client, Bring::Hs) => client_builder(limits).connect_on(s()).map_err(|e| format!("{:?}", e)),
            (Role::Client, _) => {
                let b = websocket::ClientBuilder::new("ws://10.0.0.1/").expect("url");
                let mut b = match limits {
                    Some((f, m)) => b.max_dataframe_size(f).max_message_size(m),
                    None => b,
                };
                b.connect_insecure().map_err(|e| format!("{:?}", e))
            }
            (Role::Server, _) => SyncIntoWs::into_ws(s()).map_err(|e| format!("{:?}", e.3)).and_then(|u| accept_sync(u, limits)),
        };
        match c {
            Err(e) => *s2.up.lock().unwrap() = Some(Err(e)),
            Ok(c) => {
                *s2.up.lock().unwrap() = Some(Ok(()));
                whole(&w, me, c, s2)
            }
        }
    });
    sh.rd.lock().unwrap().node = node;
    sh.wr.lock().unwrap().node = node;
    let mut x = Run { w, sh: sh.clone(), into, out, head_out: 0, head_in: 0, masked_out: role == Role::Client, lim, desc, rst: false, peer_fin: false, clogged: false, tried: vec![], split: false, with_limits: limits.is_some(), fed: vec![] };
    // ----------------------------------------------------- the handshake
    let put = |b: &[u8]| {
        let mut g = w.lock();
        g.put(into, b);
        g.ev(usize::MAX, K::Inject, into as u64, b.len() as u64);
    };
    let mut first = vec![];
    if bring != Bring::Raw {
        if role == Role::Server {
            first.extend_from_slice(format!("GET /x HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: {}\r\n\r\n", KEY).as_bytes());
        } else {
            if !settle(w, out) {
                x.bad(&["W15"], "livelock", "no progress".into());
                return;
            }
            let sent = w.lock().dirs[out].sent.clone();
            let key = match parse_head(&sent) {
                Ok(Some(h)) if h.len == sent.len() && h.one("Sec-WebSocket-Key").is_some() => h.one("Sec-WebSocket-Key").unwrap().to_string(),
                _ => {
                    x.bad(&["W08"], "handshake", format!("no request: {:?} {:?}", String::from_utf8_lossy(&sent), sh.up.lock().unwrap()));
                    return;
                }
            };
            first.extend_from_slice(format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept_for(&key)).as_bytes());
        }
    }
    x.head_in = first.len();
    first.extend_from_slice(&script[..behind]);
    x.fed.extend_from_slice(&script[..behind]);
    let mut at = behind;
    gen::coarsen(&mut w.lock(), into, script.len() + 300);
    if !first.is_empty() {
        put(&first);
    }
    if !settle(w, out) {
        x.bad(&["W15"], "livelock", "no progress".into());
        return;
    }
    if !matches!(*sh.up.lock().unwrap(), Some(Ok(()))) {
        let p = w.lock().nodes[node].panic.clone();
        let u = sh.up.lock().unwrap().clone();
        x.bad(&["W08", "W09", "W15"], "handshake", format!("the connection did not come up: {:?} {:?}", u, p));
        return;
    }
    {
        let sent = w.lock().dirs[out].sent.clone();
        x.head_out = if bring == Bring::Raw { 0 } else { parse_head(&sent).ok().flatten().map_or(0, |h| h.len) };
    }
    // ----------------------------------------------------- the script
    let steps = 3 + w.lock().tape.choose(14);
    let mut mid = 500u32;
    let (mut rgone, mut wgone) = (false, false);
    let mut rover = false;
    for _ in 0..steps {
        let batch = 1 + w.lock().tape.weighted(&[60, 25, 15]);
        for _ in 0..batch {
            let mut g = w.lock();
            let t = &mut g.tape;
            let k = t.weighted(&[30, 26, 24, 4, 4, 4, 16, 5, 4, 3, 4]);
            let a = match k {
                0 => {
                    // the peer sends a piece
                    let left = script.len() - at;
                    let n = if left == 0 { 0 } else { match t.choose(3) { 0 => left, 1 => t.range(1, left), _ => t.range(1, left.min(12)) } };
                    if n > 0 && !x.peer_fin && !x.rst {
                        g.put(into, &script[at..at + n]);
                        g.ev(usize::MAX, K::Inject, into as u64, n as u64);
                        x.fed.extend_from_slice(&script[at..at + n]);
                        at += n;
                    }
                    None
                }
                1 => Some((true, Cmd::Recv)),
                2 => {
                    mid += 1;
                    let m = gen::message(t, mid, Sizes { big: 400, huge: false });
                    Some((false, Cmd::Send(m)))
                }
                3 => Some((true, Cmd::ShutRead)),
                4 => Some((false, Cmd::ShutWrite)),
                5 => {
                    let r = t.choose(2) == 0;
                    Some((r, Cmd::ShutAll))
                }
                6 if x.split => Some((true, Cmd::Recv)),
                6 if t.chance(450) => Some((true, Cmd::Split)),
                6 => {
                    let nb = t.choose(2) == 0;
                    Some((true, Cmd::Poll(nb)))
                }
                7 => {
                    let r = t.choose(2) == 0;
                    Some((r, Cmd::Drop))
                }
                8 => {
                    x.clogged = !x.clogged;
                    None
                }
                9 => {
                    if !x.peer_fin && !x.rst {
                        g.do_fin(into);
                        x.peer_fin = true;
                    }
                    None
                }
                _ => {
                    if t.chance(300) && !x.rst {
                        g.ev(usize::MAX, K::CutRst, into as u64, 0);
                        g.do_rst(into);
                        x.rst = true;
                    }
                    None
                }
            };
            drop(g);
            if let Some((reader, cmd)) = a {
                let waits = |p: &P| {
                    let p = p.lock().unwrap();
                    p.busy.is_some() || !p.q.is_empty()
                };
                // a connection used as a whole does one thing at a time
                if !x.split && (waits(&sh.rd) || rgone) || (if reader { rgone } else { wgone }) {
                    continue;
                }
                // nothing is received behind an error or the end
                let over = sh.log.snapshot().iter().any(|g| matches!(g, Got::Proto(_) | Got::End(_)));
                if matches!(cmd, Cmd::Recv | Cmd::Poll(_)) && (over && rover || x.split && waits(&sh.rd)) {
                    continue;
                }
                rover |= over && matches!(cmd, Cmd::Recv);
                let p = if reader || !x.split { &sh.rd } else { &sh.wr };
                if cmd == Cmd::Split {
                    drop(std::mem::replace(&mut x.clogged, false));
                    let mut g = w.lock();
                    g.kern.dup_fail = g.tape.chance(60);
                    let df = g.kern.dup_fail;
                    drop(g);
                    push(w, p, cmd);
                    if !x.step() {
                        return;
                    }
                    let r = sh.split.lock().unwrap().clone();
                    match r {
                        Some(Ok(())) if !df => x.split = true,
                        Some(Err(_)) if df => {
                            rgone = true;
                            wgone = true;
                        }
                        r => {
                            x.bad(&["W15"], "split", format!("splitting gave {:?}, the descriptor could{} be cloned", r, if df { " not" } else { "" }));
                            return;
                        }
                    }
                    continue;
                }
                match &cmd {
                    Cmd::Send(m) => x.tried.push(m.clone()),
                    Cmd::Drop => {
                        if reader || !x.split {
                            rgone = true;
                        }
                        if !reader || !x.split {
                            wgone = true;
                        }
                    }
                    _ => {}
                }
                push(w, p, cmd);
            }
        }
        if !x.step() {
            return;
        }
    }
    // ----------------------------------------------------- the end: the peer reads everything and closes
    x.clogged = false;
    if !x.step() {
        return;
    }
    if !x.peer_fin && !x.rst {
        w.lock().do_fin(into);
        x.peer_fin = true;
    }
    if !rgone {
        push(w, &sh.rd, Cmd::Drop);
    }
    if x.split && !wgone {
        push(w, &sh.wr, Cmd::Drop);
    }
    if !x.step() {
        return;
    }
    let g = w.lock();
    let left: Vec<String> = g.nodes.iter().filter(|n| n.state != NState::Done).map(|n| format!("{}: {}", n.name, n.why)).collect();
    let open = g.kern.fds.len();
    drop(g);
    if !left.is_empty() {
        x.bad(&["W15", "W13"], "hang", format!("still waiting at the end: {}", left.join("; ")));
    } else if open > 0 {
        x.bad(&[], "descriptor-leak", format!("{} descriptors are still open", open));
    }
    let _ = (Item::clone, kernel::SIMFD);
}
