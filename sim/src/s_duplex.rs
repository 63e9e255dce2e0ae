//! Scenario "duplex": a client and a server of the library talk to each other over a faulty
//! network. Every pairing of synchronous and asynchronous, whole and split endpoints.
use crate::ep::*;
use crate::exec;
use crate::gen::{self, Sizes};
use crate::refws::{expect, strict_decode, Limits, DEFAULT_LIMITS, F, M, OVERHEAD};
use crate::s_frames::check_recv;
use crate::world::{cur, Cut, DirId, Mode, SimSock, W};
use futures::{Async, AsyncSink, Future, Poll, Sink, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::borrow::Borrow;
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_codec::{Decoder, Encoder, Framed};
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs as _};
use websocket::stream::Stream;
use websocket::sync::Client;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::util::update_framed_codec;
use websocket::{Message, OwnedMessage, WebSocketError, WebSocketResult};

/// One thing an application sends.
#[derive(Clone, Debug)]
pub enum Group {
    Owned(M),
    Borrowed(M),
    Frames(Vec<F>),
    /// cannot be sent legally
    Illegal(M),
}

impl Group {
    fn frames(&self) -> Vec<F> {
        match self {
            Group::Owned(m) | Group::Borrowed(m) => vec![F { fin: true, rsv: 0, op: m.opcode(), mask: None, data: m.payload() }],
            Group::Frames(f) => f.clone(),
            Group::Illegal(_) => vec![],
        }
    }
    fn items(&self, frames_api: bool) -> usize {
        let f = self.frames();
        if frames_api || f.is_empty() {
            f.len()
        } else {
            1 + f.iter().filter(|x| x.op >= 8).count() - (f[0].op >= 8) as usize
        }
    }
}

#[derive(Default)]
pub struct SentInner {
    /// frames whose sending was started, in order
    pub tried: Vec<F>,
    /// how many of them are known to be sent
    pub ok: usize,
    pub err: Option<String>,
    pub illegal_ok: Option<String>,
}
pub type Sent = Arc<Mutex<SentInner>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Whole,
    Split,
}

#[derive(Clone)]
struct Side {
    cfg: Cfg,
    kind: Kind,
    /// whole synchronous endpoints follow the plan up to this index, then split
    split_at: usize,
    mode: Mode,
    log: Log,
    sent: Sent,
}

type Plan = Arc<Vec<(Role, Group)>>;

/// Something synchronous to send with.
trait Tx {
    fn frame(&mut self, f: &DataFrame) -> WebSocketResult<()>;
    fn owned(&mut self, m: &OwnedMessage) -> WebSocketResult<()>;
    fn borrowed(&mut self, m: &Message) -> WebSocketResult<()>;
}
impl<S: Stream> Tx for Client<S> {
    fn frame(&mut self, f: &DataFrame) -> WebSocketResult<()> {
        self.send_dataframe(f)
    }
    fn owned(&mut self, m: &OwnedMessage) -> WebSocketResult<()> {
        self.send_message(m)
    }
    fn borrowed(&mut self, m: &Message) -> WebSocketResult<()> {
        self.send_message(m)
    }
}
impl<S: Write> Tx for websocket::sender::Writer<S> {
    fn frame(&mut self, f: &DataFrame) -> WebSocketResult<()> {
        self.send_dataframe(f)
    }
    fn owned(&mut self, m: &OwnedMessage) -> WebSocketResult<()> {
        self.send_message(m)
    }
    fn borrowed(&mut self, m: &Message) -> WebSocketResult<()> {
        self.send_message(m)
    }
}

fn send_group<T: Tx>(tx: &mut T, g: &Group, sent: &Sent) {
    if sent.lock().unwrap().err.is_some() {
        return;
    }
    let start = |f: F| sent.lock().unwrap().tried.push(f);
    let end = |r: WebSocketResult<()>| {
        let mut s = sent.lock().unwrap();
        match r {
            Ok(()) => {
                s.ok += 1;
                true
            }
            Err(e) => {
                s.err = Some(format!("{:?}", e));
                false
            }
        }
    };
    match g {
        Group::Owned(m) => {
            start(g.frames().remove(0));
            end(tx.owned(&to_owned(m)));
        }
        Group::Borrowed(m) => {
            start(g.frames().remove(0));
            end(tx.borrowed(&to_borrowed(m)));
        }
        Group::Frames(fs) => {
            for f in fs {
                start(f.clone());
                if !end(tx.frame(&to_df(f))) {
                    return;
                }
            }
        }
        Group::Illegal(m) => {
            if tx.owned(&to_owned(m)).is_ok() {
                sent.lock().unwrap().illegal_ok = Some(m.short());
            }
        }
    }
}

/// Follows the plan on a connection used as a whole. False when the connection is finished.
fn follow<S: Stream>(c: &mut Client<S>, s: &Side, plan: &[(Role, Group)], wait: &Wait) -> bool {
    for (who, g) in plan {
        if *who == s.cfg.role {
            send_group(c, g, &s.sent);
            continue;
        }
        let mut n = g.items(s.cfg.api.frames());
        while n > 0 {
            let before = s.log.0.lock().unwrap().got.len();
            let go_on = match s.cfg.api {
                Api::Frame | Api::SplitFrame => rec(c.recv_dataframe(), |x| Got::Frame(to_f(x)), &s.log, wait),
                Api::FrameIter | Api::SplitFrameIter => rec(c.incoming_dataframes().next().unwrap(), |x| Got::Frame(to_f(x)), &s.log, wait),
                Api::Msg | Api::SplitMsg => rec(c.recv_message(), |x| Got::Msg(to_m(x)), &s.log, wait),
                _ => rec(c.incoming_messages().next().unwrap(), |x| Got::Msg(to_m(x)), &s.log, wait),
            };
            if !go_on {
                return false;
            }
            n -= s.log.0.lock().unwrap().got.len() - before;
        }
    }
    true
}

fn node(conn: Conn, s: Side, plan: Plan) {
    let wait = conn.wait();
    match conn {
        Conn::Sim(c) if s.cfg.up.is_async() => {
            c.set_mode(Mode::Async);
            async_node(c, s, plan, wait.w)
        }
        Conn::Pair(c) if s.cfg.up.is_async() => {
            c.set_mode(Mode::Async);
            async_node(rw_pair(c), s, plan, wait.w)
        }
        Conn::Fd(fd, ..) if s.cfg.up.is_async() => exec::with_reactor(|| async_node(tokio_tcp(fd), s, plan, wait.w)),
        Conn::Sim(c) => sync_node(c, s, plan, wait),
        Conn::Pair(c) => sync_node(rw_pair(c), s, plan, wait),
        Conn::Fd(fd, ..) => sync_node(Conn::tcp(fd), s, plan, wait),
    }
}

fn sync_node<S: Sock>(sock: S, s: Side, plan: Plan, wait: Wait)
where
    S::Writer: Send,
{
    let w = wait.w.clone();
    let c = match (s.cfg.role, s.cfg.up) {
        (Role::Client, Up::SyncHs) => client_builder(s.cfg.limits).connect_on(sock).map_err(|e| format!("{:?}", e)),
        (Role::Server, Up::SyncHs) | (Role::Server, Up::Pair) => sync_server_up(sock, s.cfg.up, s.cfg.limits),
        (Role::Server, Up::Hyper) => {
            return hyper_up(sock, s.cfg.limits, &s.log, |k, c| {
                k.reads(s.mode);
                s.log.push(Got::Up);
                if follow(c, &s, &plan, &wait) {
                    drain(c, s.cfg.api, &wait, &s.log);
                }
            })
        }
        (role, _) => {
            let br = BufReader::new(sock);
            let (o, i) = (role == Role::Client, role == Role::Server);
            Ok(match s.cfg.limits {
                Some((f, m)) => Client::unchecked_with_limits(br, Headers::new(), o, i, f, m),
                None => Client::unchecked(br, Headers::new(), o, i),
            })
        }
    };
    let mut c = match c {
        Ok(c) => c,
        Err(e) => return s.log.push(Got::HsErr(e)),
    };
    c.stream_ref().reads(s.mode);
    s.log.push(Got::Up);
    if s.kind == Kind::Whole {
        if follow(&mut c, &s, &plan, &wait) {
            drain(&mut c, s.cfg.api, &wait, &s.log);
        }
        return;
    }
    if !follow(&mut c, &s, &plan[..s.split_at], &wait) {
        return;
    }
    let (mut r, mut wr) = match c.split() {
        Ok(x) => x,
        Err(e) => return s.log.push(Got::End(format!("split failed: {}", e))),
    };
    let (sent, role, at, p2) = (s.sent.clone(), s.cfg.role, s.split_at, plan.clone());
    w.spawn("writer half", move || {
        for (who, g) in &p2[at..] {
            if *who == role {
                send_group(&mut wr, g, &sent);
            }
        }
        // keep the half until the run is over: dropping it would end the stream
        KEEP.with(|k| k.borrow_mut().push(Box::new(wr)));
        hold();
    });
    drain_reader(&mut r, s.cfg.api, &wait, &s.log);
}

thread_local! {
    static KEEP: std::cell::RefCell<Vec<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn hold() {
    KEEP.with(|k| k.borrow_mut().clear());
}

// ------------------------------------------------------------------ asynchronous endpoints

pub struct DfItem(pub DataFrame);
impl Borrow<dyn DataFrameTrait> for DfItem {
    fn borrow(&self) -> &(dyn DataFrameTrait + 'static) {
        &self.0
    }
}

pub struct Out<T> {
    pub items: VecDeque<(T, Vec<F>, bool)>,
    pub sent: Sent,
    pub dirty: bool,
    pub dead: bool,
    /// the end of the output is made by closing the sink, not by flushing it
    pub close: bool,
}

impl<T> Out<T> {
    /// Offers items to the sink; true if anything moved.
    fn pump<K: Sink<SinkItem = T, SinkError = WebSocketError>>(&mut self, sink: &mut K, flush_each: bool) -> bool {
        let mut moved = false;
        while !self.dead {
            if let Some((x, fs, illegal)) = self.items.pop_front() {
                let n = fs.len();
                self.sent.lock().unwrap().tried.extend(fs.iter().cloned());
                match sink.start_send(x) {
                    Ok(AsyncSink::Ready) => {
                        moved = true;
                        self.dirty = true;
                        if illegal {
                            self.sent.lock().unwrap().illegal_ok = Some("control message over 125 bytes".into());
                        }
                        if flush_each {
                            match sink.poll_complete() {
                                Ok(Async::Ready(())) => {
                                    let mut s = self.sent.lock().unwrap();
                                    s.ok = s.tried.len();
                                    self.dirty = false
                                }
                                Ok(Async::NotReady) => {}
                                Err(e) => self.fail(e),
                            }
                        }
                    }
                    Ok(AsyncSink::NotReady(x)) => {
                        let mut s = self.sent.lock().unwrap();
                        let l = s.tried.len();
                        s.tried.truncate(l - n);
                        drop(s);
                        self.items.push_front((x, fs, illegal));
                        break;
                    }
                    Err(e) => {
                        if !illegal {
                            self.fail(e)
                        } else if !matches!(e, WebSocketError::DataFrameError(_) | WebSocketError::ProtocolError(_)) {
                            // the transport failed while room was being made
                            self.fail(e)
                        }
                    }
                }
            } else if self.dirty {
                let r = if self.close { sink.close() } else { sink.poll_complete() };
                match r {
                    Ok(Async::Ready(())) => {
                        let mut s = self.sent.lock().unwrap();
                        s.ok = s.tried.len();
                        self.dirty = false;
                        moved = true;
                    }
                    Ok(Async::NotReady) => break,
                    Err(e) => self.fail(e),
                }
            } else {
                break;
            }
        }
        moved
    }
    fn fail(&mut self, e: WebSocketError) {
        self.sent.lock().unwrap().err = Some(format!("{:?}", e));
        self.dead = true;
    }
}

/// One task that reads and writes the same connection.
struct Both<K, T, C> {
    c: K,
    out: Out<T>,
    conv: C,
    log: Log,
    w: W,
}
impl<K, T, C> Future for Both<K, T, C>
where
    K: futures::Stream<Error = WebSocketError> + Sink<SinkItem = T, SinkError = WebSocketError>,
    C: Fn(<K as futures::Stream>::Item) -> Got,
{
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        loop {
            let (first, each) = {
                let mut g = self.w.lock();
                (g.tape.choose(2), g.tape.choose(2) == 0)
            };
            let mut moved = false;
            if first == 0 {
                moved |= self.out.pump(&mut self.c, each);
            }
            match self.c.poll() {
                Ok(Async::Ready(Some(x))) => {
                    self.log.push((self.conv)(x));
                    moved = true;
                }
                Ok(Async::Ready(None)) => {
                    self.log.push(Got::End("stream ended".into()));
                    return Ok(Async::Ready(()));
                }
                Ok(Async::NotReady) => {}
                Err(e) => {
                    match classify(&e) {
                        Cls::Proto(s) => self.log.push(Got::Proto(s)),
                        Cls::End(s) => self.log.push(Got::End(s)),
                        Cls::Retry => self.log.push(Got::End("would-block surfaced".into())),
                    }
                    return Ok(Async::Ready(()));
                }
            }
            if first == 1 {
                moved |= self.out.pump(&mut self.c, each);
            }
            if !moved {
                return Ok(Async::NotReady);
            }
        }
    }
}

/// The sending half as a task of its own; it keeps the half until the end of the run.
pub struct SendTask<K, T> {
    pub c: K,
    pub out: Out<T>,
    pub each: bool,
}
impl<K, T> Future for SendTask<K, T>
where
    K: Sink<SinkItem = T, SinkError = WebSocketError>,
{
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        self.out.pump(&mut self.c, self.each);
        if self.out.dead || self.out.items.is_empty() && !self.out.dirty {
            Ok(Async::Ready(()))
        } else {
            Ok(Async::NotReady)
        }
    }
}

fn drive<K, C, T, I, V>(c: Framed<K, C>, s: &Side, items: VecDeque<(T, Vec<F>, bool)>, conv: V, w: W)
where
    K: ASock,
    C: Decoder<Item = I, Error = WebSocketError> + Encoder<Item = T, Error = WebSocketError> + Send + 'static,
    T: Send + 'static,
    I: 'static,
    V: Fn(I) -> Got + Send + 'static,
{
    let out = Out { items, sent: s.sent.clone(), dirty: false, dead: false, close: false };
    let each = w.lock().tape.choose(2) == 0;
    if s.kind == Kind::Whole {
        exec::run_tasks(vec![Box::new(Both { c, out, conv, log: s.log.clone(), w })]);
    } else {
        let (sink, st) = c.split();
        exec::run_tasks(vec![
            Box::new(SendTask { c: sink, out, each }),
            Box::new(Drain { st: Some(st), conv, log: s.log.clone() }.map(|_| ())),
        ]);
    }
}

fn async_node<K: ASock>(sock: K, s: Side, plan: Plan, w: W) {
    let c = match exec::block_on(async_up(sock, s.cfg.role, s.cfg.up, s.cfg.limits)) {
        Ok(c) => c,
        Err(e) => return s.log.push(Got::HsErr(e)),
    };
    s.log.push(Got::Up);
    let ctx = || if s.cfg.role == Role::Server { Context::Server } else { Context::Client };
    let mine: Vec<&Group> = plan.iter().filter(|(r, _)| *r == s.cfg.role).map(|(_, g)| g).collect();
    if s.cfg.api.frames() {
        let codec: DataFrameCodec<DfItem> = match s.cfg.limits {
            Some((f, _)) => DataFrameCodec::new_with_limits(ctx(), f),
            None => DataFrameCodec::new(ctx()),
        };
        let items = mine.iter().flat_map(|g| match g {
            Group::Illegal(m) => vec![(DfItem(DataFrame::new(true, websocket::dataframe::Opcode::new(m.opcode()).unwrap(), m.payload())), vec![], true)],
            g => g.frames().into_iter().map(|f| (DfItem(to_df(&f)), vec![f], false)).collect(),
        }).collect();
        drive(update_framed_codec(c, codec), &s, items, |x| Got::Frame(to_f(x)), w);
    } else if s.cfg.api == Api::MsgIter {
        // the borrowed message type through the asynchronous codec
        let codec: MessageCodec<Message<'static>> = match s.cfg.limits {
            Some((f, m)) => MessageCodec::new_with_limits(ctx(), f, m),
            None => MessageCodec::new(ctx()),
        };
        let items = mine.iter().map(|g| (Message::from(to_owned(&group_msg(g))), g.frames(), matches!(g, Group::Illegal(_)))).collect();
        drive(update_framed_codec(c, codec), &s, items, |x| Got::Msg(to_m(x)), w);
    } else {
        let items = mine.iter().map(|g| (to_owned(&group_msg(g)), g.frames(), matches!(g, Group::Illegal(_)))).collect();
        drive(c, &s, items, |x| Got::Msg(to_m(x)), w);
    }
}

fn group_msg(g: &Group) -> M {
    match g {
        Group::Owned(m) | Group::Borrowed(m) | Group::Illegal(m) => m.clone(),
        Group::Frames(_) => unreachable!("message codecs send whole messages"),
    }
}

// ------------------------------------------------------------------ the scenario

fn head_end(b: &[u8]) -> Option<usize> {
    b.windows(4).position(|x| x == b"\r\n\r\n").map(|p| p + 4)
}

pub fn duplex(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let t = &mut g.tape;
    // ------------------------------------------------------------- the two endpoints
    let raw = t.chance(250);
    let mut sides = vec![];
    for role in [Role::Client, Role::Server] {
        let is_async = t.choose(2) == 1;
        let up = match (raw, is_async) {
            (true, false) => Up::SyncRaw,
            (true, true) => Up::AsyncRaw,
            (false, true) => Up::AsyncHs,
            (false, false) if role == Role::Client => Up::SyncHs,
            _ => *t.pick(&[Up::SyncHs, Up::Pair, Up::Hyper]),
        };
        let kind = if t.chance(if id == "W16" { 900 } else { 500 }) && up != Up::Hyper { Kind::Split } else { Kind::Whole };
        let api = *t.pick(&[Api::Msg, Api::MsgIter, Api::Msg, Api::Frame, Api::FrameIter]);
        sides.push((Cfg { role, up, api, limits: None }, kind));
    }
    // ------------------------------------------------------------- what they say to each other
    let n = 1 + t.choose(10) as usize;
    let big = *t.pick(&[200, 200, 3000]);
    let sizes = Sizes { big, huge: t.chance(60) };
    let many = gen::many(t);
    let (n, sizes) = match many {
        Some(k) => (k, Sizes { big: 20, huge: false }),
        None => (n, sizes),
    };
    let ill = if id == "W12" { 250 } else { 60 };
    let mut plan = vec![];
    let mut next = 0u32;
    let mut giant = if many.is_some() { None } else { gen::giant(t) };
    for _ in 0..n {
        let i = t.choose(2) as usize;
        let (cfg, _) = &sides[i];
        next += 1;
        let m = if n > 60_000 { M::Binary(next.to_be_bytes().to_vec()) } else { gen::message(t, next, sizes) };
        let m = giant.take().unwrap_or(m);
        let msg_only = cfg.up.is_async() && !cfg.api.frames();
        let grp = if t.chance(ill) {
            let k = t.range(126, 300);
            let l = *t.pick(&[126usize, 127, 70_000]);
            let l = if t.choose(2) == 0 { k } else { l };
            Group::Illegal(match t.choose(3) {
                0 => M::Ping(gen::pattern(next, l)),
                1 => M::Pong(gen::pattern(next, l)),
                _ => M::Close(Some((1000, gen::text(next, l - 2)))),
            })
        } else if msg_only {
            Group::Owned(m)
        } else {
            match t.choose(3) {
                0 => Group::Owned(m),
                1 => Group::Borrowed(m),
                _ => {
                    let mut fs = vec![];
                    let cp = if id == "W04" { 500 } else { 200 };
                    gen::fragments(t, &m, false, &mut next, 900, cp, &mut fs);
                    Group::Frames(fs)
                }
            }
        };
        plan.push((sides[i].0.role, grp));
    }
    let splits: Vec<usize> = sides
        .iter()
        .map(|(c, k)| if *k == Kind::Split && !c.up.is_async() && t.chance(600) { t.range(0, plan.len()) } else { 0 })
        .collect();
    // limits that the traffic just keeps
    for i in 0..2 {
        if t.chance(if id == "W07" { 900 } else { 100 }) {
            let other = sides[1 - i].0.role;
            let mut maxf = 0;
            let mut maxm = 0;
            for (r, gr) in &plan {
                if *r == other {
                    let mut acc = 0;
                    for f in gr.frames() {
                        maxf = maxf.max(f.data.len());
                        if f.op < 8 && !f.fin {
                            acc += f.data.len() + OVERHEAD as usize;
                        }
                    }
                    maxm = maxm.max(acc);
                }
            }
            sides[i].0.limits = Some((maxf + t.choose(2) as usize, maxm + 1 + t.choose(2) as usize));
        }
    }
    // ------------------------------------------------------------- the network
    let (up, down) = g.new_conn();
    let into = [down, up];
    // over the simulator's stream type, or over a TcpStream whose system calls the simulator answers
    let tcp = [0, 1].map(|_| g.tape.chance(450));
    let total: [usize; 2] = [0, 1].map(|i| {
        let me = sides[i].0.role;
        plan.iter().filter(|(r, _)| *r != me).flat_map(|(_, g)| g.frames()).map(|f| f.data.len() + 14).sum()
    });
    let mut modes = [Mode::Blocking, Mode::Blocking];
    for i in 0..2 {
        let (cfg, kind) = &sides[i];
        let d = into[i];
        gen::net(&mut g, d);
        gen::coarsen(&mut g, d, total[i] + 400);
        // a reader that reads whatever it is doing otherwise allows for back-pressure
        let free = cfg.up.is_async() || *kind == Kind::Split && splits[i] == 0;
        if free && g.tape.chance(600) {
            let c = *g.tape.pick(&[1usize, 5, 60, 600, 20_000]);
            g.dirs[d].cap = c.max(total[i] / 300);
        }
        if cfg.up.is_async() && tcp[i] {
        } else if cfg.up.is_async() {
            let p = *g.tape.pick(&[0, 100, 400]);
            g.dirs[d].spurious_r = p;
            let o = into[1 - i];
            let p = *g.tape.pick(&[0, 100, 400]);
            g.dirs[o].spurious_w = p;
        } else {
            if g.tape.chance(if id == "W03" { 900 } else { 250 }) {
                modes[i] = Mode::Fail(*g.tape.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut]));
                let p = *g.tape.pick(&[0, 100, 300]);
                g.dirs[d].spurious_r = p;
            }
            let o = into[1 - i];
            let p = *g.tape.pick(&[0, 100, 300]);
            g.dirs[o].eintr_w = p;
        }
    }
    for i in 0..2 {
        // a nonblocking socket that cannot take a whole frame leaves the rest unsent
        if tcp[i] && modes[i] == Mode::Fail(ErrorKind::WouldBlock) && g.dirs[into[1 - i]].cap != usize::MAX {
            modes[i] = Mode::Fail(ErrorKind::TimedOut);
        }
    }
    let mut cut = false;
    for i in 0..2 {
        let p = match id { "W13" => 500, "W01" => 200, "W06" | "W20" | "W16" => 50, _ => 100 };
        if g.tape.chance(p) {
            gen::cut(&mut g, into[i], total[i] + if raw { 0 } else { 160 });
            cut = true;
        }
    }
    let desc = format!(
        "duplex: tcp {:?} client {} {:?} split_at={} / server {} {:?} split_at={}; {} groups; caps {:?}/{:?}; net {:?}/{:?}; cuts {:?}/{:?}",
        tcp, sides[0].0.desc(), sides[0].1, splits[0], sides[1].0.desc(), sides[1].1, splits[1], plan.len(),
        g.dirs[into[0]].cap, g.dirs[into[1]].cap, g.dirs[into[0]].deliver, g.dirs[into[1]].deliver, g.dirs[into[0]].cut, g.dirs[into[1]].cut
    );
    g.describe(desc);
    if g.keep_trace {
        for (r, gr) in &plan {
            let s = format!("plan: {:?} sends {} {}", r, match gr { Group::Owned(_) => "owned", Group::Borrowed(_) => "borrowed", Group::Frames(_) => "frames", Group::Illegal(_) => "illegal" },
                if let Group::Illegal(m) = gr { m.short() } else { gr.frames().iter().map(|f| f.short()).collect::<Vec<_>>().join(" + ") });
            g.note(s);
        }
    }
    g.nontrivial = plan.len() > 1;
    if let Some(k) = many {
        g.max_steps = 40_000_000;
        g.probe("long_connection");
        g.probe_max("messages_max", k as u64);
    }
    let frag = plan.iter().any(|(_, g)| matches!(g, Group::Frames(_)));
    let illegal = plan.iter().any(|(_, g)| matches!(g, Group::Illegal(_)));
    let conns = [0, 1].map(|i| Conn::any(&mut g, w, into[i], into[1 - i], tcp[i]));
    drop(g);
    // ------------------------------------------------------------- run
    let plan: Plan = Arc::new(plan);
    let mut st = vec![];
    for (i, conn) in conns.into_iter().enumerate() {
        let s = Side { cfg: sides[i].0.clone(), kind: sides[i].1, split_at: splits[i], mode: modes[i], log: Log::default(), sent: Sent::default() };
        st.push(s.clone());
        let p = plan.clone();
        let name = if i == 0 { "client" } else { "server" };
        w.spawn(name, move || node(conn, s, p));
    }
    let mut base: Vec<&'static str> = vec!["W01"];
    if st.iter().any(|s| s.kind == Kind::Split) {
        base.push("W16");
    }
    if frag {
        base.push("W04");
    }
    if st.iter().any(|s| matches!(s.mode, Mode::Fail(_))) {
        base.push("W03");
    }
    if !raw {
        base.push("W10");
    }
    let ok = w.run();
    if ok {
        check(w, &st, &into, raw, cut, illegal, &base, false, &plan);
        if w.lock().viols.is_empty() {
            let mut g = w.lock();
            for i in 0..2 {
                g.do_fin(into[i]);
            }
            drop(g);
            if w.run() {
                check(w, &st, &into, raw, cut, illegal, &base, true, &plan);
            }
        }
    }
    let mut g = w.lock();
    let pan: Vec<(String, String)> = g.nodes.iter().filter_map(|n| n.panic.clone().map(|p| (n.name.clone(), p))).collect();
    for (n, p) in pan {
        g.viol(&["W14", "W01", "W12", "W13", "W16"], "panic", format!("{} panicked: {}", n, p));
    }
    if g.stuck {
        let s = g.steps;
        let mut t = base.clone();
        t.extend(["W15", "W12", "W13"]);
        g.viol(&t, "livelock", format!("no progress after {} steps", s));
    }
}

fn check(w: &W, st: &[Side], into: &[DirId; 2], raw: bool, cut: bool, illegal: bool, base: &[&'static str], last: bool, plan: &Plan) {
    let mut g = w.lock();
    if !g.viols.is_empty() || g.stuck {
        return;
    }
    if g.nodes.iter().any(|n| n.panic.is_some()) {
        return;
    }
    let with = |x: &[&'static str]| -> Vec<&'static str> { base.iter().chain(x).copied().collect() };
    let cut_or = |x: &[&'static str]| -> Vec<&'static str> { if cut { with(&[x, &["W13"]].concat()) } else { with(x) } };
    for i in 0..2 {
        let me = &st[i];
        let peer = &st[1 - i];
        let d = into[i];
        let bytes = g.dirs[d].sent.clone();
        let head = if raw { Some(0) } else { head_end(&bytes) };
        let delivered = g.dirs[d].delivered as usize;
        let closed = g.dirs[d].eof || g.dirs[d].rst;
        let reset = g.dirs[d].rst || g.dirs[into[1 - i]].rst;
        let got = me.log.snapshot();
        let who = format!("{} {:?}", me.cfg.desc(), me.kind);
        // ------------------------------------------------- the handshake
        match got.first() {
            Some(Got::HsErr(e)) => {
                if !cut {
                    g.viol(&with(&["W08", "W09", "W15"]), "handshake", format!("handshake failed without a fault: {} [{}]", e, who));
                }
                continue;
            }
            None => {
                if !cut || last {
                    g.viol(&cut_or(&["W08", "W09", "W15"]), "handshake", format!("handshake did not finish [{}]", who));
                }
                continue;
            }
            Some(Got::Up) => {
                if head.map_or(true, |h| h > delivered) {
                    g.viol(&cut_or(&["W08", "W09"]), "handshake", format!("handshake finished before the peer's head had arrived [{}]", who));
                    continue;
                }
            }
            Some(x) => {
                g.viol(&with(&[]), "handshake", format!("unexpected {} [{}]", x.short(), who));
                continue;
            }
        }
        let head = head.unwrap();
        let wire = &bytes[head.min(bytes.len())..];
        // ------------------------------------------------- what the peer put on the wire
        let sent = peer.sent.lock().unwrap();
        let masked = peer.cfg.role == Role::Client;
        let whop = format!("{} {:?}", peer.cfg.desc(), peer.kind);
        match strict_decode(wire, masked) {
            Err(e) => {
                let t = if e.contains("mask") { with(&["W06", "W20", "W12"]) } else { with(&["W20", "W12"]) };
                g.viol(&t, "wire", format!("malformed output: {} [{}]", e, whop));
                continue;
            }
            Ok((fs, left)) => {
                for (k, (f, _)) in fs.iter().enumerate() {
                    let want = sent.tried.get(k);
                    let same = want.map_or(false, |x| x.fin == f.fin && x.op == f.op && x.rsv == f.rsv && x.data == f.data);
                    if !same {
                        let s = want.map_or("nothing".to_string(), |x| x.short());
                        g.viol(&with(&["W20", "W12", "W06"]), "wire", format!("frame {} on the wire is {}, sent was {} [{}]", k, f.short(), s, whop));
                        return;
                    }
                }
                if fs.len() < sent.ok {
                    g.viol(&with(&["W20", "W12", "W15"]), "wire", format!("{} frames were sent successfully, {} are on the wire [{}]", sent.ok, fs.len(), whop));
                    return;
                }
                if left > 0 && fs.len() >= sent.tried.len() {
                    g.viol(&with(&["W20", "W12"]), "wire", format!("{} stray bytes after the last frame [{}]", left, whop));
                    return;
                }
                if !cut && !last {
                    if let Some(e) = &sent.err {
                        let e = e.clone();
                        g.viol(&with(&["W12"]), "send-error", format!("sending failed without a fault: {} [{}]", e, whop));
                        return;
                    }
                    let due: usize = fs.len();
                    if sent.ok < due || due < sent.tried.len() {
                        g.viol(&with(&["W15", "W12"]), "stalled-send", format!("{} frames offered, {} on the wire, {} reported sent, nothing more happens [{}]", sent.tried.len(), due, sent.ok, whop));
                        return;
                    }
                }
            }
        }
        if let Some(m) = &sent.illegal_ok {
            let m = m.clone();
            g.viol(&["W12", "W20"], "illegal-sent", format!("{} was accepted for sending [{}]", m, whop));
        }
        // ------------------------------------------------- what the application received
        let lim = match me.cfg.limits {
            Some((f, m)) => Limits { frame: f as u64, msg: m as u64 },
            None => DEFAULT_LIMITS,
        };
        let exp = expect(wire, masked, lim, me.cfg.api.frames());
        // when every message was sent, every message must be there
        let avail = delivered.saturating_sub(head);
        if let Err((class, msg)) = check_recv(&exp, &got[1..], avail, closed, reset) {
            let mut t = cut_or(&["W02"]);
            if me.cfg.limits.is_some() {
                t.push("W07");
            }
            if illegal {
                t.push("W12");
            }
            if ["missing", "hang"].contains(&class) {
                t.extend(["W15", "W13"]);
            }
            if ["false-error", "error-instead-of-item"].contains(&class) {
                t.push("W05");
            }
            let tail: Vec<String> = got.iter().rev().take(3).rev().map(|x| x.short()).collect();
            g.viol(&t, class, format!("{} [{} <- {}]; last reported: {}", msg, who, whop, tail.join(", ")));
            return;
        }
    }
    // every message of the plan was offered
    if !cut && !last {
        for s in st {
            let n = s.sent.lock().unwrap().tried.len();
            g.probe_max("frames_sent_max", n as u64);
            let want: usize = plan.iter().filter(|(r, _)| *r == s.cfg.role).map(|(_, g)| g.frames().len()).sum();
            if n != want {
                g.viol(&with(&["W15", "W12"]), "stalled", format!("{} of {} frames were offered for sending and nothing more happens [{} {:?}]", n, want, s.cfg.desc(), s.kind));
                return;
            }
        }
    }
    if last && g.nodes.iter().any(|n| n.state != crate::world::NState::Done) {
        let s: Vec<String> = g.nodes.iter().filter(|n| n.state != crate::world::NState::Done).map(|n| format!("{}: {}", n.name, n.why)).collect();
        g.viol(&with(&["W13", "W15"]), "hang", format!("still waiting after both streams ended: {}", s.join("; ")));
    }
}

#[allow(dead_code)]
fn _u(_: Cut, _: &mut dyn Read) -> Option<(W, usize)> {
    cur()
}
