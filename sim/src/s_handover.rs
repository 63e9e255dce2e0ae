//! Scenario "handover": one connection changes hands again and again. A node receives and sends
//! over it and in between, at points where nothing is half done, takes it apart and goes on in
//! another form: the synchronous client as it is, rebuilt from its stream and buffer, read and
//! written behind its back, split into halves; asynchronous message and data frame codecs, with
//! unsent bytes in their buffers. A raw peer judges what it gets and knows what it said.
use crate::ep::*;
use crate::exec;
use crate::gen::{self, Sizes};
use crate::refws::{expect, parse_head, strict_decode, Item, DEFAULT_LIMITS, F, M};
use crate::s_duplex::DfItem;
use crate::s_frames::{check_recv, handshake};
use crate::s_relay::Parts;
use crate::world::{DirId, Mode, SimSock, K, W};
use bytes::BytesMut;
use futures::{Async, AsyncSink, Future, Poll, Sink, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{ErrorKind, Write};
use std::net::TcpStream;
use std::sync::{Arc, Mutex};
use tokio_codec::{Decoder, Framed, FramedParts};
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::receiver::Reader;
use websocket::sender::Writer;
use websocket::stream::sync::Splittable;
use websocket::sync::Client;
use websocket::ws::util::update_framed_codec;
use websocket::ws::Message as _;
use websocket::{Message, OwnedMessage, WebSocketError};

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Plain,
    Iter,
    Frame,
    FrameIter,
    /// past the client, from its stream
    Raw,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum To {
    Whole,
    Split,
    Owned,
    Borrowed,
    Frames,
}

#[derive(Clone, Debug)]
enum Op {
    /// nonblocking reads; split in the middle of it
    Recv { how: How, nb: bool, split: bool },
    Send { m: M, how: How, flush: bool },
    Change(To),
}

impl Op {
    fn short(&self) -> String {
        match self {
            Op::Recv { how, nb, split } => format!("recv-{:?}{}{}", how, if *nb { "-nb" } else { "" }, if *split { "-split" } else { "" }),
            Op::Send { m, how, flush } => format!("send-{:?}{} {}", how, if *flush { "" } else { "-unflushed" }, m.short()),
            Op::Change(t) => format!("to-{:?}", t),
        }
    }
}

/// A synchronous stream that may become an asynchronous one, and back.
trait Hand: Sock
where
    Self::Writer: Send,
{
    type A: ASock;
    const CONVERTS: bool;
    fn to_async(self) -> Self::A;
    fn to_sync(a: Self::A) -> Self;
    fn nonblocking(c: &Client<Self>, on: bool);
}
impl Hand for SimSock {
    type A = SimSock;
    const CONVERTS: bool = true;
    fn to_async(self) -> SimSock {
        self.set_mode(Mode::Async);
        self
    }
    fn to_sync(a: SimSock) -> SimSock {
        a.set_mode(Mode::Blocking);
        a
    }
    fn nonblocking(c: &Client<SimSock>, on: bool) {
        c.stream_ref().set_mode(if on { Mode::Fail(ErrorKind::WouldBlock) } else { Mode::Blocking });
    }
}
impl Hand for TcpStream {
    type A = tokio_tcp::TcpStream;
    const CONVERTS: bool = false;
    fn to_async(self) -> tokio_tcp::TcpStream {
        unreachable!()
    }
    fn to_sync(_: tokio_tcp::TcpStream) -> TcpStream {
        unreachable!()
    }
    fn nonblocking(c: &Client<TcpStream>, on: bool) {
        c.set_nonblocking(on).expect("set_nonblocking");
    }
}

enum Form<S: Hand>
where
    S::Writer: Send,
{
    Whole(Client<S>),
    Split(Reader<<S as Splittable>::Reader>, Writer<<S as Splittable>::Writer>),
    Owned(AClient<S::A>),
    Borrowed(Framed<S::A, MessageCodec<Message<'static>>>),
    Frames(Framed<S::A, DataFrameCodec<DfItem>>),
}

struct Put<T, C: tokio_codec::Encoder> {
    f: Option<Framed<T, C>>,
    item: Option<C::Item>,
    flush: bool,
}
impl<T: ASock, C: tokio_codec::Encoder<Error = WebSocketError>> Future for Put<T, C> {
    type Item = Framed<T, C>;
    type Error = WebSocketError;
    fn poll(&mut self) -> Poll<Self::Item, WebSocketError> {
        let f = self.f.as_mut().unwrap();
        if let Some(i) = self.item.take() {
            if let AsyncSink::NotReady(i) = f.start_send(i)? {
                self.item = Some(i);
                return Ok(Async::NotReady);
            }
        }
        if self.flush {
            futures::try_ready!(f.poll_complete());
        }
        Ok(Async::Ready(self.f.take().unwrap()))
    }
}

fn put<T: ASock, C>(f: Framed<T, C>, item: Option<C::Item>, flush: bool) -> Result<Framed<T, C>, WebSocketError>
where
    C: tokio_codec::Encoder<Error = WebSocketError> + Send + 'static,
    C::Item: Send + 'static,
{
    exec::block_on(Put { f: Some(f), item, flush })
}

fn next<T: ASock, C>(f: Framed<T, C>) -> (Result<Option<C::Item>, WebSocketError>, Framed<T, C>)
where
    C: Decoder<Error = WebSocketError> + Send + 'static,
    C::Item: Send + 'static,
{
    match exec::block_on(f.into_future()) {
        Ok((x, f)) => (Ok(x), f),
        Err((e, f)) => (Err(e), f),
    }
}

#[derive(Default)]
struct Said {
    /// messages handed over to the library without an error
    accepted: Vec<M>,
    /// one that failed
    failed: Option<(M, String)>,
    flushed: bool,
}

struct Node<S: Hand>
where
    S::Writer: Send,
{
    form: Option<Form<S>>,
    role: Role,
    parts: Parts,
    /// no fragments of a message in the library's hands
    safe: bool,
    ended: bool,
    log: Log,
    wait: Wait,
    said: Arc<Mutex<Said>>,
}

enum Unit {
    Msg(OwnedMessage),
    Frame(DataFrame),
}

impl<S: Hand> Node<S>
where
    S::Writer: Send,
{
    fn ctx(&self) -> Context {
        if self.role == Role::Server { Context::Server } else { Context::Client }
    }
    fn end(&mut self, e: Option<&WebSocketError>) {
        self.ended = true;
        self.log.push(match e.map(classify) {
            None => Got::End("stream ended".into()),
            Some(Cls::Proto(s)) => Got::Proto(s),
            Some(Cls::End(s)) => Got::End(s),
            Some(Cls::Retry) => Got::End("would-block surfaced".into()),
        });
    }
    /// Receives one message, or finds the end.
    fn recv(&mut self, how: How, nb: bool, mut split: bool) {
        let mask = self.role == Role::Server;
        let mut n = 0;
        while !self.ended {
            n += 1;
            let frames = match how {
                How::Frame | How::FrameIter | How::Raw => self.safe,
                _ => !self.parts.0.is_empty(),
            };
            let form = self.form.take().unwrap();
            let (r, form): (Result<Option<Unit>, WebSocketError>, Form<S>) = match form {
                Form::Whole(mut c) => {
                    // reading past the client keeps nothing between calls: it blocks
                    let nb = nb && !(frames && how == How::Raw);
                    if nb {
                        S::nonblocking(&c, true);
                    }
                    let r = match (frames, how) {
                        (true, How::Raw) => DataFrame::read_dataframe(&mut c.reader_mut(), mask).map(|f| Some(Unit::Frame(f))),
                        (true, How::FrameIter) => c.incoming_dataframes().next().transpose().map(|f| f.map(Unit::Frame)),
                        (true, _) => c.recv_dataframe().map(|f| Some(Unit::Frame(f))),
                        (false, How::Iter) => c.incoming_messages().next().transpose().map(|f| f.map(Unit::Msg)),
                        (false, _) => c.recv_message().map(|f| Some(Unit::Msg(f))),
                    };
                    if nb {
                        S::nonblocking(&c, false);
                    }
                    if let Err(e) = &r {
                        if nb && matches!(classify(e), Cls::Retry) {
                            if split && n > 1 {
                                split = false;
                                let (a, b) = c.split().expect("split");
                                self.form = Some(Form::Split(a, b));
                                continue;
                            }
                            self.form = Some(Form::Whole(c));
                            wait_readable(&self.wait);
                            continue;
                        }
                    }
                    (r, Form::Whole(c))
                }
                Form::Split(mut a, b) => {
                    let r = match (frames, how) {
                        (true, How::FrameIter) => a.incoming_dataframes().next().transpose().map(|f| f.map(Unit::Frame)),
                        (true, _) => a.recv_dataframe().map(|f| Some(Unit::Frame(f))),
                        (false, How::Iter) => a.incoming_messages().next().transpose().map(|f| f.map(Unit::Msg)),
                        (false, _) => a.recv_message().map(|f| Some(Unit::Msg(f))),
                    };
                    (r, Form::Split(a, b))
                }
                Form::Owned(f) => {
                    let (r, f) = next(f);
                    (r.map(|x| x.map(Unit::Msg)), Form::Owned(f))
                }
                Form::Borrowed(f) => {
                    let (r, f) = next(f);
                    (r.map(|x| x.map(Unit::Msg)), Form::Borrowed(f))
                }
                Form::Frames(f) => {
                    let (r, f) = next(f);
                    (r.map(|x| x.map(Unit::Frame)), Form::Frames(f))
                }
            };
            self.form = Some(form);
            let m = match r {
                Ok(Some(Unit::Msg(m))) => {
                    self.safe = m.is_data();
                    m
                }
                Ok(Some(Unit::Frame(f))) => match self.parts.add(f) {
                    None => continue,
                    Some(Ok(m)) => m,
                    Some(Err(e)) => return self.end(Some(&e)),
                },
                Ok(None) => return self.end(None),
                Err(e) => return self.end(Some(&e)),
            };
            self.log.push(Got::Msg(to_m(m)));
            return;
        }
    }
    fn send(&mut self, m: &M, how: How, flush: bool) -> bool {
        let masked = self.role == Role::Client;
        let form = self.form.take().unwrap();
        let r = match form {
            Form::Whole(mut c) => match how {
                How::Plain => c.send_message(&to_owned(m)),
                How::Iter => c.send_message(&to_borrowed(m)),
                How::Frame => c.send_dataframe(&to_owned(m)),
                How::FrameIter => c.send_dataframe(&to_borrowed(m)),
                How::Raw => to_owned(m).serialize(&mut c.writer_mut(), masked),
            }
            .map(|_| Form::Whole(c)),
            Form::Split(a, mut b) => match how {
                How::Plain => b.send_message(&to_owned(m)),
                How::Frame => b.send_dataframe(&to_owned(m)),
                _ => b.send_message(&to_borrowed(m)),
            }
            .map(|_| Form::Split(a, b)),
            Form::Owned(f) => put(f, Some(to_owned(m)), flush).map(Form::Owned),
            Form::Borrowed(f) => put(f, Some(Message::from(to_owned(m))), flush).map(Form::Borrowed),
            Form::Frames(f) => {
                let d = to_df(&F { fin: true, rsv: 0, op: m.opcode(), mask: None, data: m.payload() });
                put(f, Some(DfItem(d)), flush).map(Form::Frames)
            }
        };
        let mut s = self.said.lock().unwrap();
        match r {
            Ok(f) => {
                self.form = Some(f);
                s.accepted.push(m.clone());
                true
            }
            Err(e) => {
                s.failed = Some((m.clone(), format!("{:?}", e)));
                false
            }
        }
    }
    fn flush(&mut self) -> bool {
        let r = match self.form.take().unwrap() {
            Form::Owned(f) => put(f, None, true).map(Form::Owned),
            Form::Borrowed(f) => put(f, None, true).map(Form::Borrowed),
            Form::Frames(f) => put(f, None, true).map(Form::Frames),
            f => Ok(f),
        };
        match r {
            Ok(f) => {
                self.form = Some(f);
                true
            }
            Err(_) => false,
        }
    }
    fn codec(&self, f: Framed<S::A, MessageCodec<OwnedMessage>>, to: To) -> Form<S> {
        match to {
            To::Borrowed => Form::Borrowed(update_framed_codec(f, MessageCodec::new(self.ctx()))),
            To::Frames => Form::Frames(update_framed_codec(f, DataFrameCodec::new(self.ctx()))),
            _ => Form::Owned(update_framed_codec(f, MessageCodec::default(self.ctx()))),
        }
    }
    fn change(&mut self, to: To) -> bool {
        if self.ended {
            return true;
        }
        let ok = self.safe && self.parts.0.is_empty();
        let (o, i) = (self.role == Role::Client, self.role == Role::Server);
        let mut io = |f: Form<S>| -> Result<Form<S>, bool> {
            // from an asynchronous form back to the synchronous one
            fn apart<T: ASock, C: tokio_codec::Encoder>(f: Framed<T, C>) -> (T, BytesMut, BytesMut) {
                let FramedParts { io, read_buf, write_buf, .. } = f.into_parts();
                (io, read_buf, write_buf)
            }
            let (a, rb, wb) = match f {
                Form::Owned(f) => apart(f),
                Form::Borrowed(f) => apart(f),
                Form::Frames(f) => apart(f),
                f => return Ok(f),
            };
            let mut s = S::to_sync(a);
            if s.write_all(&wb).is_err() {
                return Err(false);
            }
            let mut buf = rb.to_vec();
            let cap = buf.len();
            buf.resize(cap.max(4096), 0);
            Ok(Form::Whole(Client::unchecked(BufReader::from_parts(s, buf, 0, cap), Headers::new(), o, i)))
        };
        let form = self.form.take().unwrap();
        let form = match (form, to) {
            (Form::Whole(c), To::Split) => {
                let (a, b) = c.split().expect("split");
                Form::Split(a, b)
            }
            (f @ Form::Split(..), _) => f,
            (f, _) if !ok => f,
            (Form::Whole(c), To::Whole) => {
                let (s, b) = c.into_stream();
                Form::Whole(Client::unchecked(
                    match b {
                        Some((buf, pos, cap)) => BufReader::from_parts(s, buf, pos, cap),
                        None => BufReader::new(s),
                    },
                    Headers::new(),
                    o,
                    i,
                ))
            }
            (Form::Whole(c), to) if S::CONVERTS => {
                let (s, b) = c.into_stream();
                let mut p = FramedParts::new(S::to_async(s), MessageCodec::default(self.ctx()));
                if let Some((buf, pos, cap)) = b {
                    p.read_buf = BytesMut::from(&buf[pos..cap]);
                }
                self.codec(Framed::from_parts(p), to)
            }
            (f @ Form::Whole(_), _) => f,
            (f, To::Whole) | (f, To::Split) if S::CONVERTS => match io(f) {
                Ok(f) => f,
                Err(_) => return false,
            },
            (f, To::Whole) | (f, To::Split) => f,
            (Form::Owned(f), to) => self.codec(f, to),
            (Form::Borrowed(f), to) => {
                let f = update_framed_codec(f, MessageCodec::default(self.ctx()));
                self.codec(f, to)
            }
            (Form::Frames(f), to) => {
                let f = update_framed_codec(f, MessageCodec::default(self.ctx()));
                self.codec(f, to)
            }
        };
        self.form = Some(form);
        true
    }
    fn run(&mut self, ops: Vec<Op>) {
        self.log.push(Got::Up);
        let mut ok = true;
        for op in ops {
            note(&op);
            ok = match op {
                Op::Recv { how, nb, split } => {
                    self.recv(how, nb, split);
                    true
                }
                Op::Send { m, how, flush } => self.send(&m, how, flush),
                Op::Change(to) => self.change(to),
            };
            if !ok {
                break;
            }
        }
        if ok && self.flush() {
            self.said.lock().unwrap().flushed = true;
        } else {
            return;
        }
        while !self.ended {
            self.recv(How::Plain, false, false);
        }
    }
}

fn note(op: &Op) {
    if let Some((w, me)) = crate::world::cur() {
        let mut g = w.lock();
        if g.keep_trace {
            let s = format!("{} does {}", g.nodes[me].name, op.short());
            g.note(s);
        }
    }
}

fn wait_readable(w: &Wait) {
    crate::world::wait_readable(&w.w, w.d)
}

fn with<S: Hand>(form: Result<Form<S>, String>, role: Role, ops: Vec<Op>, log: Log, wait: Wait, said: Arc<Mutex<Said>>)
where
    S::Writer: Send,
{
    match form {
        Ok(f) => Node { form: Some(f), role, parts: Parts::default(), safe: true, ended: false, log, wait, said }.run(ops),
        Err(e) => log.push(Got::HsErr(e)),
    }
}

fn begin<S: Hand>(s: S, role: Role, up: Up) -> Result<Form<S>, String>
where
    S::Writer: Send,
{
    match (role, up) {
        (Role::Client, _) => client_builder(None).connect_on(s).map_err(|e| format!("{:?}", e)),
        _ => sync_server_up(s, up, None),
    }
    .map(Form::Whole)
}

pub fn handover(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let t = &mut g.tape;
    let role = if t.choose(2) == 0 { Role::Client } else { Role::Server };
    let up = *t.pick(&[Up::SyncHs, Up::AsyncHs, Up::SyncHs, Up::AsyncHs, Up::Pair]);
    let up = if up == Up::Pair && role == Role::Client { Up::SyncHs } else { up };
    let tcp = t.chance(300);
    let masked = role == Role::Server;
    // what the peer says
    let sizes = Sizes { big: *t.pick(&[130, 300, 3000, 12_000]), huge: t.chance(40) };
    let frag = *t.pick(&[0, 400, 900]);
    let mut fs: Vec<F> = vec![];
    let mut nid = 100;
    let n = 1 + t.choose(8);
    for _ in 0..n {
        nid += 1;
        let m = gen::message(t, nid, sizes);
        gen::fragments(t, &m, masked, &mut nid, frag, 250, &mut fs);
    }
    let mut bytes = vec![];
    let mut bounds = vec![0];
    for f in &fs {
        f.encode(&mut bytes);
        bounds.push(bytes.len());
    }
    let cut = if t.chance(if id == "W13" { 400 } else { 100 }) { Some(gen::spot(t, &bounds, bytes.len())) } else { None };
    if let Some(c) = cut {
        bytes.truncate(c);
    }
    let exp = expect(&bytes, masked, DEFAULT_LIMITS, false);
    let total = exp.items.iter().filter(|i| matches!(i, Item::Msg(..))).count();
    // what the application does
    let hows = [How::Plain, How::Iter, How::Frame, How::FrameIter, How::Raw];
    let tos = [To::Whole, To::Owned, To::Borrowed, To::Frames, To::Whole, To::Owned, To::Split];
    let mut ops = vec![];
    let k = 1 + t.choose(24);
    let mut changes = 0;
    for _ in 0..k {
        match t.weighted(&[30, 30, 40]) {
            0 => ops.push(Op::Recv { how: *t.pick(&hows), nb: t.chance(300), split: t.chance(80) }),
            1 => {
                nid += 1;
                let m = gen::message(t, nid, sizes);
                ops.push(Op::Send { m, how: *t.pick(&hows), flush: t.choose(2) == 0 })
            }
            _ => {
                changes += 1;
                ops.push(Op::Change(*t.pick(&tos)))
            }
        }
    }
    let said: usize = ops.iter().map(|o| if let Op::Send { m, .. } = o { m.payload().len() + 14 } else { 0 }).sum();
    // the network
    let (into, out) = g.new_conn();
    for d in [into, out] {
        gen::net(&mut g, d);
        gen::coarsen(&mut g, d, bytes.len() + said + 600);
    }
    g.dirs[into].eintr_r = 0;
    if !tcp {
        g.dirs[into].spurious_r = *g.tape.pick(&[0, 100, 300]);
        g.dirs[out].spurious_w = *g.tape.pick(&[0, 100, 300]);
    }
    g.dirs[out].short_w = *g.tape.pick(&[0, 100, 700]);
    let pipeline = match g.tape.weighted(&[40, 40, 20]) {
        0 => 0,
        1 => gen::spot(&mut g.tape, &bounds, bytes.len()),
        _ => bytes.len(),
    };
    let mut cuts: Vec<usize> = vec![bytes.len()];
    let np = g.tape.choose(4);
    for _ in 0..np {
        let c = gen::spot(&mut g.tape, &bounds, bytes.len());
        if c > pipeline {
            cuts.push(c);
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    let rst = cut.is_some() && g.tape.chance(300);
    let desc = format!(
        "handover: {:?}/{:?} tcp={} frames={} bytes={} cut={:?} rst={} pipelined={} ops: {}",
        role, up, tcp, fs.len(), bytes.len(), cut, rst, pipeline, ops.iter().map(|o| o.short()).collect::<Vec<_>>().join(", ")
    );
    g.describe(desc);
    g.nontrivial = changes > 0 && total > 0;
    let conn = Conn::over(&mut g, w, into, out, tcp);
    drop(g);
    let log = Log::default();
    let said: Arc<Mutex<Said>> = Default::default();
    let (l2, s2) = (log.clone(), said.clone());
    let wait = conn.wait();
    let node = w.spawn("node", move || match conn {
        Conn::Sim(s) if up.is_async() => {
            s.set_mode(Mode::Async);
            with::<SimSock>(exec::block_on(async_up(s, role, up, None)).map(Form::Owned), role, ops, l2, wait, s2)
        }
        Conn::Fd(fd, ..) if up.is_async() => exec::with_reactor(|| {
            let r = exec::block_on(async_up(tokio_tcp(fd), role, up, None)).map(Form::Owned);
            with::<TcpStream>(r, role, ops, l2, wait, s2)
        }),
        Conn::Pair(_) => unreachable!(),
        Conn::Sim(s) => with(begin(s, role, up), role, ops, l2, wait, s2),
        Conn::Fd(fd, ..) => with(begin(Conn::tcp(fd), role, up), role, ops, l2, wait, s2),
    });
    let bad = |t: &[&'static str], class: &str, m: String| {
        let mut g = w.lock();
        let d = g.desc.clone();
        let mut p = vec!["W23"];
        p.extend(t);
        g.viol(&p, class, format!("{} [{}]", m, d));
    };
    let broken = || -> bool {
        let g = w.lock();
        let p = g.nodes[node].panic.clone();
        let stuck = g.stuck;
        drop(g);
        if let Some(p) = p {
            bad(&["W14"], "panic", format!("panic: {}", p));
            return true;
        }
        if stuck {
            bad(&["W14", "W15"], "livelock", "no progress within the step bound".into());
        }
        stuck
    };
    let cfg = Cfg { role, up, api: Api::Msg, limits: None };
    let hs = match handshake(w, &cfg, into, out, &bytes[..pipeline]) {
        Ok(n) => n,
        Err(e) => {
            if !broken() {
                bad(&["W08", "W09"], "handshake", e);
            }
            return;
        }
    };
    if !tcp && !up.is_async() {
        // interruptions concern blocking reads; an asynchronous form may see them too
    }
    let verify = |closed: bool, reset: bool| -> bool {
        if broken() {
            return false;
        }
        let got = log.snapshot();
        let avail = (w.lock().dirs[into].delivered as usize).saturating_sub(hs);
        match got.first() {
            Some(Got::Up) => {}
            x => {
                bad(&["W08", "W09"], "handshake", format!("the handshake did not complete: {:?}", x));
                return false;
            }
        }
        if let Some((m, e)) = &said.lock().unwrap().failed {
            if !reset {
                bad(&["W12"], "send", format!("sending {} failed with {} while nothing is broken", m.short(), e));
            }
            return false;
        }
        if let Err((class, m)) = check_recv(&exp, &got[1..], avail, closed, reset) {
            bad(&["W02", "W10"], class, m);
            return false;
        }
        // what it sent
        let b = w.lock().dirs[out].sent.clone();
        let hl = match parse_head(&b) {
            Ok(Some(h)) => h.len,
            _ => return true,
        };
        let wire = &b[hl..];
        if let Err(e) = strict_decode(wire, !masked) {
            bad(&["W20", "W06"], "malformed", e);
            return false;
        }
        let e = expect(wire, !masked, DEFAULT_LIMITS, false);
        let sent: Vec<M> = e.items.iter().filter_map(|i| if let Item::Msg(m, _) = i { Some(m.clone()) } else { None }).collect();
        let s = said.lock().unwrap();
        let whole = s.flushed && !reset;
        if sent.len() > s.accepted.len() + 1 || sent.iter().zip(&s.accepted).any(|(a, b)| a != b) {
            let k = sent.iter().zip(&s.accepted).take_while(|(a, b)| a == b).count();
            bad(&["W12", "W01"], "changed", format!("message {} on the wire is {}, the application sent {}", k, sent[k].short(), s.accepted.get(k).map_or("nothing".into(), |m| m.short())));
            return false;
        }
        if whole && (sent.len() != s.accepted.len() || e.viol.is_some() || wire.len() != sent_len(&e.items)) {
            bad(&["W12", "W01"], "lost", format!("{} messages were sent and flushed, {} are on the wire", s.accepted.len(), sent.len()));
            return false;
        }
        true
    };
    if !verify(false, false) {
        return;
    }
    let mut sent = pipeline;
    for c in cuts {
        if c <= sent {
            continue;
        }
        w.lock().put(into, &bytes[sent..c]);
        sent = c;
        w.run();
        if !verify(false, false) {
            return;
        }
    }
    {
        let mut g = w.lock();
        if rst {
            g.ev(usize::MAX, K::CutRst, into as u64, 0);
            g.do_rst(into)
        } else {
            if cut.is_some() {
                g.ev(usize::MAX, K::CutFin, into as u64, 0);
            }
            g.do_fin(into)
        }
    }
    w.run();
    if verify(true, rst) && !w.done(node) {
        bad(&["W13", "W15"], "hang", "still waiting after the end of the connection".into());
    }
    w.lock().probe_max("handovers_max", changes);
}

fn sent_len(v: &[Item]) -> usize {
    v.iter().map(|i| match i { Item::Msg(_, e) | Item::Frame(_, e) => *e }).max().unwrap_or(0)
}

#[allow(dead_code)]
fn _d(_: DirId) {}
