//! Scenario "relay": connections are forwarded over one or more hops. Every hop is a server of
//! the library on one side and a client on the other and passes on what it receives, in one of
//! the representations the library offers; the far ends are the driver's, or an echo server.
use crate::ep::*;
use crate::exec;
use crate::gen::{self, Sizes};
use crate::http_gen::{ext_str, gen_exts, gen_origin, gen_protos, gen_target, some_key, Ext};
use crate::refws::{accept_for, b64, expect, parse_head, strict_decode, HttpHead, Item, DEFAULT_LIMITS, F, M};
use crate::s_duplex::DfItem;
use crate::tape::Tape;
use crate::world::{DirId, Mode, NState, W};
use futures::{Async, AsyncSink, Future, Poll, Sink, Stream as _};
use hyper::header::Headers;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use tokio_codec::Framed;
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::header::extensions::Extension;
use websocket::header::{WebSocketExtensions, WebSocketProtocol};
use websocket::receiver::Reader;
use websocket::sender::Writer;
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::IntoWs as SyncIntoWs;
use websocket::server::upgrade::WsUpgrade;
use websocket::stream::Stream;
use websocket::sync::Client;
use websocket::ws::dataframe::DataFrame as _;
use websocket::ws::util::update_framed_codec;
use websocket::ws::Message as _;
use websocket::{ClientBuilder, Message, OwnedMessage, WebSocketError, WebSocketResult};

/// What a hop makes of a message on its way.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    Owned,
    Borrowed,
    /// borrowed and owned again
    Twice,
    /// taken apart and built again by kind
    Kind,
    Iter,
    /// taken apart into opcode and payload
    Payload,
    /// serialized into memory and read back as a data frame
    Memory,
    /// sent as a data frame as it is
    AsFrame,
    /// put together from itself as the only data frame
    Reframed,
    /// frame by frame
    Frames,
    /// frames collected and put together as a message
    Gather,
}

impl Via {
    fn reads_frames(self) -> bool {
        matches!(self, Via::Frames | Via::Gather)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Codec {
    Owned,
    Borrowed,
    Frames,
}

#[derive(Clone, Debug)]
struct Hop {
    is_async: bool,
    tcp: bool,
    /// towards the server, and back
    via: [Via; 2],
    /// of the connection to the client, and to the server
    codec: [Codec; 2],
    keep_key: bool,
    set_version: bool,
    /// the last hop may be an echo server instead
    echo: bool,
}

impl Hop {
    /// The hop checks the messages it reads in this direction.
    fn messages(&self, dir: usize) -> bool {
        if self.is_async {
            self.codec[dir] != Codec::Frames
        } else {
            self.echo || !self.via[dir].reads_frames()
        }
    }
}

#[derive(Default)]
struct State {
    failed: Option<String>,
    up: bool,
    /// errors of the two directions
    ends: Vec<(usize, String)>,
    bad: Option<String>,
}
type St = Arc<Mutex<State>>;

struct Wires {
    w: W,
    /// out of this hop: towards the server, and back
    out: [DirId; 2],
}

// ------------------------------------------------------------------ representations

fn rebuild(m: OwnedMessage) -> DataFrame {
    fn of<D: websocket::ws::dataframe::DataFrame>(m: D) -> DataFrame {
        let op = Opcode::new(m.opcode()).expect("opcode");
        DataFrame::new(m.is_last(), op, m.take_payload())
    }
    if m.size() % 2 == 0 {
        of(m)
    } else {
        of(Message::from(m))
    }
}

fn reframed(m: OwnedMessage) -> WebSocketResult<OwnedMessage> {
    Ok(match m.size() % 4 {
        0 => OwnedMessage::from_dataframes(vec![m])?,
        1 => OwnedMessage::from_dataframes(vec![Message::from(m)])?,
        2 => Message::from_dataframes(vec![Message::from(m)])?.into(),
        _ => Message::from_dataframes(vec![rebuild(m)])?.into(),
    })
}

fn by_kind(m: OwnedMessage) -> OwnedMessage {
    match m {
        OwnedMessage::Text(s) if s.len() % 2 == 0 => OwnedMessage::from(s),
        OwnedMessage::Text(s) => Message::text(&s[..]).into(),
        OwnedMessage::Binary(b) if b.len() % 2 == 0 => OwnedMessage::from(b),
        OwnedMessage::Binary(b) => Message::binary(&b[..]).into(),
        OwnedMessage::Ping(d) if d.len() % 2 == 0 => Message::ping(d).into(),
        OwnedMessage::Ping(d) => Message::ping(std::borrow::Cow::Borrowed(&d[..])).into(),
        OwnedMessage::Pong(d) => Message::pong(&d[..]).into(),
        OwnedMessage::Close(None) => Message::close().into(),
        OwnedMessage::Close(Some(c)) if c.reason.len() % 2 == 0 => {
            let f = DataFrame::new(true, Opcode::Close, c.into_bytes().expect("in memory"));
            OwnedMessage::from_dataframes(vec![f]).expect("a close frame")
        }
        OwnedMessage::Close(Some(c)) => Message::close_because(c.status_code, c.reason).into(),
    }
}

fn memory(m: &OwnedMessage, masked: bool, bad: &mut Option<String>) -> DataFrame {
    let mut b = vec![];
    m.serialize(&mut b, masked).expect("in memory");
    if b.len() != m.message_size(masked) {
        *bad = Some(format!("{} serializes to {} bytes, message_size says {}", to_m(m.clone()).short(), b.len(), m.message_size(masked)));
    }
    DataFrame::read_dataframe(&mut &b[..], masked).expect("own serialization")
}

/// Data frames on their way into one message.
#[derive(Default)]
pub struct Parts(pub Vec<DataFrame>);
impl Parts {
    pub fn add(&mut self, f: DataFrame) -> Option<WebSocketResult<OwnedMessage>> {
        if f.opcode() >= 8 {
            return Some(OwnedMessage::from_dataframes(vec![f]));
        }
        let last = f.is_last();
        self.0.push(f);
        if last {
            Some(OwnedMessage::from_dataframes(std::mem::take(&mut self.0)))
        } else {
            None
        }
    }
}

/// What an echo server answers.
fn answer(m: OwnedMessage, bad: &mut Option<String>) -> Option<OwnedMessage> {
    let want = to_m(m.clone());
    if m.is_control() != want.is_control() || m.is_data() == want.is_control() {
        *bad = Some(format!("{} is wrongly classified as control or data", want.short()));
    }
    if (m.is_close(), m.is_ping(), m.is_pong()) != (matches!(want, M::Close(_)), matches!(want, M::Ping(_)), matches!(want, M::Pong(_))) {
        *bad = Some(format!("{} is wrongly classified", want.short()));
    }
    let ping = m.is_ping();
    if m.is_pong() {
        return None;
    }
    let mut b = Message::from(m);
    if b.into_pong().is_ok() != ping {
        *bad = Some(format!("into_pong on {}", want.short()));
    }
    Some(b.into())
}

// ------------------------------------------------------------------ the handshake of a hop

fn onward<S: Stream, B>(u: &WsUpgrade<S, B>, hop: &Hop) -> ClientBuilder<'static> {
    let mut b = ClientBuilder::new(&format!("ws://next.example:99{}", u.uri())).expect("url of a request");
    if !u.protocols().is_empty() {
        b = b.add_protocols(u.protocols().to_vec());
    }
    if !u.extensions().is_empty() {
        b = b.add_extensions(u.extensions().to_vec());
    }
    if let Some(o) = u.origin() {
        b = b.origin(o.to_string());
    }
    if let (true, Some(k)) = (hop.keep_key, u.key()) {
        b = b.key(*k);
    }
    if let (true, Some(v)) = (hop.set_version, u.version()) {
        b = b.version(v.clone());
    }
    if let Some(x) = u.request.headers.get_raw("X-Trace") {
        let mut h = Headers::new();
        h.set_raw("X-Trace", x.to_vec());
        b = b.custom_headers(&h);
    }
    b
}

fn back<S: Stream, B>(mut u: WsUpgrade<S, B>, protos: &[String], exts: &[Extension]) -> WsUpgrade<S, B> {
    for p in protos {
        u = u.use_protocol(p.clone());
    }
    if !exts.is_empty() {
        u = u.use_extensions(exts.to_vec());
    }
    u
}

fn extra(h: &Headers) -> Headers {
    let mut x = Headers::new();
    if let Some(v) = h.get_raw("X-Reply") {
        x.set_raw("X-Reply", v.to_vec());
    }
    x
}

// ------------------------------------------------------------------ synchronous hops

fn pass<R: Read, K: Write>(r: &mut Reader<R>, wr: &mut Writer<K>, via: Via, st: &St) -> WebSocketResult<()> {
    let mut parts = Parts::default();
    let mut n = 0;
    loop {
        n += 1;
        let mut bad = None;
        let res = match via {
            Via::Owned => wr.send_message(&r.recv_message()?),
            Via::Borrowed => wr.send_message(&Message::from(r.recv_message()?)),
            Via::Twice => wr.send_message(&OwnedMessage::from(Message::from(r.recv_message()?))),
            Via::Kind => wr.send_message(&by_kind(r.recv_message()?)),
            Via::Iter => match r.incoming_messages().next() {
                Some(m) => wr.send_message(&m?),
                None => return Err(WebSocketError::NoDataAvailable),
            },
            Via::Payload => wr.send_dataframe(&rebuild(r.recv_message()?)),
            Via::Memory => {
                let m = r.recv_message()?;
                wr.send_dataframe(&memory(&m, n % 2 == 0, &mut bad))
            }
            Via::AsFrame if n % 2 == 0 => wr.send_dataframe(&r.recv_message()?),
            Via::AsFrame => wr.send_dataframe(&Message::from(r.recv_message()?)),
            Via::Reframed => wr.send_message(&reframed(r.recv_message()?)?),
            Via::Frames => wr.send_dataframe(&r.recv_dataframe()?),
            Via::Gather => match r.incoming_dataframes().next() {
                Some(f) => match parts.add(f?) {
                    Some(m) => wr.send_message(&m?),
                    None => Ok(()),
                },
                None => return Err(WebSocketError::NoDataAvailable),
            },
        };
        if bad.is_some() {
            st.lock().unwrap().bad = bad;
        }
        if let Err(e) = res {
            st.lock().unwrap().bad = None;
            return Err(e);
        }
    }
}

fn sync_hop<A: Sock, B: Sock>(down: A, up: Option<B>, hop: Hop, wires: Wires, st: St)
where
    A::Reader: Send,
    A::Writer: Send,
    B::Reader: Send,
    B::Writer: Send,
{
    let fail = |e: String| st.lock().unwrap().failed = Some(e);
    let u = match SyncIntoWs::into_ws(down) {
        Ok(u) => u,
        Err(e) => return fail(format!("{:?}", e.3)),
    };
    let up = match up {
        Some(up) => up,
        None => {
            let (p, x) = (u.protocols().iter().take(1).cloned().collect::<Vec<_>>(), u.extensions().to_vec());
            let mut c = match back(u, &p, &x).accept() {
                Ok(c) => c,
                Err(e) => return fail(format!("accept: {}", e.1)),
            };
            st.lock().unwrap().up = true;
            if let Err(e) = echo(&mut c, hop.via[0], &st) {
                st.lock().unwrap().ends.push((0, cls(&e)));
            }
            return;
        }
    };
    let c = match onward(&u, &hop).connect_on(up) {
        Ok(c) => c,
        Err(e) => {
            fail(format!("connect: {:?}", e));
            let _ = u.reject();
            return;
        }
    };
    let x = extra(c.headers());
    let u = back(u, c.protocols(), c.extensions());
    let s = match u.accept_with(&x) {
        Ok(s) => s,
        Err(e) => return fail(format!("accept: {}", e.1)),
    };
    st.lock().unwrap().up = true;
    let (mut r1, mut w1) = s.split().expect("split");
    let (mut r2, mut w2) = c.split().expect("split");
    let (w, out) = (wires.w.clone(), wires.out);
    let (st2, via) = (st.clone(), hop.via[1]);
    let w3 = w.clone();
    w.spawn("hop back", move || {
        if let Err(e) = pass(&mut r2, &mut w1, via, &st2) {
            st2.lock().unwrap().ends.push((1, cls(&e)));
        }
        w3.lock().do_fin(out[1]);
    });
    if let Err(e) = pass(&mut r1, &mut w2, hop.via[0], &st) {
        st.lock().unwrap().ends.push((0, cls(&e)));
    }
    w.lock().do_fin(out[0]);
}

fn cls(e: &WebSocketError) -> String {
    match classify(e) {
        Cls::Proto(s) => format!("protocol {}", s),
        Cls::End(s) => format!("end {}", s),
        Cls::Retry => "would-block".into(),
    }
}

fn echo<S: Stream>(c: &mut Client<S>, via: Via, st: &St) -> WebSocketResult<()> {
    loop {
        let m = if via == Via::Iter { c.incoming_messages().next().unwrap()? } else { c.recv_message()? };
        let mut bad = None;
        let a = answer(m, &mut bad);
        if bad.is_some() {
            st.lock().unwrap().bad = bad;
        }
        if let Some(a) = a {
            if via == Via::Borrowed {
                c.send_message(&Message::from(a))?;
            } else if via == Via::Payload {
                c.send_dataframe(&rebuild(a))?;
            } else {
                c.send_message(&a)?;
            }
        }
    }
}

// ------------------------------------------------------------------ asynchronous hops

enum Unit {
    Msg(OwnedMessage),
    Frame(DataFrame),
}
type BoxIn = Box<dyn futures::Stream<Item = Unit, Error = WebSocketError> + Send>;
type BoxOut = Box<dyn Sink<SinkItem = Unit, SinkError = WebSocketError> + Send>;

fn halves<K: ASock>(c: Framed<K, MessageCodec<OwnedMessage>>, codec: Codec, server: bool) -> (BoxOut, BoxIn) {
    let ctx = || if server { Context::Server } else { Context::Client };
    let msg = |u: Unit| match u {
        Unit::Msg(m) => m,
        Unit::Frame(_) => unreachable!("converted before"),
    };
    match codec {
        Codec::Owned => {
            let (o, i) = c.split();
            (Box::new(o.with(move |u| Ok::<_, WebSocketError>(msg(u)))), Box::new(i.map(Unit::Msg)))
        }
        Codec::Borrowed => {
            let (o, i) = update_framed_codec(c, MessageCodec::<Message<'static>>::new(ctx())).split();
            (Box::new(o.with(move |u| Ok::<_, WebSocketError>(Message::from(msg(u))))), Box::new(i.map(Unit::Msg)))
        }
        Codec::Frames => {
            let (o, i) = update_framed_codec(c, DataFrameCodec::<DfItem>::new(ctx())).split();
            let f = |u: Unit| match u {
                Unit::Msg(_) => unreachable!("converted before"),
                Unit::Frame(f) => f,
            };
            (Box::new(o.with(move |u| Ok::<_, WebSocketError>(DfItem(f(u))))), Box::new(i.map(Unit::Frame)))
        }
    }
}

/// Moves everything from one connection to another.
struct Pipe {
    from: BoxIn,
    to: BoxOut,
    conv: Box<dyn FnMut(Unit) -> WebSocketResult<Option<Unit>> + Send>,
    next: VecDeque<Unit>,
    dirty: bool,
    over: bool,
    dir: usize,
    out: DirId,
    w: W,
    st: St,
}

impl Pipe {
    fn end(&mut self, e: &WebSocketError) {
        self.over = true;
        self.st.lock().unwrap().ends.push((self.dir, cls(e)));
    }
    fn fin(&self) -> Poll<(), ()> {
        self.w.lock().do_fin(self.out);
        Ok(Async::Ready(()))
    }
}

impl Future for Pipe {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        loop {
            while let Some(u) = self.next.pop_front() {
                match self.to.start_send(u) {
                    Ok(AsyncSink::Ready) => self.dirty = true,
                    Ok(AsyncSink::NotReady(u)) => {
                        self.next.push_front(u);
                        return Ok(Async::NotReady);
                    }
                    Err(e) => {
                        self.end(&e);
                        return self.fin();
                    }
                }
            }
            if self.over {
                match self.to.poll_complete() {
                    Ok(Async::NotReady) => return Ok(Async::NotReady),
                    _ => return self.fin(),
                }
            }
            match self.from.poll() {
                Ok(Async::Ready(Some(u))) => match (self.conv)(u) {
                    Ok(Some(u)) => self.next.push_back(u),
                    Ok(None) => {}
                    Err(e) => self.end(&e),
                },
                Ok(Async::Ready(None)) => self.end(&WebSocketError::NoDataAvailable),
                Err(e) => self.end(&e),
                Ok(Async::NotReady) => {
                    if self.dirty {
                        match self.to.poll_complete() {
                            Ok(Async::Ready(())) => self.dirty = false,
                            Ok(Async::NotReady) => {}
                            Err(e) => {
                                self.end(&e);
                                return self.fin();
                            }
                        }
                    }
                    return Ok(Async::NotReady);
                }
            }
        }
    }
}

fn converter(to: Codec) -> Box<dyn FnMut(Unit) -> WebSocketResult<Option<Unit>> + Send> {
    let mut parts = Parts::default();
    Box::new(move |u| {
        Ok(match (u, to == Codec::Frames) {
            (Unit::Msg(m), true) => Some(Unit::Frame(rebuild(m))),
            (Unit::Frame(f), false) => match parts.add(f) {
                Some(m) => Some(Unit::Msg(m?)),
                None => None,
            },
            (u, _) => Some(u),
        })
    })
}

fn async_hop<K: ASock>(down: K, up: Option<K>, hop: Hop, wires: Wires, st: St) {
    let h2 = hop.clone();
    let up_done = exec::block_on(AsyncIntoWs::into_ws(down).map_err(|e| format!("{:?}", e.3)).and_then(move |u| -> Box<dyn Future<Item = _, Error = String> + Send> {
        match up {
            Some(up) => Box::new(onward(&u, &h2).async_connect_on(up).map_err(|e| format!("connect: {:?}", e)).and_then(move |(c, h)| {
                let p = h.get::<WebSocketProtocol>().map(|p| p.0.clone()).unwrap_or_default();
                let x = h.get::<WebSocketExtensions>().map(|x| x.0.clone()).unwrap_or_default();
                back(u, &p, &x).accept_with(&extra(&h)).map(|(s, _)| (s, Some(c))).map_err(|e| format!("accept: {:?}", e))
            })),
            None => {
                let (p, x) = (u.protocols().iter().take(1).cloned().collect::<Vec<_>>(), u.extensions().to_vec());
                Box::new(back(u, &p, &x).accept().map(|(s, _)| (s, None)).map_err(|e| format!("accept: {:?}", e)))
            }
        }
    }));
    let (s, c) = match up_done {
        Ok(x) => x,
        Err(e) => {
            st.lock().unwrap().failed = Some(e);
            return;
        }
    };
    st.lock().unwrap().up = true;
    let w = wires.w.clone();
    let pipe = |from, to, conv, dir: usize| -> exec::Task {
        Box::new(Pipe { from, to, conv, next: VecDeque::new(), dirty: false, over: false, dir, out: wires.out[dir], w: w.clone(), st: st.clone() })
    };
    let (o1, i1) = halves(s, hop.codec[0], true);
    match c {
        Some(c) => {
            let (o2, i2) = halves(c, hop.codec[1], false);
            exec::run_tasks(vec![pipe(i1, o2, converter(hop.codec[1]), 0), pipe(i2, o1, converter(hop.codec[0]), 1)]);
        }
        None => {
            let st2 = st.clone();
            let mut a = converter(Codec::Owned);
            let mut b = converter(hop.codec[0]);
            let conv = Box::new(move |u| {
                let m = match a(u)? {
                    Some(Unit::Msg(m)) => m,
                    _ => return Ok(None),
                };
                let mut bad = None;
                let r = answer(m, &mut bad);
                if bad.is_some() {
                    st2.lock().unwrap().bad = bad;
                }
                match r {
                    Some(m) => b(Unit::Msg(m)),
                    None => Ok(None),
                }
            });
            exec::run_tasks(vec![pipe(i1, o1, conv, 1)]);
        }
    }
}

fn hop_node(down: Conn, up: Option<Conn>, hop: Hop, wires: Wires, st: St) {
    match (down, up) {
        (Conn::Sim(d), Some(Conn::Sim(u))) if hop.is_async => {
            d.set_mode(Mode::Async);
            u.set_mode(Mode::Async);
            async_hop(d, Some(u), hop, wires, st)
        }
        (Conn::Sim(d), None) if hop.is_async => {
            d.set_mode(Mode::Async);
            async_hop(d, None, hop, wires, st)
        }
        (Conn::Fd(d, ..), Some(Conn::Fd(u, ..))) if hop.is_async => exec::with_reactor(|| async_hop(tokio_tcp(d), Some(tokio_tcp(u)), hop, wires, st)),
        (Conn::Fd(d, ..), None) if hop.is_async => exec::with_reactor(|| async_hop(tokio_tcp(d), None, hop, wires, st)),
        (Conn::Sim(d), Some(Conn::Sim(u))) => sync_hop(d, Some(u), hop, wires, st),
        (Conn::Sim(d), Some(Conn::Fd(u, ..))) => sync_hop(d, Some(Conn::tcp(u)), hop, wires, st),
        (Conn::Fd(d, ..), Some(Conn::Sim(u))) => sync_hop(Conn::tcp(d), Some(u), hop, wires, st),
        (Conn::Fd(d, ..), Some(Conn::Fd(u, ..))) => sync_hop(Conn::tcp(d), Some(Conn::tcp(u)), hop, wires, st),
        (Conn::Pair(_), _) | (_, Some(Conn::Pair(_))) => unreachable!(),
        (Conn::Sim(d), None) => sync_hop::<_, crate::world::SimSock>(d, None, hop, wires, st),
        (Conn::Fd(d, ..), None) => sync_hop::<_, crate::world::SimSock>(Conn::tcp(d), None, hop, wires, st),
    }
}

// ------------------------------------------------------------------ the scenario

/// What an application at a far end sends.
struct Says {
    bytes: Vec<u8>,
    /// where the frames of a later part begin
    part: usize,
    items: Vec<M>,
    optional: Vec<M>,
    broken: bool,
}

fn says(t: &mut Tape, masked: bool, id: u32, may_break: bool) -> Says {
    let n = t.choose(8);
    let sizes = Sizes { big: *t.pick(&[130, 300, 3000]), huge: t.chance(20) };
    let mut next = id;
    let frag = *t.pick(&[0, 400, 900]);
    let mut fs: Vec<F> = vec![];
    for _ in 0..n {
        next += 1;
        let m = gen::message(t, next, sizes);
        gen::fragments(t, &m, masked, &mut next, frag, 250, &mut fs);
    }
    let mut bytes = vec![];
    let cut = t.range(0, fs.len());
    let mut part = 0;
    for (i, f) in fs.iter().enumerate() {
        if i == cut {
            part = bytes.len();
        }
        f.encode(&mut bytes);
    }
    let broken = may_break && t.chance(150);
    if broken {
        gen::violation(t, masked, false, DEFAULT_LIMITS.frame, &mut bytes);
    }
    let e = expect(&bytes, masked, DEFAULT_LIMITS, false);
    let items = msgs(&e.items);
    let optional = e.viol.as_ref().map_or(vec![], |v| v.optional.iter().map(|x| x.0.clone()).collect());
    Says { bytes, part, items, optional, broken }
}

fn msgs(v: &[Item]) -> Vec<M> {
    v.iter().filter_map(|i| if let Item::Msg(m, _) = i { Some(m.clone()) } else { None }).collect()
}

fn list(v: &[M]) -> String {
    v.iter().map(|m| m.short()).collect::<Vec<_>>().join(" ")
}

fn exts_of(h: &HttpHead) -> Vec<Ext> {
    let val = |s: &str| s.trim().to_string();
    h.tokens("Sec-WebSocket-Extensions")
        .iter()
        .map(|e| {
            let mut p = e.split(';');
            let name = val(p.next().unwrap());
            let ps = p.map(|kv| match kv.split_once('=') {
                Some((k, v)) => (val(k), Some(val(v))),
                None => (val(kv), None),
            });
            (name, ps.collect())
        })
        .collect()
}

struct Meta {
    target: String,
    protos: Vec<String>,
    exts: Vec<Ext>,
    origin: Option<String>,
    trace: Option<String>,
    key: String,
}

fn header_lines(t: &mut Tape, name: &str, vals: Vec<String>) -> String {
    if vals.is_empty() {
        return String::new();
    }
    if vals.len() > 20 || t.choose(2) == 0 {
        return format!("{}: {}\r\n", name, vals.join(", "));
    }
    vals.iter().map(|v| format!("{}: {}\r\n", name, v)).collect()
}

pub fn relay(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let t = &mut g.tape;
    let n = *t.pick(&[1usize, 1, 2, 3]);
    let echo = t.chance(350);
    let vias = [Via::Owned, Via::Borrowed, Via::Twice, Via::Kind, Via::Iter, Via::Payload, Via::Memory, Via::AsFrame, Via::Reframed, Via::Frames, Via::Gather];
    let codecs = [Codec::Owned, Codec::Borrowed, Codec::Frames];
    let hops: Vec<Hop> = (0..n)
        .map(|i| Hop {
            is_async: t.choose(2) == 1,
            tcp: t.chance(400),
            via: [*t.pick(&vias), *t.pick(&vias)],
            codec: [*t.pick(&codecs), *t.pick(&codecs)],
            keep_key: t.chance(500),
            set_version: t.chance(500),
            echo: echo && i + 1 == n,
        })
        .collect();
    // what is said, at the near end and at the far end
    let near = says(t, true, 100, hops[0].messages(0));
    let last = &hops[n - 1];
    let far = says(t, false, 500, if last.is_async { last.codec[1] != Codec::Frames } else { !last.via[1].reads_frames() });
    let key = b64(&some_key(t));
    let meta = Meta {
        target: if t.choose(2) == 0 { gen_target(t) } else { t.pick(&["/chat?room=1", "/", "/a/b%20c?q=%C3%A9", "/a//b/?x=y&z=;"]).to_string() },
        protos: gen_protos(t),
        exts: {
            let n = t.choose(4);
            gen_exts(t, n)
        },
        origin: if t.choose(2) == 0 { None } else { Some(gen_origin(t)) },
        trace: if t.choose(2) == 0 { None } else { Some(t.pick(&["1", "a=b; c=d, e", "x:y", "caf\u{e9}"]).to_string()) },
        key,
    };
    let mut req = format!("GET {} HTTP/1.1\r\nHost: sim.example\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n", meta.target);
    req += &header_lines(t, "Sec-WebSocket-Protocol", meta.protos.clone());
    req += &header_lines(t, "Sec-WebSocket-Extensions", meta.exts.iter().map(ext_str).collect());
    if let Some(o) = &meta.origin {
        req += &format!("Origin: {}\r\n", o);
    }
    if let Some(o) = &meta.trace {
        req += &format!("X-Trace: {}\r\n", o);
    }
    req += &format!("Sec-WebSocket-Version: 13\r\nSec-WebSocket-Key: {}\r\n\r\n", meta.key);
    let reply_protos: Vec<String> = meta.protos.iter().take(t.choose(2) as usize).cloned().collect();
    let ext_n = t.choose(3);
    let reply_exts: Vec<Ext> = gen_exts(t, ext_n);
    let reply_x = if t.choose(2) == 0 { None } else { Some("pass, it; on=1") };
    // ---------------------------------------------------------------- the links
    // link i: towards the server, and back
    let m = if echo { n } else { n + 1 };
    let mut links: Vec<[DirId; 2]> = vec![];
    let pipelined = g.tape.chance(400);
    let total = near.bytes.len() + far.bytes.len();
    let mut cut = false;
    for i in 0..m {
        let (a, b) = g.new_conn();
        // reading ends: a by hop i (its server side), b by hop i-1 (its client side)
        for (d, reader, writer) in [(a, hops.get(i), i.checked_sub(1).map(|j| &hops[j])), (b, i.checked_sub(1).map(|j| &hops[j]), hops.get(i))] {
            gen::net(&mut g, d);
            gen::coarsen(&mut g, d, total + 600);
            g.dirs[d].eintr_r = 0;
            if writer.is_some() && reader.is_some() && g.tape.chance(500) {
                let c = *g.tape.pick(&[7usize, 60, 600, 20_000]);
                g.dirs[d].cap = c.max(total / 200);
            }
            if let Some(r) = reader {
                if r.is_async && !r.tcp {
                    g.dirs[d].spurious_r = *g.tape.pick(&[0, 100, 300]);
                }
            }
            if let Some(x) = writer {
                if !x.is_async {
                    g.dirs[d].eintr_w = *g.tape.pick(&[0, 100, 300]);
                } else if !x.tcp {
                    g.dirs[d].spurious_w = *g.tape.pick(&[0, 100, 300]);
                }
                g.dirs[d].short_w = *g.tape.pick(&[0, 100, 700]);
            }
        }
        if g.tape.chance(match id { "W13" => 300, _ => 80 }) {
            let d = *g.tape.pick(&[a, b]);
            gen::cut(&mut g, d, total + 300);
            cut = true;
        }
        links.push([a, b]);
    }
    let desc = format!("relay: {:?} cut={} pipelined={} echo={} near: {} far: {}", hops, cut, pipelined, echo, list(&near.items), list(&far.items));
    g.describe(desc);
    g.nontrivial = !near.items.is_empty() || !far.items.is_empty();
    let mut sts: Vec<St> = vec![];
    let mut conns = vec![];
    for (i, h) in hops.iter().enumerate() {
        let down = Conn::over(&mut g, w, links[i][0], links[i][1], h.tcp);
        let up = if i + 1 < m { Some(Conn::over(&mut g, w, links[i + 1][1], links[i + 1][0], h.tcp)) } else { None };
        conns.push((down, up));
    }
    drop(g);
    for (i, (h, (down, up))) in hops.iter().zip(conns).enumerate() {
        let st = St::default();
        sts.push(st.clone());
        let wires = Wires { w: w.clone(), out: [if i + 1 < m { links[i + 1][0] } else { usize::MAX }, links[i][1]] };
        let h = h.clone();
        w.spawn("hop", move || hop_node(down, up, h, wires, st));
    }
    let mut x = Judge { w, hops: &hops, sts: &sts, links: &links, near: &near, far: &far, meta: &meta, cut, echo, reply: None, faded: false };
    // ---------------------------------------------------------------- the request
    let src = links[0][0];
    let dst = links[0][1];
    {
        let mut g = w.lock();
        g.put(src, req.as_bytes());
        if pipelined {
            g.put(src, &near.bytes[..near.part]);
        }
    }
    if !x.run() {
        return;
    }
    if !echo {
        let out = links[m - 1][0];
        let head = match x.head(out) {
            Some(h) => h,
            None => return x.finish(0, 0),
        };
        if !x.request(&head) {
            return;
        }
        let key = head.one("Sec-WebSocket-Key").unwrap_or("").to_string();
        let mut g = w.lock();
        let mut rep = String::from("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n");
        rep += &format!("Sec-WebSocket-Accept: {}\r\n", accept_for(&key));
        rep += &header_lines(&mut g.tape, "Sec-WebSocket-Protocol", reply_protos.clone());
        rep += &header_lines(&mut g.tape, "Sec-WebSocket-Extensions", reply_exts.iter().map(ext_str).collect());
        if let Some(v) = reply_x {
            rep += &format!("X-Reply: {}\r\n", v);
        }
        rep += "\r\n";
        let into = links[m - 1][1];
        g.put(into, rep.as_bytes());
        if pipelined {
            g.put(into, &far.bytes[..far.part]);
        }
        drop(g);
        x.reply = Some((reply_protos, reply_exts, reply_x));
        if !x.run() {
            return;
        }
    } else {
        x.reply = Some((meta.protos.iter().take(1).cloned().collect(), meta.exts.clone(), None));
    }
    match x.head(dst) {
        Some(h) => {
            if !x.answered(&h) {
                return;
            }
        }
        None => return x.finish(0, 0),
    }
    // ---------------------------------------------------------------- the rest
    {
        let mut g = w.lock();
        for l in &links {
            for d in l {
                let sync_reader = true;
                if sync_reader {
                    g.dirs[*d].eintr_r = *g.tape.pick(&[0, 0, 200]);
                }
            }
        }
        // a nonblocking reader is not interrupted
        for (i, h) in hops.iter().enumerate() {
            if h.is_async {
                g.dirs[links[i][0]].eintr_r = 0;
                if i + 1 < m {
                    g.dirs[links[i + 1][1]].eintr_r = 0;
                }
            }
        }
        g.put(src, &near.bytes[if pipelined { near.part } else { 0 }..]);
        if !echo {
            let into = links[m - 1][1];
            g.put(into, &far.bytes[if pipelined { far.part } else { 0 }..]);
        }
    }
    if !x.run() {
        return;
    }
    if !x.traffic(false) {
        return;
    }
    let k = {
        let mut g = w.lock();
        let k = g.tape.choose(2);
        g.do_fin(if k == 0 || echo { src } else { links[m - 1][1] });
        k
    };
    if !x.run() || !x.traffic(true) {
        return;
    }
    if !echo {
        w.lock().do_fin(if k == 0 { links[m - 1][1] } else { src });
    }
    if !x.run() || !x.traffic(true) {
        return;
    }
    x.finish(near.items.len(), far.items.len());
}

struct Judge<'a> {
    w: &'a W,
    hops: &'a [Hop],
    sts: &'a [St],
    links: &'a [[DirId; 2]],
    near: &'a Says,
    far: &'a Says,
    meta: &'a Meta,
    cut: bool,
    echo: bool,
    reply: Option<(Vec<String>, Vec<Ext>, Option<&'static str>)>,
    faded: bool,
}

impl<'a> Judge<'a> {
    fn bad(&self, t: &[&'static str], class: &str, m: String) -> bool {
        let mut g = self.w.lock();
        let d = g.desc.clone();
        let mut p = vec!["W22"];
        p.extend(t);
        g.viol(&p, class, format!("{} [{}]", m, d));
        false
    }
    fn states(&self) -> String {
        self.sts.iter().map(|s| { let s = s.lock().unwrap(); format!("up={} failed={:?} ends={:?}", s.up, s.failed, s.ends) }).collect::<Vec<_>>().join(" / ")
    }
    fn run(&mut self) -> bool {
        let ok = self.w.run();
        let g = self.w.lock();
        let pan: Vec<String> = g.nodes.iter().filter_map(|n| n.panic.clone().map(|p| format!("{} panicked: {}", n.name, p))).collect();
        let stuck = g.stuck;
        drop(g);
        if let Some(p) = pan.first() {
            return self.bad(&["W14"], "panic", p.clone());
        }
        if stuck || !ok {
            return self.bad(&["W15", "W14"], "livelock", "no progress within the step bound".into());
        }
        for s in self.sts {
            let s = s.lock().unwrap();
            if let Some(b) = &s.bad {
                return self.bad(&["W20"], "representation", b.clone());
            }
        }
        true
    }
    /// The head at the beginning of what went out on `d`.
    fn head(&self, d: DirId) -> Option<HttpHead> {
        let b = self.w.lock().dirs[d].sent.clone();
        match parse_head(&b) {
            Ok(Some(h)) => Some(h),
            Ok(None) => {
                if !self.cut {
                    self.bad(&["W15", "W08", "W09"], "handshake", format!("no head came through: {}", self.states()));
                }
                None
            }
            Err(e) => {
                self.bad(&["W20"], "malformed", e);
                None
            }
        }
    }
    fn request(&self, h: &HttpHead) -> bool {
        let m = self.meta;
        if h.line != format!("GET {} HTTP/1.1", m.target) {
            return self.bad(&["W11"], "target", format!("the request line is {:?}", h.line));
        }
        self.lists(h, &m.protos, &m.exts)
            && self.single(h, "Origin", m.origin.as_deref())
            && self.single(h, "X-Trace", m.trace.as_deref())
            && self.single(h, "Sec-WebSocket-Version", Some("13"))
            && (!self.hops.iter().all(|h| h.keep_key) || self.single(h, "Sec-WebSocket-Key", Some(&m.key)))
    }
    fn lists(&self, h: &HttpHead, protos: &[String], exts: &[Ext]) -> bool {
        let p = h.tokens("Sec-WebSocket-Protocol");
        if p != protos {
            return self.bad(&["W11"], "protocols", format!("protocols {:?} came through as {:?}", protos, p));
        }
        let e = exts_of(h);
        if e != exts {
            return self.bad(&["W11"], "extensions", format!("extensions {:?} came through as {:?}", exts, e));
        }
        true
    }
    fn single(&self, h: &HttpHead, name: &str, want: Option<&str>) -> bool {
        let got = h.get(name);
        if got != want.into_iter().collect::<Vec<_>>() {
            return self.bad(&["W11"], "header", format!("{} {:?} came through as {:?}", name, want, got));
        }
        true
    }
    fn answered(&self, h: &HttpHead) -> bool {
        if !h.line.starts_with("HTTP/1.1 101") {
            if self.cut {
                return true;
            }
            return self.bad(&["W08", "W09"], "handshake", format!("refused with {:?}: {}", h.line, self.states()));
        }
        let (p, e, x) = self.reply.clone().unwrap();
        self.lists(h, &p, &e) && self.single(h, "X-Reply", x) && self.single(h, "Sec-WebSocket-Accept", Some(&accept_for(&self.meta.key)))
    }
    /// Compares what arrived at the far ends with what was said.
    fn traffic(&mut self, closing: bool) -> bool {
        if !self.cut && !self.sts.iter().all(|s| s.lock().unwrap().up) {
            return self.bad(&["W15"], "handshake", format!("not every hop is connected: {}", self.states()));
        }
        let m = self.links.len();
        let near: Vec<M> = self.near.items.clone();
        let echoed = |v: &[M]| -> Vec<M> {
            v.iter()
                .filter_map(|m| match m {
                    M::Ping(d) => Some(M::Pong(d.clone())),
                    M::Pong(_) => None,
                    x => Some(x.clone()),
                })
                .collect()
        };
        let up = if self.echo { None } else { Some((self.links[m - 1][0], true, near.clone(), self.near.optional.clone(), "the server")) };
        let down = if self.echo {
            (self.links[0][1], false, echoed(&near), echoed(&self.near.optional), "the client")
        } else {
            (self.links[0][1], false, self.far.items.clone(), self.far.optional.clone(), "the client")
        };
        for (d, masked, want, opt, who) in up.into_iter().chain([down]) {
            let b = self.w.lock().dirs[d].sent.clone();
            let hl = match parse_head(&b) {
                Ok(Some(h)) => h.len,
                _ if self.cut => continue,
                _ => return true,
            };
            let wire = &b[hl..];
            if let Err(e) = strict_decode(wire, masked) {
                return self.bad(&["W20", "W01"], "malformed", format!("towards {}: {}", who, e));
            }
            let e = expect(wire, masked, DEFAULT_LIMITS, false);
            if let Some(v) = &e.viol {
                return self.bad(&["W20", "W01"], "malformed", format!("towards {}: {} at byte {}", who, v.why, v.earliest));
            }
            let got = msgs(&e.items);
            let all: Vec<M> = want.iter().chain(&opt).cloned().collect();
            if !all.starts_with(&got) {
                let k = got.iter().zip(&all).take_while(|(a, b)| a == b).count();
                let s = |v: &[M]| v.get(k).map_or("nothing".into(), |m| m.short());
                return self.bad(&["W01"], "changed", format!("message {} towards {} is {}, it was sent as {}", k, who, s(&got), s(&all)));
            }
            if got.len() < want.len() && !self.cut {
                return self.bad(&["W01", "W15"], "missing", format!("{} of {} messages reached {}: {}", got.len(), want.len(), who, self.states()));
            }
            if !self.cut && !self.near.broken && !self.far.broken && !closing {
                for s in self.sts {
                    let s = s.lock().unwrap();
                    if let Some((_, e)) = s.ends.first() {
                        return self.bad(&["W01", "W13"], "false-end", format!("a hop reports {} while nothing has ended", e));
                    }
                }
            }
        }
        let _ = self.faded;
        true
    }
    fn finish(&self, a: usize, b: usize) {
        let mut g = self.w.lock();
        g.probe_max("relayed_max", (a + b) as u64);
        if self.cut || !g.viols.is_empty() {
            return;
        }
        let open: Vec<String> = g.nodes.iter().filter(|n| n.state != NState::Done).map(|n| format!("{}: {}", n.name, n.why)).collect();
        drop(g);
        if !open.is_empty() {
            self.bad(&["W13", "W15"], "hang", format!("still waiting after both ends have ended: {}", open.join("; ")));
        }
    }
}
