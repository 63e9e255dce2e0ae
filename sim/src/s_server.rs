//! Scenario "server_hs": the simulator plays a client that sends a request - valid, mutated,
//! malformed, truncated, with data pipelined behind it - to one server endpoint, which accepts,
//! rejects or drops the upgrade over a transport that may fail.
use crate::ep::*;
use crate::exec::block_on;
use crate::gen;
use crate::http_gen::{self, ext_str, Ext, Gen};
use crate::refws::{accept_for, expect, parse_head, strict_decode, Limits, DEFAULT_LIMITS, F, M};
use crate::s_frames::check_recv;
use crate::world::{DirId, Mode, SimSock, K, W};
use futures::{Sink, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::http::h1::parse_request;
use std::io::{ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_codec::Framed;
use websocket::codec::ws::MessageCodec;
use websocket::OwnedMessage;
use websocket::header::extensions::{Extension, Parameter};
use websocket::header::WebSocketVersion;
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs as SyncIntoWs, RequestStreamPair, Upgrade};
use websocket::server::upgrade::{HyperIntoWsError, Request, WsUpgrade};
use websocket::stream::sync::Splittable;
use websocket::stream::Stream;
use websocket::sync::Client;

pub const AFTER: &[u8] = b"bytes sent by the application after the rejection";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Var {
    Stream,
    Pair,
    Hyper,
    Async,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Accept,
    Reject,
    Drop,
}

/// How an established connection is used.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum After {
    Read(Api),
    /// taken apart, then read as raw bytes
    Apart,
    /// read as raw bytes through reader_mut
    RawReader,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub var: Var,
    pub mode: Mode,
    pub act: Act,
    pub custom: Vec<(String, String)>,
    /// how many of them go into the upgrade's own header field
    pub field: usize,
    pub protos: Vec<String>,
    pub exts: Vec<Ext>,
    pub limits: Option<(usize, usize)>,
    pub after: After,
    pub msgs: Vec<M>,
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub headers: Vec<(String, Vec<Vec<u8>>)>,
    pub protos: Vec<String>,
    pub exts: Vec<Ext>,
    pub key: Option<[u8; 16]>,
    pub version13: bool,
    pub uri: String,
    pub origin: Option<String>,
    pub wire: usize,
}

#[derive(Default)]
pub struct Out {
    pub err: Option<(String, bool)>,
    pub up: Option<Meta>,
    pub act: Option<Result<(), String>>,
    /// bytes read raw: returned buffer, then the stream
    pub raw: Vec<u8>,
    pub raw_mode: bool,
    pub headers: Option<Headers>,
    pub tried: usize,
    pub sent_ok: usize,
    pub send_err: bool,
}
pub type O = Arc<Mutex<Out>>;

pub fn ext_of(e: &Extension) -> Ext {
    (e.name.clone(), e.params.iter().map(|p| (p.name.clone(), p.value.clone())).collect())
}
pub fn to_ext(e: &Ext) -> Extension {
    Extension { name: e.0.clone(), params: e.1.iter().map(|(n, v)| Parameter { name: n.clone(), value: v.clone() }).collect() }
}
pub fn to_headers(v: &[(String, String)]) -> Headers {
    let mut h = Headers::new();
    for (n, x) in v {
        h.append_raw(n.clone(), x.clone().into_bytes());
    }
    h
}
pub fn raw_headers(h: &Headers) -> Vec<(String, Vec<Vec<u8>>)> {
    h.iter().map(|v| (v.name().to_string(), h.get_raw(v.name()).map(|r| r.to_vec()).unwrap_or_default())).collect()
}

pub fn cause(e: &HyperIntoWsError) -> &'static str {
    match e {
        HyperIntoWsError::MethodNotGet => "method",
        HyperIntoWsError::UnsupportedHttpVersion => "http version",
        HyperIntoWsError::UnsupportedWebsocketVersion => "ws version",
        HyperIntoWsError::NoSecWsKeyHeader => "key",
        HyperIntoWsError::NoWsUpgradeHeader => "upgrade",
        HyperIntoWsError::NoUpgradeHeader => "no upgrade",
        HyperIntoWsError::NoWsConnectionHeader => "connection",
        HyperIntoWsError::NoConnectionHeader => "no connection",
        HyperIntoWsError::Io(_) => "io",
        HyperIntoWsError::Parsing(_) => "parsing",
    }
}

/// Reads raw bytes until the end, recording them as they come.
pub fn raw_rest<R: Read + ?Sized>(s: &mut R, o: &O) {
    let mut b = [0u8; 500];
    o.lock().unwrap().raw_mode = true;
    loop {
        match s.read(&mut b) {
            Ok(0) => return,
            Ok(n) => o.lock().unwrap().raw.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => return,
        }
    }
}

fn meta<S: Stream, B>(u: &websocket::server::upgrade::WsUpgrade<S, B>, req: &Request, wire: usize) -> Meta {
    Meta {
        headers: raw_headers(&req.headers),
        protos: u.protocols().to_vec(),
        exts: u.extensions().iter().map(ext_of).collect(),
        key: u.key().copied(),
        version13: u.version() == Some(&WebSocketVersion::WebSocket13),
        uri: u.uri(),
        origin: u.origin().map(|s| s.to_string()),
        wire,
    }
}

fn wire_len(w: &W, out: DirId) -> usize {
    w.lock().dirs[out].sent.len()
}

/// One by one, all at once, or both.
fn use_exts<S, B>(mut u: WsUpgrade<S, B>, exts: &[Ext]) -> WsUpgrade<S, B>
where
    S: Stream,
{
    match exts.len() {
        0 => u,
        1 => u.use_extension(to_ext(&exts[0])),
        2 => u.use_extensions(exts.iter().map(to_ext)),
        n => {
            u = u.use_extension(to_ext(&exts[0]));
            u = u.use_extensions(exts[1..n - 1].iter().map(to_ext));
            u.use_extension(to_ext(&exts[n - 1]))
        }
    }
}

fn act_sync<S: Stream>(mut u: Upgrade<S>, p: &Plan, o: &O, w: &W, out: DirId, unmode: &dyn Fn(), serve: impl FnOnce(Client<S>)) {
    let m = meta(&u, &u.request, wire_len(w, out));
    o.lock().unwrap().up = Some(m);
    unmode();
    let buffered = |u: &mut Upgrade<S>| u.buffer.take().map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
    for x in &p.protos {
        u = u.use_protocol(x.clone());
    }
    u = use_exts(u, &p.exts);
    u.headers.extend(to_headers(&p.custom[..p.field]).iter());
    let custom = &p.custom[p.field..];
    let h = to_headers(custom);
    match p.act {
        Act::Accept => {
            let r = match (custom.is_empty(), p.limits) {
                (true, None) => u.accept(),
                (true, Some((f, m))) => u.accept_with_limits(f, m),
                (false, None) => u.accept_with(&h),
                (false, Some((f, m))) => u.accept_with_headers_and_limits(&h, f, m),
            };
            match r {
                Ok(c) => {
                    o.lock().unwrap().act = Some(Ok(()));
                    o.lock().unwrap().headers = Some(c.headers().clone());
                    serve(c)
                }
                Err((s, e)) => {
                    o.lock().unwrap().act = Some(Err(format!("{:?}", e.kind())));
                    drop(s);
                }
            }
        }
        Act::Reject => {
            let b = buffered(&mut u);
            let r = if custom.is_empty() { u.reject() } else { u.reject_with(&h) };
            o.lock().unwrap().raw = b;
            match r {
                Ok(mut s) => {
                    o.lock().unwrap().act = Some(Ok(()));
                    let ok = s.write_all(AFTER).is_ok();
                    o.lock().unwrap().send_err = !ok;
                    raw_rest(&mut s, o);
                }
                Err((mut s, e)) => {
                    o.lock().unwrap().act = Some(Err(format!("{:?}", e.kind())));
                    raw_rest(&mut s, o);
                }
            }
        }
        Act::Drop => {
            u.drop();
            o.lock().unwrap().act = Some(Ok(()));
        }
    }
}

pub fn send_all<S: Stream>(c: &mut Client<S>, p: &[M], o: &O) {
    for m in p {
        o.lock().unwrap().tried += 1;
        match c.send_message(&to_borrowed(m)) {
            Ok(()) => o.lock().unwrap().sent_ok += 1,
            Err(_) => {
                o.lock().unwrap().send_err = true;
                return;
            }
        }
    }
}

/// Uses a connected synchronous endpoint that cannot be split.
pub fn serve_plain<S: Stream>(mut c: Client<S>, after: After, msgs: &[M], o: &O, log: &Log, wait: &Wait) {
    log.push(Got::Up);
    send_all(&mut c, msgs, o);
    match after {
        After::Read(api) => drain(&mut c, api, wait, log),
        After::Apart => {
            let (mut s, b) = c.into_stream();
            if let Some((buf, x, y)) = b {
                o.lock().unwrap().raw.extend_from_slice(&buf[x.min(y)..x.max(y)]);
            }
            raw_rest(&mut s, o);
        }
        After::RawReader => raw_rest(c.reader_mut(), o),
    }
}

pub fn serve_sock<S: Stream + Splittable>(mut c: Client<S>, after: After, msgs: &[M], o: &O, log: &Log, wait: &Wait)
where
    S::Reader: Read,
    S::Writer: Write,
{
    if let After::Read(api) = after {
        if matches!(api, Api::SplitMsg | Api::SplitMsgIter | Api::SplitFrame | Api::SplitFrameIter) {
            log.push(Got::Up);
            // what is sent before and after the split must not disturb what was buffered
            let k = msgs.len() / 2;
            send_all(&mut c, &msgs[..k], o);
            match c.split() {
                Ok((mut r, mut wr)) => {
                    if !o.lock().unwrap().send_err {
                        for m in &msgs[k..] {
                            o.lock().unwrap().tried += 1;
                            match wr.send_message(&to_borrowed(m)) {
                                Ok(()) => o.lock().unwrap().sent_ok += 1,
                                Err(_) => {
                                    o.lock().unwrap().send_err = true;
                                    break;
                                }
                            }
                        }
                    }
                    drain_reader(&mut r, api, wait, log);
                    drop(wr);
                }
                Err(e) => log.push(Got::End(format!("split failed: {}", e))),
            }
            return;
        }
    }
    serve_plain(c, after, msgs, o, log, wait)
}

/// Reads raw bytes from an asynchronous stream until the end.
struct RawRest<T> {
    s: T,
    o: O,
}
impl<T: tokio_io::AsyncRead> futures::Future for RawRest<T> {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> futures::Poll<(), ()> {
        let mut b = [0u8; 500];
        loop {
            match self.s.poll_read(&mut b) {
                Ok(futures::Async::Ready(0)) => return Ok(futures::Async::Ready(())),
                Ok(futures::Async::Ready(n)) => self.o.lock().unwrap().raw.extend_from_slice(&b[..n]),
                Ok(futures::Async::NotReady) => return Ok(futures::Async::NotReady),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => return Ok(futures::Async::Ready(())),
            }
        }
    }
}

pub fn serve_async<T>(c: Framed<T, MessageCodec<OwnedMessage>>, after: After, msgs: Vec<M>, o: &O, log: &Log)
where
    T: tokio_io::AsyncRead + tokio_io::AsyncWrite + Send + 'static,
{
    log.push(Got::Up);
    let mut c = c;
    for m in &msgs {
        o.lock().unwrap().tried += 1;
        match block_on(c.send(to_owned(m))) {
            Ok(x) => {
                o.lock().unwrap().sent_ok += 1;
                c = x;
            }
            Err(_) => {
                o.lock().unwrap().send_err = true;
                log.push(Got::End("send failed".into()));
                return;
            }
        }
    }
    match after {
        After::Read(Api::SplitMsg) | After::Read(Api::SplitMsgIter) => {
            let (si, st) = c.split();
            let _ = block_on(Drain { st: Some(st), conv: |m| Got::Msg(to_m(m)), log: log.clone() });
            drop(si);
        }
        After::Read(_) => {
            let _ = block_on(Drain { st: Some(c), conv: |m| Got::Msg(to_m(m)), log: log.clone() });
        }
        _ => {
            let parts = c.into_parts();
            o.lock().unwrap().raw.extend_from_slice(&parts.read_buf);
            o.lock().unwrap().raw_mode = true;
            let _ = block_on(RawRest { s: parts.io, o: o.clone() });
        }
    }
}

fn server_node(sock: SimSock, p: Plan, o: O, log: Log) {
    let w = sock.0.w.clone();
    let out = sock.0.wr;
    let wait = Wait { w: w.clone(), d: sock.0.rd };
    let fail = |e: &HyperIntoWsError, req: bool, buf: &[u8]| {
        let mut x = o.lock().unwrap();
        x.err = Some((cause(e).to_string(), req));
        x.raw.extend_from_slice(buf);
    };
    // only the descriptor's mode is shared, not its lifetime
    let weak = Arc::downgrade(&sock.0);
    let unmode = move || {
        if let Some(s) = weak.upgrade() {
            SimSock(s).set_mode(Mode::Blocking);
        }
    };
    match p.var {
        Var::Stream => {
            sock.set_mode(p.mode);
            match SyncIntoWs::into_ws(sock) {
                Ok(u) => act_sync(u, &p, &o, &w, out, &unmode, |c| serve_sock(c, p.after, &p.msgs, &o, &log, &wait)),
                Err((mut s, req, buf, e)) => {
                    let b = buf.map(|b| b.buf[b.pos..b.cap].to_vec()).unwrap_or_default();
                    fail(&e, req.is_some(), &b);
                    unmode();
                    raw_rest(&mut s, &o);
                }
            }
        }
        Var::Pair => {
            let mut s2 = sock.clone();
            let r = parse_request(&mut BufReader::new(OneByte(&mut s2)));
            drop(s2);
            let req = match r {
                Ok(r) => r,
                Err(_) => {
                    o.lock().unwrap().err = Some(("harness".into(), false));
                    return;
                }
            };
            match SyncIntoWs::into_ws(RequestStreamPair(sock, req)) {
                Ok(u) => act_sync(u, &p, &o, &w, out, &unmode, |c| serve_sock(c, p.after, &p.msgs, &o, &log, &wait)),
                Err((mut s, _req, e)) => {
                    fail(&e, true, &[]);
                    raw_rest(&mut s, &o);
                }
            }
        }
        Var::Hyper => {
            let mut sock = sock;
            let stream: &mut dyn hyper::net::NetworkStream = &mut sock;
            let mut br = BufReader::new(stream);
            match hyper::server::Request::new(&mut br, "10.0.0.2:4000".parse().unwrap()) {
                Err(_) => o.lock().unwrap().err = Some(("harness".into(), false)),
                Ok(req) => match HyperRequest(req).into_ws() {
                    Err((_, e)) => fail(&e, true, &[]),
                    Ok(u) => act_sync(u, &p, &o, &w, out, &unmode, |c| serve_plain(c, p.after, &p.msgs, &o, &log, &wait)),
                },
            }
        }
        Var::Async => {
            sock.set_mode(Mode::Async);
            let keep = sock.clone();
            match block_on(AsyncIntoWs::into_ws(sock)) {
                Err((mut s, req, buf, e)) => {
                    fail(&e, req.is_some(), &buf);
                    keep.set_mode(Mode::Blocking);
                    drop(keep);
                    raw_rest(&mut s, &o);
                }
                Ok(mut u) => {
                    let m = meta(&u, &u.request, wire_len(&w, out));
                    o.lock().unwrap().up = Some(m);
                    for x in &p.protos {
                        u = u.use_protocol(x.clone());
                    }
                    u = use_exts(u, &p.exts);
                    u.headers.extend(to_headers(&p.custom[..p.field]).iter());
                    let custom = &p.custom[p.field..];
                    let h = to_headers(custom);
                    match p.act {
                        Act::Accept => {
                            let f = match (custom.is_empty(), p.limits) {
                                (true, None) => u.accept(),
                                (true, Some((f, m))) => u.accept_with_limits(f, m),
                                (false, None) => u.accept_with(&h),
                                (false, Some((f, m))) => u.accept_with_headers_and_limits(&h, f, m),
                            };
                            match block_on(f) {
                                Ok((c, h)) => {
                                    o.lock().unwrap().act = Some(Ok(()));
                                    o.lock().unwrap().headers = Some(h);
                                    serve_async(c, p.after, p.msgs.clone(), &o, &log)
                                }
                                Err(e) => o.lock().unwrap().act = Some(Err(format!("{:?}", e))),
                            }
                        }
                        Act::Reject => {
                            let f = if custom.is_empty() { u.reject() } else { u.reject_with(&h) };
                            match block_on(f) {
                                Ok(fr) => {
                                    o.lock().unwrap().act = Some(Ok(()));
                                    keep.set_mode(Mode::Blocking);
                                    let parts = fr.into_parts();
                                    let left = parts.write_buf.len();
                                    let mut s = parts.io;
                                    o.lock().unwrap().raw = parts.read_buf.to_vec();
                                    let ok = left == 0 && s.write_all(AFTER).is_ok();
                                    o.lock().unwrap().send_err = !ok;
                                    raw_rest(&mut s, &o);
                                }
                                Err(e) => o.lock().unwrap().act = Some(Err(format!("{:?}", e))),
                            }
                        }
                        Act::Drop => {
                            u.drop();
                            o.lock().unwrap().act = Some(Ok(()));
                        }
                    }
                }
            }
        }
    }
}

fn pick_after(t: &mut crate::tape::Tape, var: Var) -> After {
    match t.weighted(&[50, 30, 20]) {
        0 => After::Read(*t.pick(&match var {
            Var::Hyper => [Api::Msg, Api::MsgIter, Api::Frame, Api::FrameIter, Api::Msg, Api::Frame],
            Var::Async => [Api::Msg, Api::SplitMsg, Api::Msg, Api::SplitMsg, Api::Msg, Api::Msg],
            _ => [Api::Msg, Api::SplitMsg, Api::Frame, Api::SplitFrame, Api::SplitMsgIter, Api::MsgIter],
        })),
        1 => After::Apart,
        _ => if var == Var::Async { After::Apart } else { After::RawReader },
    }
}

/// Reads whatever the endpoint wrote, so that a writer under back-pressure can go on.
pub fn settle(w: &W, out: DirId) -> bool {
    loop {
        if !w.run() {
            return false;
        }
        let mut g = w.lock();
        if g.dirs[out].rx.is_empty() {
            return true;
        }
        g.dirs[out].rx.clear();
        g.wake_writers(out);
    }
}

fn bad(w: &W, props: &[&'static str], class: &str, msg: String) {
    w.lock().viol(props, class, msg)
}

pub fn server_hs(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let t = &mut g.tape;
    let var = match t.weighted(&[35, 12, 13, 40]) {
        0 => Var::Stream,
        1 => Var::Pair,
        2 => Var::Hyper,
        _ => Var::Async,
    };
    let parses = matches!(var, Var::Stream | Var::Async);
    let muts = match id {
        "W09" => *t.pick(&[0, 0, 1, 1, 1, 2, 3]),
        "W14" => *t.pick(&[0, 1, 2]),
        "W10" => *t.pick(&[0, 0, 0, 1]),
        _ => *t.pick(&[0, 0, 0, 0, 1]),
    };
    let rq: Gen = http_gen::request(t, muts, parses);
    let act = match id {
        "W18" => *t.pick(&[Act::Reject, Act::Reject, Act::Reject, Act::Drop]),
        _ => match t.weighted(&[65, 25, 10]) { 0 => Act::Accept, 1 => Act::Reject, _ => Act::Drop },
    };
    let mut custom = if t.chance(500) { http_gen::gen_extras(t, 5) } else { vec![] };
    if act == Act::Reject && t.chance(100) {
        let (n, v) = *t.pick(&[("Location", "http://other.example/"), ("Connection", "close"), ("Content-Length", "6"), ("Connection", "keep-alive")]);
        custom.retain(|c| c.0 != n);
        custom.push((n.into(), v.into()));
    }
    let mut displace = false;
    if act == Act::Accept && t.chance(if id == "W11" { 400 } else { 120 }) {
        displace = true;
        for _ in 0..1 + t.choose(2) {
            let (n, v) = *t.pick(&[("Upgrade", "foo"), ("connection", "close"), ("Sec-WebSocket-Accept", "AAAAAAAAAAAAAAAAAAAAAAAAAAA="), ("sec-websocket-accept", "x"), ("Connection", "keep-alive")]);
            if !custom.iter().any(|c| c.0.eq_ignore_ascii_case(n)) {
                custom.push((n.into(), v.into()));
            }
        }
    }
    let mut field = if t.chance(250) { t.range(0, custom.len()) } else { 0 };
    if custom[..field].iter().any(|a| custom[field..].iter().any(|b| a.0.eq_ignore_ascii_case(&b.0))) {
        field = 0;
    }
    let protos = if t.chance(300) { http_gen::gen_protos(t) } else { vec![] };
    let nex = if t.chance(300) { t.choose(4) } else { 0 };
    let exts: Vec<Ext> = http_gen::gen_exts(t, nex);
    let limits = if t.chance(if id == "W07" { 1000 } else { 100 }) { Some((*t.pick(&[130usize, 300, 4000, u32::MAX as usize]), *t.pick(&[200usize, 1000, 9000, u32::MAX as usize]))) } else { None };
    let mut after = pick_after(t, var);
    if id == "W16" {
        after = After::Read(if var == Var::Async { Api::SplitMsg } else { *t.pick(&[Api::SplitMsg, Api::SplitFrame, Api::SplitMsgIter]) });
    }
    if var == Var::Hyper {
        if let After::Read(Api::SplitMsg) | After::Read(Api::SplitFrame) | After::Read(Api::SplitMsgIter) = after {
            after = After::Read(Api::Msg);
        }
    }
    let mode = if var == Var::Stream && t.chance(150) { Mode::Fail(*t.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut])) } else { Mode::Blocking };
    // ------------------------------------------------------------- what follows the head
    let mut fs: Vec<F> = vec![];
    let mut nid = 0;
    let nb = if t.chance(750) { t.choose(5) } else { 0 };
    let frag_p = *t.pick(&[0, 400]);
    for _ in 0..nb {
        nid += 1;
        let big = *t.pick(&[40, 300, 3000]);
        let m = gen::message(t, nid, gen::Sizes { big, huge: false });
        gen::fragments(t, &m, true, &mut nid, frag_p, 200, &mut fs);
    }
    let mut behind = vec![];
    let mut bounds = vec![0];
    for f in &fs {
        f.encode(&mut behind);
        bounds.push(behind.len());
    }
    if t.chance(50) {
        // more than any initial buffer
        let n = t.range(4000, 20_000);
        let f = F { fin: true, rsv: 0, op: 2, mask: gen::mask(t, true), data: gen::pattern(999, n) };
        f.encode(&mut behind);
    }
    let nm = if act == Act::Accept && t.chance(500) { 1 + t.choose(3) } else { 0 };
    let msgs: Vec<M> = (0..nm)
        .map(|i| {
            let big = *t.pick(&[20, 300]);
            gen::message(t, 500 + i, gen::Sizes { big, huge: false })
        })
        .collect();
    let mut lim = match limits { Some((f, m)) => Limits { frame: f as u64, msg: m as u64 }, None => DEFAULT_LIMITS };
    let frames = matches!(after, After::Read(a) if a.frames());
    let mut limits = limits;
    let mut full = expect(&behind, true, lim, frames);
    while full.viol.as_ref().map_or(false, |v| v.why == "message limit reached exactly") {
        lim.msg += 1;
        limits = Some((lim.frame as usize, lim.msg as usize));
        full = expect(&behind, true, lim, frames);
    }
    let head = rq.bytes.clone();
    let hl = head.len();
    let mut stream = head.clone();
    stream.extend_from_slice(&behind);
    // ------------------------------------------------------------- endings
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum End { Fin, Stall, Rst }
    let cut = if t.chance(match id { "W14" | "W13" => 450, "W15" | "W10" => 60, _ => 150 }) {
        Some(if t.chance(250) { *t.pick(&[0, hl, hl - 1, hl - 2, hl - 4]) } else if t.chance(700) { t.range(0, hl) } else { t.range(0, stream.len()) })
    } else { None };
    if let Some(c) = cut {
        stream.truncate(c);
        if c >= hl {
            behind.truncate(c - hl);
            full = expect(&behind, true, lim, frames);
        } else {
            behind.clear();
            full = expect(&behind, true, lim, frames);
        }
    }
    let end = match t.weighted(&[70, 20, 10]) { 0 => End::Fin, 1 => End::Stall, _ => End::Rst };
    // Pair and Hyper parse the head outside the library
    let end = if !parses && stream.len() < hl { End::Stall } else { end };
    let mut cuts: Vec<usize> = (0..t.choose(5)).map(|_| if t.chance(400) { hl.min(stream.len()) } else { t.range(0, stream.len()) }).collect();
    cuts.push(stream.len());
    cuts.sort_unstable();
    cuts.dedup();
    let wf = if t.chance(match id { "W12" => 600, "W18" => 350, _ => 100 }) {
        let at = if t.chance(700) { t.range(0, 200) } else { t.range(0, 1200) };
        Some((at as u64, *t.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::WriteZero, ErrorKind::Other])))
    } else { None };
    let plan = Plan { var, mode, act, field, custom, protos, exts, limits, after, msgs };
    let (sock, into, out) = SimSock::raw_in(&mut g, w);
    gen::net(&mut g, into);
    gen::coarsen(&mut g, into, stream.len());
    g.dirs[into].eintr_r = 0;
    if var == Var::Async {
        g.dirs[into].spurious_r = *g.tape.pick(&[0, 0, 200]);
        g.dirs[out].spurious_w = *g.tape.pick(&[0, 0, 200]);
    } else {
        g.dirs[out].eintr_w = *g.tape.pick(&[0, 0, 200]);
        if mode != Mode::Blocking {
            g.dirs[into].spurious_r = *g.tape.pick(&[0, 100]);
        }
    }
    g.dirs[out].flaky = 40;
    g.dirs[out].short_w = *g.tape.pick(&[0, 100, 700]);
    g.dirs[out].cap = *g.tape.pick(&[usize::MAX, usize::MAX, 1, 7, 100]);
    g.dirs[out].wfail = wf;
    let desc = format!(
        "server_hs: {:?} {:?} after={:?} mode={:?} causes={:?} head={} behind={} cut={:?} end={:?} custom={} displace={} limits={:?} wfail={:?} net={:?}",
        var, act, after, mode, rq.causes, hl, behind.len(), cut, end, plan.custom.len(), displace, limits, wf, g.dirs[into].deliver
    );
    g.describe(desc.clone());
    if g.keep_trace {
        let s = format!("request: {:?}", String::from_utf8_lossy(&head));
        g.note(s);
        for f in &fs {
            let s = format!("behind: {}", f.short());
            g.note(s);
        }
    }
    g.nontrivial = true;
    drop(g);
    let o: O = Default::default();
    let log = Log::default();
    let (o2, l2, p2) = (o.clone(), log.clone(), plan.clone());
    let node = w.spawn("server", move || server_node(sock, p2, o2, l2));
    let valid = rq.causes.is_empty();
    let c = Case { w, rq: &rq, plan: &plan, o: &o, log: &log, into, out, node, hl, behind: &behind, full: &full, valid, stream_len: stream.len(), wf, desc: &desc, displace };
    let mut sent = 0;
    for x in cuts {
        w.lock().put(into, &stream[sent..x]);
        w.lock().ev(usize::MAX, K::Inject, into as u64, (x - sent) as u64);
        sent = x;
        if !settle(w, out) || !c.verify(false, false) {
            c.last();
            return;
        }
    }
    match end {
        End::Fin => w.lock().do_fin(into),
        End::Rst => {
            let mut g = w.lock();
            g.ev(usize::MAX, K::CutRst, into as u64, 0);
            g.do_rst(into)
        }
        End::Stall => w.lock().ev(usize::MAX, K::Stall, into as u64, 0),
    }
    if settle(w, out) {
        c.verify(end != End::Stall, end == End::Rst);
    }
    c.last();
}

struct Case<'a> {
    w: &'a W,
    rq: &'a Gen,
    plan: &'a Plan,
    o: &'a O,
    log: &'a Log,
    into: DirId,
    out: DirId,
    node: usize,
    hl: usize,
    behind: &'a [u8],
    full: &'a crate::refws::Expect,
    valid: bool,
    stream_len: usize,
    wf: Option<(u64, ErrorKind)>,
    desc: &'a str,
    displace: bool,
}

impl<'a> Case<'a> {
    fn bad(&self, props: &[&'static str], class: &str, msg: String) -> bool {
        bad(self.w, props, class, format!("{} [{}]", msg, self.desc));
        false
    }
    fn last(&self) {
        let (p, stuck) = { let g = self.w.lock(); (g.nodes[self.node].panic.clone(), g.stuck) };
        if let Some(p) = p {
            self.bad(&["W14", "W09", "W10", "W15", "W18"], "panic", format!("panic: {}", p));
        } else if stuck {
            self.bad(&["W14", "W15", "W09"], "livelock", "no progress".into());
        }
    }
    fn verify(&self, closed: bool, reset: bool) -> bool {
        if self.w.lock().nodes[self.node].panic.is_some() {
            return true;
        }
        let o = self.o.lock().unwrap();
        let (avail, wire, done, wclosed) = {
            let g = self.w.lock();
            (g.dirs[self.into].delivered as usize, g.dirs[self.out].sent.clone(), g.nodes[self.node].state == crate::world::NState::Done, g.dirs[self.out].fin)
        };
        let var = self.plan.var;
        let complete = avail >= self.hl;
        let may_accept = self.valid || self.rq.either;
        // ---------------------------------------------------- the verdict on the request
        if let Some((cause, has_req)) = &o.err {
            if cause == "harness" {
                return true;
            }
            if !wire.is_empty() {
                return self.bad(&["W09", "W18"], "wrote-on-refusal", format!("{} bytes written although the request was refused ({})", wire.len(), cause));
            }
            let interrupted = self.plan.mode != Mode::Blocking && (cause == "io" || cause == "parsing");
            if !interrupted {
                if !complete || (reset && (cause == "io" || cause == "parsing")) {
                    let ok = (closed || reset || self.rq.malformed) && (cause == "io" || cause == "parsing");
                    if !ok {
                        return self.bad(&["W09", "W15"], "early-refusal", format!("refused ({}) after {} of {} bytes of the head", cause, avail, self.hl));
                    }
                } else if self.valid {
                    return self.bad(&["W09", "W02"], "refused-valid", format!("a valid request was refused: {}", cause));
                } else if !self.rq.either {
                    let cs = &self.rq.causes;
                    let has = |x: &str| cs.iter().any(|c| *c == x);
                    let ok = match cause.as_str() {
                        "parsing" | "io" => has("malformed"),
                        "upgrade" => has("upgrade") || has("empty upgrade"),
                        "no upgrade" => has("no upgrade") || has("empty upgrade"),
                        "connection" => has("connection") || has("empty connection"),
                        "no connection" => has("no connection") || has("empty connection"),
                        c => has(c),
                    };
                    if !ok {
                        return self.bad(&["W09"], "wrong-error", format!("reported {:?}, the failing conditions are {:?}", cause, cs));
                    }
                    if !self.rq.malformed && !has_req && complete {
                        return self.bad(&["W09"], "request-lost", format!("refused ({}) without returning the parsed request", cause));
                    }
                }
            }
            // the bytes: those behind the head for a parsed request, all of them if it was incomplete
            if var != Var::Hyper && !reset {
                let mut whole = vec![];
                whole.extend_from_slice(&self.rq.bytes[..self.hl.min(self.stream_len)]);
                whole.extend_from_slice(self.behind);
                whole.truncate(avail);
                let from = if *has_req { self.hl.min(whole.len()) } else { 0 };
                let want = &whole[from..];
                let seen_all = self.w.lock().dirs[self.into].rx.is_empty();
                if self.rq.malformed && !*has_req && complete {
                    let b = &whole[self.hl.min(whole.len())..];
                    if seen_all && !(whole.ends_with(&o.raw) && o.raw.len() >= b.len()) {
                        return self.bad(&["W09", "W10"], "bytes-lost", format!("{} bytes given back after a malformed head with {} behind it", o.raw.len(), b.len()));
                    }
                } else if seen_all && o.raw != want && !(from == 0 && unblank(&o.raw) == unblank(want)) {
                    return self.bad(&["W09", "W10"], "bytes-lost", format!("refusal ({}) gave back {} bytes, {} are right: {}", cause, o.raw.len(), want.len(), diff(&o.raw, want)));
                }
            }
            if closed && !done {
                return self.bad(&["W14", "W15"], "hang", "returned stream does not end".into());
            }
            return true;
        }
        let up = match &o.up {
            None => {
                if !wire.is_empty() {
                    return self.bad(&["W09", "W18"], "early-write", format!("{} bytes written before the upgrade was decided", wire.len()));
                }
                if complete {
                    let mut t = vec!["W15", "W09"];
                    if closed { t.push("W14") }
                    return self.bad(&t, "no-result", format!("the whole head ({} bytes) has arrived, no result", self.hl));
                }
                if closed {
                    return self.bad(&["W14", "W15", "W09"], "hang", format!("the stream ended after {} of {} head bytes, no result", avail, self.hl));
                }
                return true;
            }
            Some(u) => u,
        };
        if !complete {
            return self.bad(&["W09"], "early-offer", format!("upgrade offered after {} of {} bytes of the head", avail, self.hl));
        }
        if !may_accept {
            return self.bad(&["W09"], "offered-invalid", format!("an upgrade was offered although: {:?}", self.rq.causes));
        }
        if up.wire != 0 {
            return self.bad(&["W09", "W18"], "early-write", format!("{} bytes written before the application decided", up.wire));
        }
        if !self.meta_ok(up) {
            return false;
        }
        // ---------------------------------------------------- the action
        let fault = self.wf.map_or(false, |(at, _)| wire.len() as u64 >= at);
        let head = match parse_head(&wire) {
            Ok(h) => h,
            Err(e) => return self.bad(&["W20", "W09", "W18"], "bad-reply", format!("reply is not a well-formed head: {}", e)),
        };
        match self.plan.act {
            Act::Drop => {
                if !wire.is_empty() {
                    return self.bad(&["W18"], "drop-wrote", format!("{} bytes written by a dropped upgrade", wire.len()));
                }
                if o.act.is_some() && !wclosed {
                    return self.bad(&["W18"], "drop-open", "the connection of a dropped upgrade stays open".into());
                }
                return true;
            }
            _ => {}
        }
        let what = if self.plan.act == Act::Accept { "accept" } else { "reject" };
        let p_act: &'static str = if self.plan.act == Act::Accept { "W09" } else { "W18" };
        match &o.act {
            None => {
                if !reset {
                    return self.bad(&["W15", p_act, "W12"], "no-reply", format!("{} has not finished, {} bytes written", what, wire.len()));
                }
                return true;
            }
            Some(Err(e)) => {
                if !fault && !reset {
                    return self.bad(&[p_act, "W12"], "reply-failed", format!("{} failed without cause: {}", what, e));
                }
                if head.is_some() && !reset {
                    return self.bad(&[p_act, "W12"], "reply-failed", format!("{} failed ({}) although the whole reply was written", what, e));
                }
                let start: &[u8] = if self.plan.act == Act::Accept { b"HTTP/1.1 101 " } else { b"HTTP/1.1 400 " };
                let k = start.len().min(wire.len());
                if wire[..k] != start[..k] {
                    return self.bad(&["W12", p_act], "not-a-prefix", format!("after a transport error the wire holds {:?}", String::from_utf8_lossy(&wire)));
                }
                return true;
            }
            Some(Ok(())) => {}
        }
        let head = match head {
            Some(h) => h,
            None => return self.bad(&[p_act, "W12", "W20"], "reply-incomplete", format!("{} succeeded but the reply is incomplete: {:?}", what, String::from_utf8_lossy(&wire))),
        };
        let want = if self.plan.act == Act::Accept { "HTTP/1.1 101 " } else { "HTTP/1.1 400 " };
        if !head.line.starts_with(want) {
            return self.bad(&[p_act, "W20"], "status", format!("status line {:?}", head.line));
        }
        let tail = &wire[head.len..];
        // headers the application asked for
        let reserved = ["upgrade", "connection", "sec-websocket-accept"];
        for (n, v) in &self.plan.custom {
            if self.plan.act == Act::Accept && reserved.contains(&n.to_ascii_lowercase().as_str()) {
                continue;
            }
            let have = head.get(n);
            let all: Vec<&str> = self.plan.custom.iter().filter(|c| c.0.eq_ignore_ascii_case(n)).map(|c| c.1.as_str()).collect();
            if have != all {
                return self.bad(&["W11", p_act], "custom-header", format!("custom header {}: {} was sent as {:?}", n, v, have));
            }
        }
        if head.tokens("Sec-WebSocket-Protocol") != self.plan.protos {
            return self.bad(&["W11"], "protocols", format!("protocols {:?} were sent as {:?}", self.plan.protos, head.get("Sec-WebSocket-Protocol")));
        }
        let ex: Vec<String> = self.plan.exts.iter().map(|e| norm(&ext_str(e))).collect();
        let hx: Vec<String> = head.tokens("Sec-WebSocket-Extensions").iter().map(|s| norm(s)).collect();
        if ex != hx {
            return self.bad(&["W11"], "extensions", format!("extensions {:?} were sent as {:?}", ex, head.get("Sec-WebSocket-Extensions")));
        }
        if self.plan.act == Act::Reject {
            let conn_up = head.tokens("Connection").iter().any(|t| t.eq_ignore_ascii_case("upgrade"));
            if !head.get("Upgrade").is_empty() || conn_up || !head.get("Sec-WebSocket-Accept").is_empty() {
                return self.bad(&["W18"], "upgrade-headers", format!("a rejection carries upgrade headers: {:?}", head.headers));
            }
            // what the application announced it writes itself
            let own = self.plan.custom.iter().any(|c| c.0 == "Content-Length");
            let body: usize = if own { 0 } else { head.one("Content-Length").and_then(|s| s.parse().ok()).unwrap_or(0) };
            if tail.len() < body {
                return self.bad(&["W18"], "reply-incomplete", "rejection body incomplete".into());
            }
            let tail = &tail[body..];
            let ok = tail == AFTER || (tail.len() < AFTER.len() && AFTER.starts_with(tail) && o.send_err && fault);
            if !ok {
                return self.bad(&["W18", "W12"], "reject-stream", format!("after the rejection the wire holds {:?}", String::from_utf8_lossy(tail)));
            }
            return self.raw_ok(&o.raw, avail, closed, reset, done, &["W18", "W10"]);
        }
        let want = accept_for(&self.rq.key);
        if head.get("Sec-WebSocket-Accept") != vec![want.as_str()] {
            let mut t = vec!["W09"];
            if self.displace { t.push("W11") }
            return self.bad(&t, "accept-value", format!("accept value {:?}, expected {:?}", head.get("Sec-WebSocket-Accept"), want));
        }
        let u: Vec<String> = head.tokens("Upgrade");
        let conn = head.tokens("Connection");
        if u.len() != 1 || !u[0].eq_ignore_ascii_case("websocket") || !conn.iter().any(|t| t.eq_ignore_ascii_case("upgrade")) {
            let mut t = vec!["W09"];
            if self.displace { t.push("W11") }
            return self.bad(&t, "upgrade-headers", format!("acceptance with Upgrade {:?} and Connection {:?}", head.get("Upgrade"), head.get("Connection")));
        }
        if let Some(h) = &o.headers {
            // what the server application is told was sent is what was sent
            for (n, vs) in raw_headers(h) {
                let sent: Vec<String> = head.get(&n).iter().map(|s| s.to_string()).collect();
                let told: Vec<String> = vs.iter().map(|v| String::from_utf8_lossy(v).trim().to_string()).collect();
                if sent != told {
                    return self.bad(&["W11"], "reported-headers", format!("client.headers() says {}: {:?}, the wire {:?}", n, told, sent));
                }
            }
        }
        // ---------------------------------------------------- frames sent behind the reply
        match strict_decode(tail, false) {
            Err(e) => return self.bad(&["W20", "W12", "W06"], "bad-frames", format!("frames behind the reply: {}", e)),
            Ok((fs, left)) => {
                if left > 0 && !fault && !reset {
                    return self.bad(&["W12", "W15"], "torn-frame", format!("{} bytes of an unfinished frame behind the reply", left));
                }
                for (i, (f, _)) in fs.iter().enumerate() {
                    let m = M::from_parts(f.op, &f.data);
                    if !f.fin || f.rsv != 0 || m.as_ref() != self.plan.msgs.get(i) {
                        return self.bad(&["W01", "W12", "W20"], "wrong-frame", format!("frame {} behind the reply is {}", i, f.short()));
                    }
                }
                if fs.len() < o.sent_ok {
                    return self.bad(&["W01", "W12"], "lost-frame", format!("{} sends succeeded, {} frames are on the wire", o.sent_ok, fs.len()));
                }
                if o.send_err && !fault && !reset {
                    return self.bad(&["W12"], "send-failed", "a send failed without cause".into());
                }
                if fault || reset {
                    return true;
                }
            }
        }
        // ---------------------------------------------------- bytes received behind the head
        if o.raw_mode || matches!(self.plan.after, After::Apart | After::RawReader) {
            return self.raw_ok(&o.raw, avail, closed, reset, done, &["W10"]);
        }
        let got = self.log.snapshot();
        let got = match got.first() {
            Some(Got::Up) => &got[1..],
            _ => return true,
        };
        match check_recv(self.full, got, avail - self.hl, closed, reset) {
            Ok(()) => true,
            Err((class, msg)) => {
                let mut t = vec!["W10", "W02", "W05"];
                if self.plan.limits.is_some() { t.push("W07") }
                if matches!(self.plan.after, After::Read(Api::SplitMsg) | After::Read(Api::SplitFrame) | After::Read(Api::SplitMsgIter)) { t.push("W16") }
                if class == "missing" || class == "hang" { t.push("W15") }
                if class == "hang" { t.extend(["W13", "W14"]) }
                self.bad(&t, class, msg)
            }
        }
    }
    fn raw_ok(&self, raw: &[u8], avail: usize, closed: bool, reset: bool, done: bool, tags: &[&'static str]) -> bool {
        let n = (avail - self.hl).min(self.behind.len());
        let want = &self.behind[..n];
        let ok = raw == want || (reset && want.starts_with(raw));
        if !ok {
            return self.bad(tags, "bytes-lost", format!("{} bytes followed the head, {} were given back: {}", want.len(), raw.len(), diff(raw, want)));
        }
        if closed && !done {
            return self.bad(&["W15", "W14"], "hang", "the raw stream does not end".into());
        }
        true
    }
    fn meta_ok(&self, m: &Meta) -> bool {
        if self.rq.either {
            return true;
        }
        let g = self.rq;
        let mut want: Vec<(String, Vec<Vec<u8>>)> = vec![];
        for (n, v) in &g.headers {
            match want.iter_mut().find(|w| w.0.eq_ignore_ascii_case(n)) {
                Some(w) => w.1.push(v.clone().into_bytes()),
                None => want.push((n.clone(), vec![v.clone().into_bytes()])),
            }
        }
        for (n, vs) in &want {
            if g.junk.contains(n) {
                continue;
            }
            let have: Vec<&(String, Vec<Vec<u8>>)> = m.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).collect();
            let trim = |v: &Vec<Vec<u8>>| v.iter().map(|x| String::from_utf8_lossy(x).trim().to_string()).collect::<Vec<_>>();
            if have.len() != 1 || trim(&have[0].1) != trim(vs) {
                return self.bad(&["W11"], "request-header", format!("header {} arrived as {:?}, sent {:?}", n, have.iter().map(|h| trim(&h.1)).collect::<Vec<_>>(), trim(vs)));
            }
        }
        if m.headers.len() != want.len() {
            return self.bad(&["W11"], "request-header", format!("{} header names arrived, {} were sent", m.headers.len(), want.len()));
        }
        let key = crate::refws::unb64(&g.key);
        let pairs = [
            ("protocols", format!("{:?}", m.protos), format!("{:?}", g.protos)),
            ("extensions", format!("{:?}", m.exts), format!("{:?}", g.exts)),
            ("key", format!("{:?}", m.key.map(|k| k.to_vec())), format!("{:?}", key)),
            ("version", m.version13.to_string(), g.version13.to_string()),
            ("uri", m.uri.clone(), g.target.clone()),
            ("origin", format!("{:?}", m.origin), format!("{:?}", g.origin)),
        ];
        for (n, a, b) in pairs {
            if a != b && g.junk.is_empty() {
                return self.bad(&["W11"], "request-meta", format!("{}: the upgrade reports {}, the request says {}", n, a, b));
            }
        }
        true
    }
}

/// Blank lines before a request line mean nothing.
fn unblank(b: &[u8]) -> &[u8] {
    let mut b = b;
    while b.starts_with(b"\r\n") {
        b = &b[2..];
    }
    b
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("they agree on the first {}", k)
}
