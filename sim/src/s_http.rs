//! Scenario "http": the HTTP codecs on their own. A client and a server that speak HTTP through
//! `HttpClientCodec` and `HttpServerCodec`, or one of them against a raw peer: several requests and
//! replies on one connection, pipelined or not, and perhaps a switch to WebSocket messages by
//! exchanging the codec.
use crate::ep::*;
use crate::exec;
use crate::gen::{self, Sizes};
use crate::http_gen;
use crate::refws::{parse_head, strict_decode, F, M};
use crate::tape::Tape;
use crate::world::{DirId, Inner, Mode, NState, W};
use futures::{Async, AsyncSink, Sink, Stream};
use hyper::header::Headers;
use hyper::http::h1::Incoming;
use hyper::http::RawStatus;
use hyper::method::Method;
use hyper::status::StatusCode;
use hyper::uri::RequestUri;
use hyper::version::HttpVersion;
use std::sync::{Arc, Mutex};
use tokio_codec::{Decoder, Encoder, Framed};
use websocket::codec::http::{HttpClientCodec, HttpServerCodec};
use websocket::codec::ws::{Context, MessageCodec};
use websocket::ws::util::update_framed_codec;
use websocket::OwnedMessage;

const TAGS: &[&str] = &["W24"];

/// One head: the first line in its parts, and the values of every header.
#[derive(Clone, PartialEq, Debug)]
struct H {
    a: String,
    b: String,
    v10: bool,
    headers: Vec<(String, Vec<Vec<u8>>)>,
}
impl H {
    fn line(&self, request: bool) -> String {
        let v = if self.v10 { "HTTP/1.0" } else { "HTTP/1.1" };
        if request {
            format!("{} {} {}", self.a, self.b, v)
        } else {
            format!("{} {} {}", v, self.a, self.b)
        }
    }
    fn short(&self) -> String {
        let n: usize = self.headers.iter().map(|h| h.1.len()).sum();
        format!("[{} {} {}{} header lines]", self.a, self.b.chars().take(60).collect::<String>(), if self.v10 { "1.0 " } else { "" }, n)
    }
    fn lines(&self) -> Vec<(String, String)> {
        self.headers.iter().flat_map(|(n, vs)| vs.iter().map(move |v| (n.clone(), String::from_utf8_lossy(v).into_owned()))).collect()
    }
}

#[derive(Clone, PartialEq, Debug)]
enum It {
    Head(H),
    Msg(M),
}
impl It {
    fn short(&self) -> String {
        match self {
            It::Head(h) => h.short(),
            It::Msg(m) => m.short(),
        }
    }
}

#[derive(Clone)]
enum Step {
    /// and whether to flush at once
    Send(It, bool),
    Recv,
}

#[derive(Clone, Debug)]
enum Ev {
    Got(It),
    /// one more item sent (and flushed, or left in the buffer)
    Sent,
    /// the end of the stream, or an error while reading
    End,
    Err(String),
    SendErr(String),
}
type Seen = Arc<Mutex<Vec<Ev>>>;

fn headers(h: &H) -> Headers {
    let mut hs = Headers::new();
    for (n, v) in &h.headers {
        hs.set_raw(n.clone(), v.clone());
    }
    hs
}
fn version(h: &H) -> HttpVersion {
    if h.v10 { HttpVersion::Http10 } else { HttpVersion::Http11 }
}
fn head<S>(inc: Incoming<S>, f: impl FnOnce(S) -> (String, String)) -> It {
    let (a, b) = f(inc.subject);
    let mut hs: Vec<(String, Vec<Vec<u8>>)> = vec![];
    for v in inc.headers.iter() {
        let n = v.name().to_string();
        let raw = inc.headers.get_raw(&n).map(|r| r.to_vec()).unwrap_or_default();
        hs.push((n, raw));
    }
    It::Head(H { a, b, v10: inc.version == HttpVersion::Http10, headers: hs })
}
fn of_request(r: Incoming<(Method, RequestUri)>) -> It {
    head(r, |(m, u)| (m.to_string(), u.to_string()))
}
fn of_reply(r: Incoming<RawStatus>) -> It {
    head(r, |s| (s.0.to_string(), s.1.to_string()))
}
fn to_request(i: It) -> Incoming<(Method, RequestUri)> {
    match i {
        It::Head(h) => Incoming { version: version(&h), subject: (h.a.parse().expect("method"), h.b.parse().expect("uri")), headers: headers(&h) },
        _ => unreachable!(),
    }
}
fn to_reply(i: It) -> Incoming<StatusCode> {
    match i {
        It::Head(h) => Incoming { version: version(&h), subject: StatusCode::from_u16(h.a.parse().unwrap()), headers: headers(&h) },
        _ => unreachable!(),
    }
}
fn to_msg(i: It) -> OwnedMessage {
    match i {
        It::Msg(m) => to_owned(&m),
        _ => unreachable!(),
    }
}

/// Takes the steps one after another; None when the connection failed or ended before the last.
fn talk<K, C, O, I>(f: Framed<K, C>, steps: &[Step], to: fn(It) -> O, from: fn(I) -> It, seen: &Seen) -> Option<Framed<K, C>>
where
    K: ASock,
    C: Encoder<Item = O> + Decoder<Item = I> + Send + 'static,
    O: Send + 'static,
    I: Send + 'static,
    <C as Encoder>::Error: std::fmt::Debug + Send + 'static,
    <C as Decoder>::Error: std::fmt::Debug + Send + 'static,
{
    let mut f = f;
    for s in steps {
        f = match s {
            Step::Recv => recv(f, from, seen)?,
            Step::Send(it, flush) => {
                let mut item = Some(to(it.clone()));
                let mut fr = Some(f);
                let flush = *flush;
                let r = exec::block_on(futures::future::poll_fn(move || -> Result<Async<Framed<K, C>>, <C as Encoder>::Error> {
                    if let Some(i) = item.take() {
                        match fr.as_mut().unwrap().start_send(i)? {
                            AsyncSink::NotReady(i) => {
                                item = Some(i);
                                return Ok(Async::NotReady);
                            }
                            AsyncSink::Ready => {}
                        }
                    }
                    if flush {
                        futures::try_ready!(fr.as_mut().unwrap().poll_complete());
                    }
                    Ok(Async::Ready(fr.take().unwrap()))
                }));
                match r {
                    Ok(f) => {
                        seen.lock().unwrap().push(Ev::Sent);
                        f
                    }
                    Err(e) => {
                        seen.lock().unwrap().push(Ev::SendErr(format!("{:?}", e)));
                        return None;
                    }
                }
            }
        };
    }
    Some(f)
}

fn recv<K, C, I>(f: Framed<K, C>, from: fn(I) -> It, seen: &Seen) -> Option<Framed<K, C>>
where
    K: ASock,
    C: Decoder<Item = I> + Send + 'static,
    I: Send + 'static,
    C::Error: std::fmt::Debug + Send + 'static,
{
    let r = exec::block_on(f.into_future());
    let mut s = seen.lock().unwrap();
    match r {
        Ok((Some(i), f)) => {
            s.push(Ev::Got(from(i)));
            Some(f)
        }
        Ok((None, _)) => {
            s.push(Ev::End);
            None
        }
        Err((e, _)) => {
            s.push(Ev::Err(format!("{:?}", e)));
            None
        }
    }
}

/// What one side does: HTTP first, then perhaps messages.
struct Script {
    client: bool,
    http: Vec<Step>,
    ws: Option<Vec<Step>>,
}

fn side<K: ASock>(sock: K, s: Script, seen: Seen) {
    fn rest<K, C, I>(mut f: Framed<K, C>, from: fn(I) -> It, seen: &Seen)
    where
        K: ASock,
        C: Decoder<Item = I> + Send + 'static,
        I: Send + 'static,
        C::Error: std::fmt::Debug + Send + 'static,
    {
        while let Some(x) = recv(f, from, seen) {
            f = x;
        }
    }
    let ws = |f: Framed<K, MessageCodec<OwnedMessage>>| {
        let f = talk(f, s.ws.as_ref().unwrap(), to_msg, |m| It::Msg(to_m(m)), &seen);
        if let Some(f) = f {
            rest(f, |m| It::Msg(to_m(m)), &seen);
        }
    };
    if s.client {
        let f = match talk(HttpClientCodec.framed(sock), &s.http, to_request, of_reply, &seen) {
            Some(f) => f,
            None => return,
        };
        match s.ws {
            Some(_) => ws(update_framed_codec(f, MessageCodec::default(Context::Client))),
            None => rest(f, of_reply, &seen),
        }
    } else {
        let f = match talk(HttpServerCodec.framed(sock), &s.http, to_reply, of_request, &seen) {
            Some(f) => f,
            None => return,
        };
        match s.ws {
            Some(_) => ws(update_framed_codec(f, MessageCodec::default(Context::Server))),
            None => rest(f, of_request, &seen),
        }
    }
}

fn node(conn: Conn, s: Script, seen: Seen) {
    match conn {
        Conn::Sim(x) => {
            x.set_mode(Mode::Async);
            side(x, s, seen)
        }
        Conn::Pair(x) => {
            x.set_mode(Mode::Async);
            side(rw_pair(x), s, seen)
        }
        Conn::Fd(fd, ..) => exec::with_reactor(|| side(tokio_tcp(fd), s, seen)),
    }
}

// ------------------------------------------------------------------ generation

fn gen_head(t: &mut Tape, request: bool, last: bool, raw: bool) -> H {
    let (a, b) = if request {
        match t.choose(8) {
            0 => ("OPTIONS".into(), "*".into()),
            1 => ("CONNECT".into(), "sim.example:443".into()),
            2 => ("GET".into(), "http://sim.example/abs?x=1".into()),
            3 => (t.pick(&["BREW", "PROPFIND", "get", "M-SEARCH"]).to_string(), http_gen::gen_target(t)),
            _ => (t.pick(&["GET", "GET", "POST", "PUT", "HEAD", "DELETE", "PATCH", "TRACE"]).to_string(), http_gen::gen_target(t)),
        }
    } else {
        let code = if last { 101 } else { *t.pick(&[200u16, 404, 500, 301, 418, 503, 201, 304, 400, 426]) };
        let reason = StatusCode::from_u16(code).canonical_reason().unwrap().to_string();
        match t.choose(5) {
            // the codec always writes the usual reason; others write what they like
            0 if raw => (code.to_string(), t.pick(&["Because", "", "All is well: go on", "No"]).to_string()),
            1 if raw => (t.pick(&["299", "599", "999", "100"]).to_string(), "Odd".into()),
            _ => (code.to_string(), reason),
        }
    };
    let mut hs: Vec<(String, Vec<Vec<u8>>)> = vec![];
    for (n, v) in http_gen::gen_extras(t, 6) {
        if hs.iter().all(|h| !h.0.eq_ignore_ascii_case(&n)) {
            hs.push((n, vec![v.into_bytes()]));
        }
    }
    if t.chance(200) {
        let n = t.range(2, 6);
        hs.push(("X-Several".into(), (0..n).map(|i| format!("v{}", i).into_bytes()).collect()));
    }
    if t.chance(15) {
        let n = t.range(20, 70);
        hs.extend((0..n).map(|i| (format!("X-More-{}", i), vec![b"m".to_vec()])));
    }
    if t.chance(60) {
        let n = t.range(300, 4000);
        hs.push(("X-Long".into(), vec![b"abcdefghijk".iter().copied().cycle().take(n).collect()]));
    }
    if t.chance(500) {
        hs.push(("Host".into(), vec![b"sim.example:8080".to_vec()]));
    }
    H { a, b, v10: t.chance(60), headers: hs }
}

/// A head no parser may accept.
fn bad_head(t: &mut Tape, request: bool) -> Vec<u8> {
    let first = if request { "GET /x HTTP/1.1\r\n" } else { "HTTP/1.1 200 OK\r\n" };
    let s = match t.choose(7) {
        0 => format!("{}no colon here\r\n\r\n", first),
        1 => format!("{}Bad Name: x\r\n\r\n", first),
        2 => format!("{}X-Nul: a\0b\r\n\r\n", first),
        3 => format!("{}: x\r\n\r\n", first),
        4 => if request { "GET /x\r\n\r\n".into() } else { "HTTP/1.1 abc OK\r\n\r\n".into() },
        5 => if request { "GET /x HTTP/3.7\r\n\r\n".into() } else { "HTTP/3.7 200 OK\r\n\r\n".into() },
        _ => "\u{1}\u{2}garbage\r\n\r\n".into(),
    };
    s.into_bytes()
}

fn steps(g: &mut Inner, v: Vec<Option<It>>, lazy: bool) -> Vec<Step> {
    let p = *g.tape.pick(&[500, 100, 950]);
    let mut out = vec![];
    for i in 0..v.len() {
        out.push(match &v[i] {
            None => Step::Recv,
            Some(it) => {
                // what is left in the buffer goes out with the next
                let more = matches!(v.get(i + 1), Some(Some(_))) || lazy && v[i + 1..].iter().any(|x| x.is_some());
                Step::Send(it.clone(), !more || g.tape.chance(p))
            }
        });
    }
    out
}

pub fn http(w: &W, _id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    // which ends are the library's
    let real = *g.tape.pick(&[[true, true], [true, false], [false, true]]);
    let k = match g.tape.weighted(&[300, 20, 4]) {
        0 => 1 + g.tape.choose(6) as usize,
        1 => g.tape.range(7, 30),
        _ => g.tape.range(100, 300),
    };
    let ws = g.tape.chance(500);
    // heads[i]: what side i sends (0 the client)
    let heads: [Vec<H>; 2] = [0, 1].map(|i| (0..k).map(|n| gen_head(&mut g.tape, i == 0, ws && n + 1 == k, !real[i])).collect());
    let msgs: [Vec<M>; 2] = [0, 1].map(|i| {
        let n = if ws { g.tape.choose(5) as u32 } else { 0 };
        (0..n).map(|j| gen::message(&mut g.tape, i * 100 + j, Sizes { big: 1500, huge: false })).collect()
    });
    let window = if g.tape.choose(2) == 0 { 1 } else { g.tape.range(1, k) };
    let bad_at: Option<usize> = if real[0] != real[1] && g.tape.chance(200) { Some(g.tape.choose(k as u32) as usize) } else { None };
    // ------------------------------------------------- scripts
    let mut c: Vec<Option<It>> = vec![];
    let mut s: Vec<Option<It>> = vec![];
    let mut due = 0;
    for i in 0..k {
        c.push(Some(It::Head(heads[0][i].clone())));
        due += 1;
        while due >= window || i + 1 == k && due > 0 {
            c.push(None);
            due -= 1;
        }
        s.push(None);
        s.push(Some(It::Head(heads[1][i].clone())));
    }
    // messages: the server's, then the client's
    let mw: [Vec<Option<It>>; 2] = [
        msgs[1].iter().map(|_| None).chain(msgs[0].iter().map(|m| Some(It::Msg(m.clone())))).collect(),
        msgs[1].iter().map(|m| Some(It::Msg(m.clone()))).chain(msgs[0].iter().map(|_| None)).collect(),
    ];
    let mut scripts = vec![];
    for (i, v) in [c, s].into_iter().enumerate() {
        let mut all = steps(&mut g, v.iter().cloned().chain(mw[i].iter().cloned()).collect(), !real[1 - i]);
        let tail = all.split_off(v.len());
        scripts.push(Script { client: i == 0, http: all, ws: if ws { Some(tail) } else { None } });
    }
    // ------------------------------------------------- the network
    let (up, down) = g.new_conn();
    let into = [down, up];
    let out = [up, down];
    let mut total = [0usize; 2];
    for i in 0..2 {
        total[i] = heads[i].iter().map(|h| h.line(i == 0).len() + 6 + h.lines().iter().map(|l| l.0.len() + l.1.len() + 4).sum::<usize>()).sum::<usize>()
            + msgs[i].iter().map(|m| m.payload().len() + 14).sum::<usize>();
    }
    let mut cut = false;
    for i in 0..2 {
        let d = out[i];
        gen::net(&mut g, d);
        gen::coarsen(&mut g, d, total[i]);
        if window == 1 && real[1 - i] && real[i] && g.tape.chance(400) {
            let c = *g.tape.pick(&[1usize, 5, 60, 600]);
            g.dirs[d].cap = c.max(total[i] / 300);
        }
        if g.tape.chance(100) {
            gen::cut(&mut g, d, total[i]);
            cut = true;
        }
    }
    let tcp = [0, 1].map(|_| g.tape.chance(300));
    for i in 0..2 {
        if real[i] && !tcp[i] {
            let p = *g.tape.pick(&[0, 100, 400]);
            g.dirs[into[i]].spurious_r = p;
            let p = *g.tape.pick(&[0, 100, 400]);
            g.dirs[out[i]].spurious_w = p;
        }
    }
    let desc = format!("http: {} / {}, {} requests, {} at a time{}{}; net {:?}/{:?} caps {:?}/{:?} cuts {:?}/{:?}",
        if real[0] { "client" } else { "raw client" }, if real[1] { "server" } else { "raw server" }, k, window,
        if ws { format!(", then {}/{} messages", msgs[0].len(), msgs[1].len()) } else { String::new() },
        match bad_at { Some(n) => format!(", head {} malformed", n), None => String::new() },
        g.dirs[up].deliver, g.dirs[down].deliver, g.dirs[up].cap, g.dirs[down].cap, g.dirs[up].cut, g.dirs[down].cut);
    g.describe(desc.clone());
    g.nontrivial = k > 1 || ws;
    // ------------------------------------------------- a raw end says everything at once
    // ends[i]: where each item side i sends ends; None for a malformed one
    let mut raw_ends: [Option<Vec<(usize, Option<It>)>>; 2] = [None, None];
    for i in 0..2 {
        if real[i] {
            continue;
        }
        let mut b = vec![];
        let mut ends = vec![];
        for (n, h) in heads[i].iter().enumerate() {
            if bad_at == Some(n) {
                b.extend(bad_head(&mut g.tape, i == 0));
                ends.push((b.len(), None));
                break;
            }
            if g.tape.chance(60) {
                b.extend_from_slice(*g.tape.pick(&[&b"\r\n"[..], b"\r\n\r\n", b"\r\n\r\n\r\n"]));
            }
            b.extend(http_gen::write_head(&mut g.tape, &h.line(i == 0), &h.lines()));
            ends.push((b.len(), Some(It::Head(h.clone()))));
        }
        if bad_at.is_none() {
            for m in &msgs[i] {
                let mut id = 900;
                let mut fs: Vec<F> = vec![];
                gen::fragments(&mut g.tape, m, i == 0, &mut id, 300, 0, &mut fs);
                for f in fs {
                    f.encode(&mut b);
                }
                ends.push((b.len(), Some(It::Msg(m.clone()))));
            }
        }
        raw_ends[i] = Some(ends);
        g.put(out[i], &b);
    }
    let seen = [Seen::default(), Seen::default()];
    let mut conns = vec![];
    for i in 0..2 {
        conns.push(if real[i] { Some(Conn::any(&mut g, w, into[i], out[i], tcp[i])) } else { None });
    }
    drop(g);
    for (i, (c, s)) in conns.into_iter().zip(scripts).enumerate() {
        if let Some(c) = c {
            let l = seen[i].clone();
            w.spawn(if i == 0 { "client" } else { "server" }, move || node(c, s, l));
        }
    }
    // a peer that only talks: what it is sent is read by nobody, which the pipe allows
    let run = Run { real, into, out, heads, msgs, cut, bad: bad_at.is_some(), raw_ends, seen, desc };
    let ok = w.run();
    if ok {
        check(&mut w.lock(), &run, false);
        let mut g = w.lock();
        if g.viols.is_empty() {
            for d in into {
                g.do_fin(d);
            }
            drop(g);
            if w.run() {
                check(&mut w.lock(), &run, true);
            }
        }
    }
    let mut g = w.lock();
    let pan: Vec<(String, String)> = g.nodes.iter().filter_map(|n| n.panic.clone().map(|p| (n.name.clone(), p))).collect();
    for (n, p) in pan {
        g.viol(&["W24", "W14"], "panic", format!("{} panicked: {} [{}]", n, p, run.desc));
    }
    if g.stuck {
        g.viol(&["W24", "W15", "W14"], "livelock", format!("no progress [{}]", run.desc));
    }
}

struct Run {
    real: [bool; 2],
    into: [DirId; 2],
    out: [DirId; 2],
    heads: [Vec<H>; 2],
    msgs: [Vec<M>; 2],
    cut: bool,
    bad: bool,
    raw_ends: [Option<Vec<(usize, Option<It>)>>; 2],
    seen: [Seen; 2],
    desc: String,
}

/// Compares two heads; header names without regard to case.
fn same(a: &It, b: &It) -> Result<(), String> {
    match (a, b) {
        (It::Msg(a), It::Msg(b)) if a == b => Ok(()),
        (It::Head(a), It::Head(b)) => {
            if (&a.a, &a.b, a.v10) != (&b.a, &b.b, b.v10) {
                return Err(format!("first line differs: {} instead of {}", a.short(), b.short()));
            }
            if a.headers.len() != b.headers.len() {
                return Err(format!("{} headers instead of {}", a.headers.len(), b.headers.len()));
            }
            for (n, v) in &b.headers {
                match a.headers.iter().find(|h| h.0.eq_ignore_ascii_case(n)) {
                    Some(h) if h.1 == *v => {}
                    Some(h) => return Err(format!("header {} is {:?} instead of {:?}", n, h.1.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>(), v.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>())),
                    None => return Err(format!("header {} is missing", n)),
                }
            }
            Ok(())
        }
        (a, b) => Err(format!("{} instead of {}", a.short(), b.short())),
    }
}

/// Where each item the library's side `i` sent ends, checked strictly.
fn wire(g: &mut Inner, r: &Run, i: usize) -> Option<Vec<(usize, Option<It>)>> {
    let b = g.dirs[r.out[i]].sent.clone();
    let who = if i == 0 { "client" } else { "server" };
    let mut pos = 0;
    let mut ends = vec![];
    for (n, h) in r.heads[i].iter().enumerate() {
        if pos >= b.len() {
            return Some(ends);
        }
        match parse_head(&b[pos..]) {
            Err(e) => {
                g.viol(&["W24", "W20"], "wire", format!("the {}'s head {} is malformed: {} [{}]", who, n, e, r.desc));
                return None;
            }
            Ok(None) => return Some(ends),
            Ok(Some(x)) => {
                let want = h.lines();
                let names: Vec<&String> = h.headers.iter().map(|h| &h.0).collect();
                let count = x.headers.len();
                let good = x.line == h.line(i == 0) && count == want.len() && names.iter().all(|n| {
                    let a: Vec<&String> = x.headers.iter().filter(|y| y.0.eq_ignore_ascii_case(n)).map(|y| &y.1).collect();
                    let b: Vec<&String> = want.iter().filter(|y| y.0 == **n).map(|y| &y.1).collect();
                    a == b
                });
                if !good {
                    g.viol(&["W24", "W20"], "wire", format!("the {}'s head {} on the wire is {:?} with {} header lines, given was {} with {} [{}]", who, n, x.line, count, h.short(), want.len(), r.desc));
                    return None;
                }
                pos += x.len;
                ends.push((pos, Some(It::Head(h.clone()))));
            }
        }
    }
    match strict_decode(&b[pos..], i == 0) {
        Err(e) => {
            g.viol(&["W24", "W20", "W23"], "wire", format!("the {}'s messages after the change of codec are malformed: {} [{}]", who, e, r.desc));
            return None;
        }
        Ok((fs, left)) => {
            for (n, (f, end)) in fs.iter().enumerate() {
                match r.msgs[i].get(n) {
                    Some(m) if f.fin && f.op == m.opcode() && f.data == m.payload() => ends.push((pos + end, Some(It::Msg(m.clone())))),
                    m => {
                        let m = m.map_or("nothing".into(), |m| m.short());
                        g.viol(&["W24", "W20", "W23"], "wire", format!("frame {} of the {} after the change of codec is {}, sent was {} [{}]", n, who, f.short(), m, r.desc));
                        return None;
                    }
                }
            }
            if left > 0 && fs.len() == r.msgs[i].len() {
                g.viol(&["W24", "W20", "W23"], "wire", format!("{} stray bytes behind the {}'s last item [{}]", left, who, r.desc));
                return None;
            }
        }
    }
    Some(ends)
}

fn check(g: &mut Inner, r: &Run, last: bool) {
    if !g.viols.is_empty() || g.stuck || g.nodes.iter().any(|n| n.panic.is_some()) {
        return;
    }
    let mut ends: [Vec<(usize, Option<It>)>; 2] = [vec![], vec![]];
    for i in 0..2 {
        ends[i] = match &r.raw_ends[i] {
            Some(e) => e.clone(),
            None => match wire(g, r, i) {
                Some(e) => e,
                None => return,
            },
        };
    }
    for i in 0..2 {
        if !r.real[i] {
            continue;
        }
        let who = if i == 0 { "client" } else { "server" };
        let log = r.seen[i].lock().unwrap().clone();
        let d = r.into[i];
        let delivered = g.dirs[d].delivered as usize;
        let exp = &ends[1 - i];
        let mut n = 0;
        let mut send_err = false;
        let mut over = false;
        let mut sent = 0;
        for e in &log {
            match e {
                Ev::Sent => sent += 1,
                Ev::SendErr(x) => {
                    send_err = true;
                    if !r.cut && !r.bad && !last {
                        g.viol(TAGS, "send-error", format!("the {} could not send item {}: {} [{}]", who, sent, x, r.desc));
                        return;
                    }
                }
                Ev::Got(it) => {
                    match exp.get(n) {
                        Some((end, Some(want))) => {
                            if *end > delivered {
                                g.viol(TAGS, "too-early", format!("the {} reports item {} before it has arrived [{}]", who, n, r.desc));
                                return;
                            }
                            if let Err(m) = same(it, want) {
                                let t: &[&str] = if matches!(want, It::Msg(_)) { &["W24", "W23"] } else { TAGS };
                                g.viol(t, "wrong-item", format!("the {}'s item {}: {} [{}]", who, n, m, r.desc));
                                return;
                            }
                        }
                        Some((_, None)) => {
                            g.viol(&["W24", "W14"], "bad-head-accepted", format!("the {} takes the malformed head {} for {} [{}]", who, n, it.short(), r.desc));
                            return;
                        }
                        None => {
                            g.viol(TAGS, "invented", format!("the {} reports {}, nothing was sent [{}]", who, it.short(), r.desc));
                            return;
                        }
                    }
                    n += 1;
                }
                Ev::End | Ev::Err(_) => {
                    over = true;
                    let failed = matches!(e, Ev::Err(_));
                    let next = exp.get(n);
                    let whole = next.map_or(false, |x| x.0 <= delivered);
                    let start = if n == 0 { 0 } else { exp[n - 1].0 };
                    if g.dirs[d].rst || g.dirs[r.out[i]].rst {
                        continue;
                    }
                    let x = if let Ev::Err(x) = e { x.clone() } else { "end of stream".into() };
                    match next {
                        Some((_, Some(it))) if whole => {
                            g.viol(TAGS, "lost", format!("the {} reports {} although {} has arrived [{}]", who, x, it.short(), r.desc));
                            return;
                        }
                        Some((_, None)) if whole => {
                            if !failed {
                                g.viol(&["W24", "W14"], "bad-head-ignored", format!("the {} passes over a malformed head [{}]", who, r.desc));
                                return;
                            }
                            continue;
                        }
                        _ => {}
                    }
                    if !g.dirs[d].eof {
                        g.viol(TAGS, "false-end", format!("the {} reports {} on an open connection [{}]", who, x, r.desc));
                        return;
                    }
                    // a blank line may be in front of a head
                    let part = &g.dirs[d].sent[start.min(delivered)..delivered];
                    // a cut message ends the reader with or without an error
                    let in_head = n < r.heads[1 - i].len();
                    let blank = part.iter().all(|c| *c == b'\r' || *c == b'\n');
                    if failed && part.is_empty() && in_head {
                        g.viol(TAGS, "false-error", format!("the {} reports {} although the stream ended behind a whole item [{}]", who, x, r.desc));
                        return;
                    }
                    if !failed && !blank && in_head {
                        g.viol(TAGS, "cut-unreported", format!("the {} reports an orderly end although the stream ended inside an item [{}]", who, r.desc));
                        return;
                    }
                }
            }
        }
        let me = g.nodes.iter().find(|n| n.name == who).map(|n| (n.state == NState::Done, n.why.clone()));
        let (done, why) = me.unwrap_or((true, String::new()));
        if last && !done {
            g.viol(&["W24", "W15", "W14"], "hang", format!("the {} still waits after both streams ended: {} [{}]", who, why, r.desc));
            return;
        }
        // every whole item has been reported, unless the side stopped over something else
        let whole = exp.iter().filter(|x| x.0 <= delivered).count();
        let has_bad = exp.iter().take(whole).any(|x| x.1.is_none());
        if !over && !send_err && !r.cut && !r.bad {
            if n < whole {
                g.viol(&["W24", "W15"], "waiting", format!("the {} has reported {} of the {} items that have arrived, and nothing more happens ({}) [{}]", who, n, whole, why, r.desc));
                return;
            }
            let all = r.heads[1 - i].len() + r.msgs[1 - i].len();
            let mine = r.heads[i].len() + r.msgs[i].len();
            if !last && (n < all || sent < mine) {
                g.viol(&["W24", "W15"], "stalled", format!("the {} has sent {} of {} and received {} of {} items, and nothing more happens [{}]", who, sent, mine, n, all, r.desc));
                return;
            }
        }
        if !over && !send_err && has_bad && !done {
            // it must have failed at the malformed head, when it got there
            let before = exp.iter().take_while(|x| x.1.is_some()).count();
            if n == before && why.contains("task") {
                // waiting to read what is there already
                let waiting_to_send = sent < r.heads[i].len() && i == 0;
                if !waiting_to_send {
                    g.viol(&["W24", "W14", "W15"], "bad-head-waits", format!("the {} waits although a malformed head has arrived [{}]", who, r.desc));
                    return;
                }
            }
        }
    }
}
