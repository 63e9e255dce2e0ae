//! Scenario "client_hs": one client builder connects several times, reconfigured between the
//! attempts, each time to a server played by the simulator that answers correctly, wrongly,
//! malformed, truncated, with the answer to an earlier request, or with data behind the reply.
use crate::ep::*;
use crate::exec::{self, block_on};
use crate::gen;
use crate::http_gen::{self, ext_str, Ext, Gen};
use crate::refws::{accept_for, b64, expect, parse_head, strict_decode, unb64, Expect, Limits, DEFAULT_LIMITS, F, M};
use crate::s_frames::check_recv;
use crate::s_server::{diff, ext_of, norm, raw_headers, serve_async, serve_plain, serve_sock, settle, to_ext, to_headers, After, Out, O};
use crate::tape::Tape;
use crate::tls::{self, Cert, Far, Trust};
use crate::world::{Cut, Deliver, DirId, Mode, NState, SimSock, K, W};
use hyper::header::UserAgent;
use std::io::ErrorKind;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use websocket::header::WebSocketVersion;
use websocket::stream::Stream;
use websocket::sync::Client;
use websocket::{ClientBuilder, WebSocketError};

#[derive(Clone, Debug)]
enum Op {
    AddProto(String),
    AddProtos(Vec<String>),
    ClearProtos,
    AddExt(Ext),
    AddExts(Vec<Ext>),
    ClearExts,
    Key([u8; 16]),
    ClearKey,
    Ver8,
    Ver13,
    ClearVer,
    Origin(String),
    ClearOrigin,
    Custom(Vec<(String, String)>),
    ClearUa,
    Limits(usize, usize),
    CloneAside,
}

#[derive(Clone, Debug, Default)]
struct Model {
    host: String,
    target: String,
    auth: Option<String>,
    protos: Vec<String>,
    exts: Vec<Ext>,
    key: Option<[u8; 16]>,
    ver8: Option<bool>,
    origin: Option<String>,
    custom: Vec<(String, Vec<String>)>,
    limits: (usize, usize),
}

fn apply<'a>(b: ClientBuilder<'a>, op: &Op) -> ClientBuilder<'a> {
    match op.clone() {
        Op::AddProto(p) => b.add_protocol(p),
        Op::AddProtos(p) => b.add_protocols(p),
        Op::ClearProtos => b.clear_protocols(),
        Op::AddExt(e) => b.add_extension(to_ext(&e)),
        Op::AddExts(e) => b.add_extensions(e.iter().map(to_ext).collect::<Vec<_>>()),
        Op::ClearExts => b.clear_extensions(),
        Op::Key(k) => b.key(k),
        Op::ClearKey => b.clear_key(),
        Op::Ver8 => b.version(WebSocketVersion::Unknown("8".into())),
        Op::Ver13 => b.version(WebSocketVersion::WebSocket13),
        Op::ClearVer => b.clear_version(),
        Op::Origin(o) => b.origin(o),
        Op::ClearOrigin => b.clear_origin(),
        Op::Custom(c) => b.custom_headers(&to_headers(&c)),
        Op::ClearUa => b.clear_header::<UserAgent>(),
        Op::Limits(f, m) => b.max_dataframe_size(f).max_message_size(m),
        Op::CloneAside => {
            let other = b.clone().add_protocol("junk").key([7; 16]).origin("junk".into()).max_dataframe_size(1).clear_extensions();
            drop(other);
            let _ = b.get_header::<UserAgent>().is_some();
            b
        }
    }
}

impl Model {
    fn apply(&mut self, op: &Op) {
        match op.clone() {
            Op::AddProto(p) => self.protos.push(p),
            Op::AddProtos(p) => self.protos.extend(p),
            Op::ClearProtos => self.protos.clear(),
            Op::AddExt(e) => self.exts.push(e),
            Op::AddExts(e) => self.exts.extend(e),
            Op::ClearExts => self.exts.clear(),
            Op::Key(k) => self.key = Some(k),
            Op::ClearKey => self.key = None,
            Op::Ver8 => self.ver8 = Some(true),
            Op::Ver13 => self.ver8 = Some(false),
            Op::ClearVer => self.ver8 = None,
            Op::Origin(o) => self.origin = Some(o),
            Op::ClearOrigin => self.origin = None,
            Op::Custom(c) => {
                for (n, _) in &c {
                    self.custom.retain(|x| !x.0.eq_ignore_ascii_case(n));
                }
                for (n, v) in c {
                    match self.custom.iter_mut().find(|x| x.0.eq_ignore_ascii_case(&n)) {
                        Some(x) => x.1.push(v),
                        None => self.custom.push((n, vec![v])),
                    }
                }
            }
            Op::ClearUa => self.custom.retain(|x| !x.0.eq_ignore_ascii_case("user-agent")),
            Op::Limits(f, m) => self.limits = (f, m),
            Op::CloneAside => {}
        }
    }
}

const RESERVED: [&str; 5] = ["upgrade", "connection", "sec-websocket-key", "sec-websocket-version", "host"];

fn gen_op(t: &mut Tape, m: &Model) -> Op {
    match t.choose(18) {
        0 => Op::AddProto(http_gen::gen_proto(t)),
        1 => Op::AddProtos(http_gen::gen_protos(t)),
        2 => Op::ClearProtos,
        3 => Op::AddExt(http_gen::gen_ext(t)),
        4 => {
            let n = t.choose(3);
            Op::AddExts(http_gen::gen_exts(t, n))
        }
        5 => Op::ClearExts,
        6 => Op::Key(http_gen::some_key(t)),
        7 => Op::ClearKey,
        8 => Op::Ver8,
        9 => Op::Ver13,
        10 => Op::ClearVer,
        11 => Op::Origin(http_gen::gen_origin(t)),
        12 => Op::ClearOrigin,
        13 | 14 => Op::Custom(http_gen::gen_extras(t, 4)),
        15 => {
            let mut c = vec![("User-Agent".to_string(), "sim".to_string())];
            if t.chance(500) {
                c.push((t.pick(&["Upgrade", "connection", "Host", "upgrade"]).to_string(), t.pick(&["foo", "close", "evil.example"]).to_string()));
            }
            if m.key.is_none() && t.chance(300) {
                c.push(("Sec-WebSocket-Key".into(), "AAAA".into()));
            }
            if m.ver8.is_none() && t.chance(300) {
                c.push(("sec-websocket-version".into(), "7".into()));
            }
            if t.chance(200) {
                c.push(("Authorization".into(), "Bearer xyz".into()));
            }
            Op::Custom(c)
        }
        16 => Op::ClearUa,
        _ => Op::CloneAside,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Fin,
    Rst,
    Stall,
}

/// How the stream comes about.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Path {
    /// the application brings it
    On,
    /// connect_insecure / async_connect_insecure
    Insecure,
    /// connect / async_connect, which box the stream
    Boxed,
    /// connect_secure / async_connect_secure
    Secure,
}

/// What happens to the bytes of a TLS connection.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Damage {
    None,
    /// towards the client
    CutDown(u64, Cut),
    CutUp(u64, Cut),
    Down(u64, u8),
    Up(u64, u8),
    /// the first record behind the handshake
    Data(u64, u8),
}

#[derive(Clone, Debug)]
struct Tls {
    far: Far,
    trust: Trust,
    modern: bool,
    damage: Damage,
    /// directions of the cipher text, from and to the client
    up: DirId,
    down: DirId,
}

#[derive(Clone, Debug)]
struct Attempt {
    ops: Vec<Op>,
    is_async: bool,
    path: Path,
    /// nobody listens there, or the name is unknown
    refuse: bool,
    /// reads fail with this instead of waiting
    timeout: Option<ErrorKind>,
    after: After,
    msgs: Vec<M>,
    /// the connector given to connect
    trust: Trust,
    modern: bool,
    tls: Option<Tls>,
}

#[derive(Default, Clone)]
struct Res {
    verdict: Option<Result<(), String>>,
    protos: Option<Vec<String>>,
    exts: Option<Vec<Ext>>,
    peer: Option<SocketAddr>,
}
type R = Arc<Mutex<Vec<Res>>>;

/// Sorts a connection error by the cause it names.
pub fn cause(e: &WebSocketError) -> String {
    use websocket::result::WebSocketOtherError as O;
    match e {
        WebSocketError::IoError(_) => "io".into(),
        WebSocketError::ProtocolError(_) | WebSocketError::NoDataAvailable => "closed".into(),
        WebSocketError::Other(b) => match b.downcast_ref::<O>() {
            Some(O::StatusCodeError(c)) => format!("status {}", c.to_u16()),
            Some(O::RedirectError(c, l)) => format!("redirect {} {}", c.to_u16(), l),
            Some(O::ResponseError(s)) => {
                let s = s.to_lowercase();
                if s.contains("accept") {
                    "accept".into()
                } else if s.contains("connection") {
                    "connection".into()
                } else if s.contains("upgrade") {
                    "upgrade".into()
                } else {
                    format!("response: {}", s)
                }
            }
            Some(O::HttpError(_)) => "http".into(),
            Some(O::IoError(_)) => "io".into(),
            Some(O::ProtocolError(_)) => "closed".into(),
            Some(O::TlsError(_)) | Some(O::TlsHandshakeFailure) => "tls".into(),
            Some(x) => format!("other: {:?}", x),
            None => "http".into(),
        },
        x => format!("other: {:?}", x),
    }
}

fn note_up<S: Stream>(c: &Client<S>, i: usize, res: &R, out: &O, peer: Option<SocketAddr>) {
    {
        let mut r = res.lock().unwrap();
        r[i].protos = Some(c.protocols().to_vec());
        r[i].exts = Some(c.extensions().iter().map(ext_of).collect());
        r[i].peer = peer;
        r[i].verdict = Some(Ok(()));
    }
    out.lock().unwrap().headers = Some(c.headers().clone());
}

/// Gets a future's result, on a reactor if it needs one, and hands it on while that is still there.
macro_rules! go {
    ($f:expr, $i:expr, $a:expr, $res:expr, $out:expr, $log:expr) => {
        match block_on($f) {
            Ok((c, h)) => {
                $out.lock().unwrap().headers = Some(h);
                $res.lock().unwrap()[$i].verdict = Some(Ok(()));
                serve_async(c, $a.after, $a.msgs, &$out, &$log);
            }
            Err(e) => $res.lock().unwrap()[$i].verdict = Some(Err(cause(&e))),
        }
    };
}

fn client_node(w: W, url: String, socks: Vec<Option<SimSock>>, dirs: Vec<(DirId, DirId)>, atts: Vec<Attempt>, res: R, outs: Vec<O>, logs: Vec<Log>) {
    let parsed = url::Url::parse(&url).expect("harness url");
    let mut b = if url.len() % 2 == 0 { ClientBuilder::new(&url).expect("harness url") } else { ClientBuilder::from_url(&parsed) };
    for (i, (sock, a)) in socks.into_iter().zip(atts).enumerate() {
        for op in &a.ops {
            b = apply(b, op);
        }
        let wait = Wait { w: w.clone(), d: dirs[i].0 };
        let failed = |e: &WebSocketError| res.lock().unwrap()[i].verdict = Some(Err(cause(e)));
        // async paths use a clone, so that the builder itself stays
        match (a.path, a.is_async) {
            (Path::On, true) => {
                let sock = sock.expect("harness sock");
                sock.set_mode(Mode::Async);
                go!(b.clone().async_connect_on(sock), i, a, res, outs[i], logs[i])
            }
            (Path::Insecure, true) => exec::with_reactor(|| go!(b.clone().async_connect_insecure(), i, a, res, outs[i], logs[i])),
            (Path::Boxed, true) => exec::with_reactor(|| go!(b.clone().async_connect(tls::connector(a.trust, a.modern)), i, a, res, outs[i], logs[i])),
            (Path::Secure, true) => exec::with_reactor(|| go!(b.clone().async_connect_secure(tls::connector(a.trust, a.modern)), i, a, res, outs[i], logs[i])),
            (Path::On, false) => {
                let sock = sock.expect("harness sock");
                let weak = Arc::downgrade(&sock.0);
                if let Some(k) = a.timeout {
                    sock.set_mode(Mode::Fail(k));
                }
                match b.connect_on(sock) {
                    Ok(c) => {
                        if let Some(s) = weak.upgrade() {
                            SimSock(s).set_mode(Mode::Blocking);
                        }
                        note_up(&c, i, &res, &outs[i], None);
                        serve_sock(c, a.after, &a.msgs, &outs[i], &logs[i], &wait);
                    }
                    Err(e) => failed(&e),
                }
            }
            (Path::Insecure, false) => match b.connect_insecure() {
                Ok(c) => {
                    let peer = c.peer_addr().ok();
                    note_up(&c, i, &res, &outs[i], peer);
                    serve_sock(c, a.after, &a.msgs, &outs[i], &logs[i], &wait);
                }
                Err(e) => failed(&e),
            },
            (Path::Boxed, false) => match b.connect(tls::connector(a.trust, a.modern)) {
                Ok(c) => {
                    let peer = c.peer_addr().ok();
                    note_up(&c, i, &res, &outs[i], peer);
                    serve_plain(c, a.after, &a.msgs, &outs[i], &logs[i], &wait);
                }
                Err(e) => failed(&e),
            },
            (Path::Secure, false) => match b.connect_secure(tls::connector(a.trust, a.modern)) {
                Ok(c) => {
                    let peer = c.peer_addr().ok();
                    note_up(&c, i, &res, &outs[i], peer);
                    serve_plain(c, a.after, &a.msgs, &outs[i], &logs[i], &wait);
                }
                Err(e) => failed(&e),
            },
        }
    }
}

const NAME: &str = "sim.example";

/// Returns the URL and, when the client itself has to connect, where to (None: a name nobody knows).
fn gen_url(t: &mut Tape, m: &mut Model, kern: bool) -> (String, Option<SocketAddrV4>) {
    let at = |a: [u8; 4], p: u16| Some(SocketAddrV4::new(Ipv4Addr::from(a), p));
    let (h, hh, addr) = if kern {
        *t.pick(&[
            ("127.0.0.1:9", "127.0.0.1:9", at([127, 0, 0, 1], 9)),
            ("10.9.8.7", "10.9.8.7", at([10, 9, 8, 7], 80)),
            ("10.9.8.7:443", "10.9.8.7:443", at([10, 9, 8, 7], 443)),
            (NAME, NAME, at([10, 0, 3, 1], 80)),
            ("sim.example:8123", "sim.example:8123", at([10, 0, 3, 1], 8123)),
            ("nowhere.example:99", "nowhere.example:99", None),
            ("[::1]:9", "[::1]:9", at([127, 0, 0, 1], 9)),
            ("[2001:db8::a00:301]", "[2001:db8::a00:301]", at([10, 0, 3, 1], 80)),
        ])
    } else {
        *t.pick(&[("sim.example", "sim.example", None), ("sim.example:80", "sim.example", None), ("sim.example:443", "sim.example:443", None), ("sim.example:8123", "sim.example:8123", None), ("127.0.0.1:9", "127.0.0.1:9", None), ("[::1]:99", "[::1]:99", None), ("[::1]", "[::1]", None)])
    };
    // the application may bring a stream for a secure url as well: TLS is its business then
    let schemes: &[&str] = if kern { &["ws", "ws", "ws", "http"] } else { &["ws", "ws", "ws", "http", "wss", "https"] };
    let scheme = *t.pick(schemes);
    let secure = scheme == "wss" || scheme == "https";
    m.host = match (secure, h) {
        (true, "sim.example:80") => h,
        (_, "sim.example:443") => if secure { "sim.example" } else { h },
        _ => hh,
    }
    .into();
    let (u, p) = gen_url_rest(t, m);
    (format!("{}://{}{}{}", scheme, u, h, p), addr)
}

fn gen_url_rest(t: &mut Tape, m: &mut Model) -> (String, String) {
    let (u, a) = *t.pick(&[("", None), ("", None), ("bob:secret@", Some("bob:secret")), ("bob@", Some("bob:")), ("a:b@", Some("a:b")), ("Bob:SeCReT@", Some("Bob:SeCReT")), ("b0b.x~y:p-w_!@", Some("b0b.x~y:p-w_!")), ("Aladdin-the-long-name-0123456789:open-sesame-open-sesame-open-sesame-0123456789@", Some("Aladdin-the-long-name-0123456789:open-sesame-open-sesame-open-sesame-0123456789"))]);
    m.auth = a.map(|a| format!("Basic {}", b64(a.as_bytes())));
    if t.choose(3) == 0 {
        let tgt = http_gen::gen_target(t);
        let p = if t.choose(4) == 0 { format!("{}#{}", tgt, t.pick(&["", "a", "/x?y"])) } else { tgt.clone() };
        m.target = tgt;
        return (u.into(), p);
    }
    let (p, tgt) = *t.pick(&[("/chat?room=1", "/chat?room=1"), ("", "/"), ("/", "/"), ("/a/b%20c", "/a/b%20c"), ("?x=1", "/?x=1"), ("/p?q=a%2Fb&r=#frag", "/p?q=a%2Fb&r="), ("/p#frag", "/p"), ("/a//b/?", "/a//b/?")]);
    m.target = tgt.into();
    (u.into(), p.into())
}

/// A URL for a TLS connection. Also returns the host it names.
fn gen_tls_url(t: &mut Tape, m: &mut Model) -> (String, Option<SocketAddrV4>, &'static str, bool) {
    let scheme = *t.pick(&["wss", "wss", "wss", "https", "ws"]);
    let secure = scheme != "ws";
    let (h, ip) = *t.pick(&[
        (NAME, Some([10, 0, 3, 1])),
        (NAME, Some([10, 0, 3, 1])),
        ("a.wild.example", Some([10, 0, 3, 2])),
        ("a.b.wild.example", Some([10, 0, 3, 2])),
        ("wild.example", Some([10, 0, 3, 2])),
        ("other.example", Some([10, 0, 3, 3])),
        ("10.0.0.1", Some([10, 0, 0, 1])),
        ("10.9.8.7", Some([10, 9, 8, 7])),
        ("[2001:db8::a00:1]", Some([10, 0, 0, 1])),
        ("[2001:db8::a09:807]", Some([10, 9, 8, 7])),
        ("nowhere.example", None),
    ]);
    let port = *t.pick(&[None, None, Some(443), Some(80), Some(8443)]);
    let def = if secure { 443 } else { 80 };
    m.host = match port {
        Some(p) if p != def => format!("{}:{}", h, p),
        _ => h.into(),
    };
    let (u, p) = gen_url_rest(t, m);
    let url = format!("{}://{}{}{}{}", scheme, u, h, port.map_or(String::new(), |p| format!(":{}", p)), p);
    (url, ip.map(|a| SocketAddrV4::new(Ipv4Addr::from(a), port.unwrap_or(def))), h, secure)
}

fn gen_tls(g: &mut crate::world::Inner, w: &W, trust: Trust, modern: bool) -> (Tls, SimSock) {
    let (up, down) = g.new_conn();
    for d in [up, down] {
        gen::net(g, d);
        g.dirs[d].flaky = 0;
        gen::coarsen(g, d, 4000);
    }
    // (a server that cannot write its session tickets does not read: only one direction is narrow)
    g.dirs[up].cap = *g.tape.pick(&[usize::MAX, usize::MAX, 50, 1000]);
    let t = &mut g.tape;
    let cert = match trust {
        Trust::Rogue => *t.pick(&[Cert::Forged, Cert::Forged, Cert::Good]),
        _ => *t.pick(&[Cert::Good, Cert::Good, Cert::Good, Cert::Good, Cert::Good, Cert::Other, Cert::Expired, Cert::Forged]),
    };
    let junk = if t.chance(60) { Some(tls::junk(t)) } else { None };
    let far = Far { cert, old: t.chance(300), junk, mute: t.chance(30), abrupt: t.chance(400) };
    let cut = *t.pick(&[Cut::Fin, Cut::Rst]);
    let far_off = t.chance(150);
    let at = if far_off { t.choose(3000) } else { t.choose(900) } as u64;
    let x = 1u8 << t.choose(8);
    let damage = match t.weighted(&[700, 70, 50, 60, 50, 70]) {
        0 => Damage::None,
        1 => Damage::CutDown(at, cut),
        2 => Damage::CutUp(at, cut),
        3 => Damage::Down(at, x),
        4 => Damage::Up(at, x),
        _ => Damage::Data(5 + at % 16, x),
    };
    match damage {
        Damage::CutDown(n, c) => g.dirs[down].cut = Some((n, c)),
        Damage::CutUp(n, c) => g.dirs[up].cut = Some((n, c)),
        Damage::Down(n, x) => g.dirs[down].corrupt = Some((n, x)),
        Damage::Up(n, x) => g.dirs[up].corrupt = Some((n, x)),
        _ => {}
    }
    let sock = SimSock(Arc::new(crate::world::SockInner { w: w.clone(), rd: up, wr: down, mode: Mutex::new(Mode::Blocking) }));
    (Tls { far, trust, modern, damage, up, down }, sock)
}

struct Traffic {
    behind: Vec<u8>,
    fs: Vec<F>,
    full: Expect,
}

fn traffic(t: &mut Tape, lim: &mut Limits, frames: bool) -> Traffic {
    let mut fs: Vec<F> = vec![];
    let mut nid = 0;
    let nb = if t.chance(700) { t.choose(5) } else { 0 };
    let frag_p = *t.pick(&[0, 400]);
    for _ in 0..nb {
        nid += 1;
        let big = *t.pick(&[40, 300, 3000]);
        let m = gen::message(t, nid, gen::Sizes { big, huge: false });
        gen::fragments(t, &m, false, &mut nid, frag_p, 200, &mut fs);
    }
    if lim.msg < 1 << 20 && t.chance(600) {
        // something that comes close to one of the limits
        let (fl, ml) = (lim.frame as usize, lim.msg as usize);
        let at = if fs.is_empty() || t.chance(500) { fs.len() } else { 0 };
        let op = 1 + t.choose(2) as u8;
        let some = |n: usize, first: bool, fin: bool| F { fin, rsv: 0, op: if first { op } else { 0 }, mask: None, data: vec![b'l'; n] };
        let near: Vec<F> = if t.chance(400) {
            vec![some((fl + t.choose(8) as usize).saturating_sub(14).min(70_000), true, true)]
        } else {
            let each = 1 + t.range(0, fl.saturating_sub(20).min(2000).max(1) - 1);
            let n = (ml / (each + 64) + t.choose(3) as usize).clamp(1, 200);
            (0..=n).map(|i| some(if i == n { t.range(0, 10) } else { each }, i == 0, i == n)).collect()
        };
        fs.splice(at..at, near);
    }
    let mut behind = vec![];
    for f in &fs {
        f.encode(&mut behind);
    }
    if t.chance(50) {
        F { fin: true, rsv: 0, op: 2, mask: None, data: gen::pattern(999, 9000) }.encode(&mut behind);
    }
    let mut full = expect(&behind, false, *lim, frames);
    while full.viol.as_ref().map_or(false, |v| v.why == "message limit reached exactly") {
        lim.msg += 1;
        full = expect(&behind, false, *lim, frames);
    }
    Traffic { behind, fs, full }
}

pub fn client_hs(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let t = &mut g.tape;
    let mut m = Model { limits: (100 << 20, 200 << 20), ..Default::default() };
    let kern = t.chance(if id == "W16" || id == "W21" { 1000 } else { 350 });
    let tlsy = kern && t.chance(if id == "W21" { 950 } else { 40 });
    let (url, addr, host, secure) = if tlsy {
        gen_tls_url(t, &mut m)
    } else {
        let (u, a) = gen_url(t, &mut m, kern);
        (u, a, "", false)
    };
    let n = match id { "W19" => 1 + t.choose(5) as usize, "W11" => 1 + t.choose(3) as usize, _ => 1 + (t.chance(250) as usize) };
    let mut atts = vec![];
    let mut models = vec![];
    for i in 0..n {
        let k = match id { "W11" => t.choose(9), "W19" => t.choose(6), _ => if t.chance(300) { t.choose(5) } else { 0 } };
        let mut ops: Vec<Op> = vec![];
        for _ in 0..k {
            let op = gen_op(t, &m);
            m.apply(&op);
            ops.push(op);
        }
        if t.chance(match id { "W07" => 1000, "W21" | "W10" => 350, _ => 80 }) {
            let op = Op::Limits(*t.pick(&[130, 300, 4000, u32::MAX as usize]), *t.pick(&[200, 1000, 9000, u32::MAX as usize]));
            m.apply(&op);
            ops.push(op);
        }
        let is_async = t.choose(2) == 1;
        let path = if tlsy { *t.pick(&[Path::Secure, Path::Boxed, Path::Secure, Path::Boxed, Path::Insecure]) } else if kern { *t.pick(&[Path::Insecure, Path::Boxed, Path::On]) } else { Path::On };
        let trust = if tlsy { *t.pick(&[Trust::Default, Trust::Ca, Trust::Ca, Trust::Default, Trust::Rogue, Trust::Nobody, Trust::AnyCert, Trust::AnyHost]) } else { Trust::Default };
        let modern = trust != Trust::Default && t.chance(150);
        let refuse = path != Path::On && (addr.is_none() || t.chance(80));
        let after = match t.weighted(&[50, 30, 20]) {
            0 => After::Read(if is_async { *t.pick(&[Api::Msg, Api::SplitMsg]) } else { *t.pick(&[Api::Msg, Api::SplitMsg, Api::Frame, Api::SplitFrame, Api::MsgIter, Api::SplitMsgIter]) }),
            1 => After::Apart,
            _ => if is_async { After::Apart } else { After::RawReader },
        };
        let nm = if t.chance(400) { 1 + t.choose(3) } else { 0 };
        let msgs: Vec<M> = (0..nm).map(|j| gen::message(t, 600 + j + 10 * i as u32, gen::Sizes { big: 200, huge: false })).collect();
        let timeout = if !is_async && path == Path::On && i + 1 < n && t.chance(120) { Some(*t.pick(&[ErrorKind::WouldBlock, ErrorKind::TimedOut])) } else { None };
        atts.push(Attempt { ops, is_async, path, refuse, timeout, after, msgs, trust, modern, tls: None });
        models.push(m.clone());
    }
    let mut socks = vec![];
    let mut dirs = vec![];
    let mut fars = vec![];
    for a in atts.iter_mut() {
        let (s, into, out) = SimSock::raw_in(&mut g, w);
        gen::net(&mut g, into);
        g.dirs[into].eintr_r = 0;
        if a.is_async && a.path != Path::On {
            // a nonblocking socket of the kernel says would-block only when it has to
        } else if a.is_async {
            g.dirs[into].spurious_r = *g.tape.pick(&[0, 0, 200]);
            g.dirs[out].spurious_w = *g.tape.pick(&[0, 0, 200]);
        } else {
            g.dirs[out].eintr_w = *g.tape.pick(&[0, 0, 200]);
        }
        g.dirs[out].flaky = 40;
        g.dirs[out].short_w = *g.tape.pick(&[0, 100, 700]);
        g.dirs[out].cap = *g.tape.pick(&[usize::MAX, usize::MAX, 1, 7, 100]);
        if g.tape.chance(match id { "W12" => 500, "W19" => 100, _ => 60 }) {
            let at = if g.tape.chance(700) { g.tape.range(0, 300) } else { g.tape.range(0, 1200) } as u64;
            let k = *g.tape.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::WriteZero, ErrorKind::Other]);
            g.dirs[out].wfail = Some((at, k));
        }
        if a.path == Path::On {
            socks.push(Some(s));
        } else {
            // the directions are there already; who has their ends comes about by connecting
            socks.push(None);
            if a.path == Path::Secure || a.path == Path::Boxed && secure {
                // the driver speaks plain text; the far end of the TLS connection is in between
                for d in [into, out] {
                    let x = &mut g.dirs[d];
                    x.deliver = Deliver::Instant;
                    (x.cap, x.short_r, x.short_w, x.flaky, x.wfail) = (usize::MAX, 0, 0, 0, None);
                }
                let (tl, cipher) = gen_tls(&mut g, w, a.trust, a.modern);
                if addr.is_some() {
                    g.kern.plan.push_back(if a.refuse { None } else { Some((tl.up, tl.down)) });
                    if !a.refuse {
                        fars.push((tl.far.clone(), cipher, s));
                    } else {
                        std::mem::forget((s, cipher));
                    }
                } else {
                    std::mem::forget((s, cipher));
                }
                a.tls = Some(tl);
            } else {
                std::mem::forget(s);
                if addr.is_some() {
                    g.kern.plan.push_back(if a.refuse { None } else { Some((out, into)) });
                }
            }
        }
        dirs.push((into, out));
    }
    for (n, k) in [(NAME, 1), ("a.wild.example", 2), ("a.b.wild.example", 2), ("wild.example", 2), ("other.example", 3)] {
        g.kern.names.insert(n.into(), vec![Ipv4Addr::new(10, 0, 3, k)]);
    }
    // the client's clock may be wrong
    let epoch = if tlsy { *g.tape.pick(&[1_700_000_000i64, 1_700_000_000, 1_700_000_000, 1_700_000_000, 1_000_000_000, 900_000_000]) } else { 1_700_000_000 };
    w.epoch.store(epoch, std::sync::atomic::Ordering::SeqCst);
    g.kern.latency = *g.tape.pick(&[0, 10, 20_000]);
    if kern {
        g.kern.spurious_ep = *g.tape.pick(&[0, 0, 200]);
    }
    if g.keep_trace {
        let s = format!("url {}", url);
        g.note(s);
    }
    g.nontrivial = true;
    g.describe(format!("client_hs: url {} attempts {}", url, n));
    drop(g);
    let res: R = Arc::new(Mutex::new(vec![Res::default(); n]));
    let outs: Vec<O> = (0..n).map(|_| Arc::new(Mutex::new(Out::default()))).collect();
    let logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
    let (w2, u2, d2, a2, r2, o2, l2) = (w.clone(), url.clone(), dirs.clone(), atts.clone(), res.clone(), outs.clone(), logs.clone());
    let node = w.spawn("client", move || client_node(w2, u2, socks, d2, a2, r2, o2, l2));
    for (far, cipher, plain) in fars {
        let w2 = w.clone();
        w.spawn("far end", move || tls::far_node(w2, far, cipher, plain));
    }
    let mut dials = 0;
    let mut keys: Vec<(String, bool)> = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let a = &atts[i];
        let model = &models[i];
        let (into, out) = dirs[i];
        let mut x = Ctx { w, i, a, model, res: &res, out: &outs[i], log: &logs[i], into, outd: out, node, desc: format!("attempt {} {} {:?} after={:?} timeout={:?} wfail={:?} tls={:?} ops={:?} url={}", i, if a.is_async { "async" } else { "sync" }, a.path, a.after, a.timeout, w.lock().dirs[out].wfail, a.tls, a.ops, url), reset: false };
        if !settle(w, out) {
            x.stuck();
            return;
        }
        if x.dead() {
            return;
        }
        // -------------------------------------------------------- the connection
        if a.path != Path::On {
            let dialed = w.lock().kern.dialed.clone();
            // a later attempt may have begun already
            if dialed.get(dials).copied() != addr {
                x.bad(&["W08", "W11"], "wrong-address", format!("the client connects to {:?}, the url names {:?}", dialed.get(dials), addr));
                return;
            }
            dials += addr.is_some() as usize;
            if a.refuse {
                let v = res.lock().unwrap()[i].verdict.clone();
                if v != Some(Err("io".into())) {
                    x.bad(&["W08"], "refused-connection", format!("there is no server, connect reports {:?}", v));
                    return;
                }
                continue;
            }
        }
        // -------------------------------------------------------- the TLS handshake
        if let Some(tl) = &a.tls {
            match x.tls_ok(tl, host, epoch) {
                Next::Bad => return,
                Next::Skip => continue,
                Next::On => {}
            }
        }
        // -------------------------------------------------------- the request
        let wire = w.lock().dirs[out].sent.clone();
        let wfail = w.lock().dirs[out].wfail;
        let verdict = res.lock().unwrap()[i].verdict.clone();
        let faulted = wfail.map_or(false, |(at, _)| wire.len() as u64 >= at);
        let head = match parse_head(&wire) {
            Err(e) => {
                x.bad(&["W20", "W11", "W19"], "bad-request", format!("request is not a well-formed head: {}", e));
                return;
            }
            Ok(h) => h,
        };
        if head.is_none() || (faulted && matches!(verdict, Some(Err(_)))) {
            if !faulted {
                x.bad(&["W12", "W15", "W19", "W08"], "no-request", format!("no complete request: {:?}, verdict {:?}", String::from_utf8_lossy(&wire), verdict));
                return;
            }
            match verdict {
                Some(Err(_)) => {
                    let start = format!("GET {} HTTP/1.1\r\n", model.target);
                    let k = start.len().min(wire.len());
                    if wire[..k] != start.as_bytes()[..k] {
                        x.bad(&["W12"], "not-a-prefix", format!("after a transport error the wire holds {:?}", String::from_utf8_lossy(&wire)));
                        return;
                    }
                    continue;
                }
                v => {
                    x.bad(&["W12", "W15", "W08"], "unreported", format!("the request could not be written but connect reports {:?}", v));
                    return;
                }
            }
        }
        let head = head.unwrap();
        if wire.len() != head.len {
            x.bad(&["W20", "W08"], "bad-request", format!("{} bytes sent behind the request before the reply", wire.len() - head.len));
            return;
        }
        if !x.request_ok(&head, &keys) {
            return;
        }
        let key = head.one("Sec-WebSocket-Key").unwrap_or("").to_string();
        if let Some(Err(c)) = &verdict {
            if a.timeout.is_some() && (c == "io" || c == "http") {
                keys.push((key, model.key.is_some()));
                continue;
            }
        }
        if verdict.is_some() {
            x.bad(&["W08"], "early-result", format!("connect reports {:?} before any reply", verdict));
            return;
        }
        // -------------------------------------------------------- the reply
        let mut g = w.lock();
        let t = &mut g.tape;
        let muts = match id {
            "W08" | "W14" => *t.pick(&[0, 1, 1, 1, 2]),
            "W19" if !last => *t.pick(&[0, 1, 1]),
            "W19" => *t.pick(&[0, 0, 1]),
            _ => *t.pick(&[0, 0, 0, 1]),
        };
        let accept = accept_for(&key);
        let old: Option<String> = keys.iter().rev().map(|k| accept_for(&k.0)).find(|o| *o != accept);
        let rp: Gen = http_gen::reply(t, &accept, old.as_deref(), muts);
        let frames = matches!(a.after, After::Read(api) if api.frames());
        let mut lim = if model.limits == (100 << 20, 200 << 20) { DEFAULT_LIMITS } else { Limits { frame: model.limits.0 as u64, msg: model.limits.1 as u64 } };
        let before = lim.msg;
        let mut tr = traffic(t, &mut lim, frames);
        if lim.msg != before {
            // exactly at the limit either verdict is fine: send nothing
            tr = Traffic { behind: vec![], fs: vec![], full: expect(&[], false, lim, frames) };
        }
        let hl = rp.bytes.len();
        let mut stream = rp.bytes.clone();
        stream.extend_from_slice(&tr.behind);
        if t.chance(match id { "W08" => 250, "W14" | "W13" => 400, _ => 120 }) {
            let c = if t.chance(250) { *t.pick(&[0, hl, hl - 1, hl - 2]) } else if t.chance(700) { t.range(0, hl) } else { t.range(0, stream.len()) };
            stream.truncate(c);
            tr.behind.truncate(c.saturating_sub(hl));
            tr.full = expect(&tr.behind, false, lim, frames);
        }
        let end = match t.weighted(&[70, if last { 20 } else { 0 }, 10]) { 0 => End::Fin, 1 => End::Stall, _ => End::Rst };
        let mut cuts: Vec<usize> = (0..t.choose(5)).map(|_| if t.chance(400) { hl.min(stream.len()) } else { t.range(0, stream.len()) }).collect();
        cuts.push(stream.len());
        cuts.sort_unstable();
        cuts.dedup();
        gen::coarsen(&mut g, into, stream.len());
        if g.keep_trace {
            let s = format!("attempt {} reply: {:?} behind {} bytes, cut at {}, then {:?}", i, String::from_utf8_lossy(&rp.bytes), tr.behind.len(), stream.len(), end);
            g.note(s);
            for f in &tr.fs {
                let s = format!("behind: {}", f.short());
                g.note(s);
            }
        }
        x.desc = format!("{} reply causes={:?} head={} sent={} end={:?}", x.desc, rp.causes, hl, stream.len(), end);
        let d = x.desc.clone();
        g.describe(d);
        drop(g);
        if let Some(Tls { damage: Damage::Data(n, b), down, .. }) = a.tls {
            // the first record of the reply is damaged: nothing of it may get through
            if !stream.is_empty() {
                let mut g = w.lock();
                g.dirs[down].corrupt = Some((g.dirs[down].sent.len() as u64 + n, b));
                g.put(into, &stream);
                drop(g);
                if !settle(w, out) {
                    x.stuck();
                    return;
                }
                if x.dead() {
                    return;
                }
                match res.lock().unwrap()[i].verdict.clone() {
                    Some(Err(c)) if c == "io" || c == "http" || c == "tls" => {}
                    v => {
                        x.bad(&["W08"], "damaged", format!("the reply was damaged on its way, connect reports {:?}", v));
                        return;
                    }
                }
                keys.push((key, model.key.is_some()));
                continue;
            }
        }
        let mut sent = 0;
        for c in cuts {
            w.lock().put(into, &stream[sent..c]);
            w.lock().ev(usize::MAX, K::Inject, into as u64, (c - sent) as u64);
            sent = c;
            if !settle(w, out) {
                x.stuck();
                return;
            }
            if x.dead() || !x.verify(&rp, &tr, head.len, hl, false) {
                return;
            }
        }
        match end {
            End::Fin => w.lock().do_fin(into),
            End::Rst => {
                let mut g = w.lock();
                g.ev(usize::MAX, K::CutRst, into as u64, 0);
                g.do_rst(into);
                x.reset = true;
            }
            End::Stall => w.lock().ev(usize::MAX, K::Stall, into as u64, 0),
        }
        // the other side of a finished connection is read to its end too
        if !settle(w, out) {
            x.stuck();
            return;
        }
        if x.dead() || !x.verify(&rp, &tr, head.len, hl, end != End::Stall) {
            return;
        }
        keys.push((key, model.key.is_some()));
        if !last && res.lock().unwrap()[i].verdict.is_none() {
            return;
        }
    }
    let fin = w.lock().nodes[node].state == NState::Done;
    let _ = fin;
}

struct Ctx<'a> {
    w: &'a W,
    i: usize,
    a: &'a Attempt,
    model: &'a Model,
    res: &'a R,
    out: &'a O,
    log: &'a Log,
    into: DirId,
    outd: DirId,
    node: usize,
    desc: String,
    reset: bool,
}

enum Next {
    Bad,
    /// the connection failed, as it had to
    Skip,
    On,
}

impl<'a> Ctx<'a> {
    /// Judges the TLS handshake of this attempt.
    fn tls_ok(&self, tl: &Tls, host: &str, epoch: i64) -> Next {
        let verdict = || self.res.lock().unwrap()[self.i].verdict.clone();
        let (cipher, wire) = {
            let g = self.w.lock();
            (g.dirs[tl.up].sent.clone(), g.dirs[self.outd].sent.clone())
        };
        // nothing but TLS on the wire
        let left = match tls::records(&cipher) {
            Err(e) => {
                self.bad(&["W21"], "plain-text", format!("not TLS on the wire: {}", e));
                return Next::Bad;
            }
            Ok((v, left)) => {
                if v.is_empty() && verdict().is_none() {
                    self.bad(&["W21", "W15"], "no-hello", "no ClientHello was sent".into());
                    return Next::Bad;
                }
                left
            }
        };
        if left > 0 && tl.damage == Damage::None && verdict().is_none() {
            self.bad(&["W21", "W15"], "torn-record", format!("{} bytes of an unfinished record", left));
            return Next::Bad;
        }
        if let Some(n) = tls::server_name(&cipher) {
            let ip = host.starts_with('[') || host.ends_with(|c: char| c.is_ascii_digit());
            let want = if ip { None } else { Some(host.to_string()) };
            if n != want {
                self.bad(&["W21"], "server-name", format!("the hello asks for {:?}, the url names {:?}", n, host));
                return Next::Bad;
            }
        }
        let speaks = tl.far.junk.is_none() && !tl.far.mute && !(tl.far.old && tl.modern);
        let trusted = tls::trusted(tl.trust, tl.far.cert, host, epoch);
        let hit = {
            let g = self.w.lock();
            match tl.damage {
                Damage::None | Damage::Data(..) => false,
                Damage::CutDown(n, _) => g.dirs[tl.down].delivered >= n,
                Damage::CutUp(n, _) => g.dirs[tl.up].delivered >= n,
                Damage::Down(n, _) => g.dirs[tl.down].sent.len() as u64 > n,
                Damage::Up(n, _) => g.dirs[tl.up].sent.len() as u64 > n,
            }
        };
        if speaks && trusted && !hit {
            let mut g = self.w.lock();
            for d in [tl.up, tl.down] {
                g.dirs[d].cut = None;
                g.dirs[d].corrupt = None;
            }
            g.probe("tls_connected");
            return Next::On;
        }
        if !(speaks && trusted) && !wire.is_empty() {
            self.bad(&["W21"], "told-a-stranger", format!("{} bytes were sent to a server that must not be trusted: {:?}", wire.len(), String::from_utf8_lossy(&wire)));
            return Next::Bad;
        }
        let mut v = verdict();
        if v.is_none() {
            // only these may leave a client waiting
            if !tl.far.mute && matches!(tl.damage, Damage::None | Damage::Data(..) | Damage::CutDown(..)) || tl.far.mute && hit && matches!(tl.damage, Damage::CutDown(..)) {
                self.bad(&["W21", "W15", "W14"], "hang", format!("the TLS handshake cannot succeed ({}), connect has not finished", if trusted { "damaged" } else { "not to be trusted" }));
                return Next::Bad;
            }
            {
                let mut g = self.w.lock();
                if g.tape.choose(2) == 0 {
                    g.do_fin(tl.down);
                } else {
                    g.do_rst(tl.down);
                }
            }
            if !settle(self.w, self.outd) {
                self.stuck();
                return Next::Bad;
            }
            if self.dead() {
                return Next::Bad;
            }
            v = verdict();
        }
        let plain_fault = speaks && !hit;
        match v {
            Some(Err(ref c)) if c == "tls" || (c == "io" || c == "http" || c == "closed") && !plain_fault => {}
            v => {
                self.bad(&["W21", "W08"], "tls-verdict", format!("{}, connect reports {:?}", if plain_fault { "the server must not be trusted" } else { "the TLS connection failed" }, v));
                return Next::Bad;
            }
        }
        let g = self.w.lock();
        if !g.dirs[tl.up].fin && !g.dirs[tl.up].rst {
            drop(g);
            self.bad(&["W21", "W08"], "left-open", "the connection stays open after connect failed".into());
            return Next::Bad;
        }
        drop(g);
        let mut g = self.w.lock();
        g.probe(if plain_fault { "tls_distrusted" } else if hit { "tls_broken" } else { "tls_not_spoken" });
        Next::Skip
    }
    fn bad(&self, props: &[&'static str], class: &str, msg: String) -> bool {
        let mut p = props.to_vec();
        if self.i > 0 && !p.contains(&"W19") {
            p.push("W19");
        }
        if (self.a.tls.is_some() || self.a.trust != Trust::Default) && !p.contains(&"W21") {
            p.push("W21");
        }
        self.w.lock().viol(&p, class, format!("{} [{}]", msg, self.desc));
        false
    }
    fn stuck(&self) {
        self.bad(&["W14", "W15", "W08"], "livelock", "no progress".into());
    }
    fn dead(&self) -> bool {
        let p = self.w.lock().nodes[self.node].panic.clone();
        if let Some(p) = p {
            self.bad(&["W14", "W08", "W10", "W15", "W11"], "panic", format!("panic: {}", p));
            return true;
        }
        false
    }
    fn request_ok(&self, h: &crate::refws::HttpHead, keys: &[(String, bool)]) -> bool {
        let m = self.model;
        let t: &[&'static str] = if self.i > 0 { &["W11", "W19"] } else { &["W11"] };
        let mut expected = vec!["host", "upgrade", "connection", "sec-websocket-key", "sec-websocket-version"];
        let line = format!("GET {} HTTP/1.1", m.target);
        if h.line != line {
            return self.bad(&["W11", "W20"], "request-line", format!("request line {:?}, expected {:?}", h.line, line));
        }
        let one = |n: &str, want: &str| h.get(n) == vec![want];
        if !one("Host", &m.host) {
            return self.bad(t, "host", format!("Host {:?}, expected {:?}", h.get("Host"), m.host));
        }
        let up = h.tokens("Upgrade");
        if up.len() != 1 || !up[0].eq_ignore_ascii_case("websocket") || !h.tokens("Connection").iter().any(|c| c.eq_ignore_ascii_case("upgrade")) || h.tokens("Connection").len() != 1 {
            return self.bad(t, "upgrade-headers", format!("Upgrade {:?} Connection {:?}", h.get("Upgrade"), h.get("Connection")));
        }
        let ver = if m.ver8 == Some(true) { "8" } else { "13" };
        if !one("Sec-WebSocket-Version", ver) {
            return self.bad(t, "version", format!("version {:?}, expected {:?}", h.get("Sec-WebSocket-Version"), ver));
        }
        let key = match h.one("Sec-WebSocket-Key") {
            Some(k) if unb64(k).map_or(false, |k| k.len() == 16) => k,
            k => return self.bad(&["W11", "W19", "W20"], "key", format!("request key {:?}", k)),
        };
        match m.key {
            Some(k) => {
                if key != b64(&k) {
                    return self.bad(&["W11", "W19"], "key", format!("key {:?}, the application fixed {:?}", key, b64(&k)));
                }
            }
            None => {
                if keys.iter().any(|k| k.0 == key) {
                    return self.bad(&["W19"], "key-reused", format!("key {:?} was used by an earlier attempt", key));
                }
            }
        }
        if h.tokens("Sec-WebSocket-Protocol") != m.protos {
            return self.bad(t, "protocols", format!("protocols {:?}, configured {:?}", h.get("Sec-WebSocket-Protocol"), m.protos));
        }
        expected.push("sec-websocket-protocol");
        let ex: Vec<String> = m.exts.iter().map(|e| norm(&ext_str(e))).collect();
        let hx: Vec<String> = h.tokens("Sec-WebSocket-Extensions").iter().map(|s| norm(s)).collect();
        if ex != hx {
            return self.bad(t, "extensions", format!("extensions {:?}, configured {:?}", hx, ex));
        }
        expected.push("sec-websocket-extensions");
        let origin: Vec<&str> = m.origin.iter().map(|s| s.as_str()).collect();
        if h.get("Origin") != origin {
            return self.bad(t, "origin", format!("origin {:?}, configured {:?}", h.get("Origin"), origin));
        }
        expected.push("origin");
        if let Some(a) = &m.auth {
            if !one("Authorization", a) {
                return self.bad(t, "credentials", format!("Authorization {:?}, expected {:?}", h.get("Authorization"), a));
            }
            expected.push("authorization");
        }
        let mut names: Vec<String> = expected.iter().map(|s| s.to_string()).collect();
        for (n, vs) in &m.custom {
            let l = n.to_ascii_lowercase();
            if RESERVED.contains(&l.as_str()) || (l == "authorization" && m.auth.is_some()) {
                continue;
            }
            let have = h.get(n);
            if &have != vs {
                return self.bad(t, "custom-header", format!("custom header {} {:?} was sent as {:?}", n, vs, have));
            }
            names.push(l);
        }
        for (n, v) in &h.headers {
            if !names.contains(&n.to_ascii_lowercase()) {
                return self.bad(&["W11", "W19"], "extra-header", format!("header {}: {} is in no configuration", n, v));
            }
        }
        true
    }
    fn verify(&self, rp: &Gen, tr: &Traffic, req_len: usize, hl: usize, closed: bool) -> bool {
        let (avail, wire, wfail, fin) = {
            let g = self.w.lock();
            (g.dirs[self.into].delivered as usize, g.dirs[self.outd].sent.clone(), g.dirs[self.outd].wfail, g.dirs[self.outd].fin)
        };
        let res = self.res.lock().unwrap()[self.i].clone();
        let o = self.out.lock().unwrap();
        let complete = avail >= hl;
        let reset = self.reset;
        let timeout = self.a.timeout.is_some();
        let fault = wfail.map_or(false, |(at, _)| wire.len() as u64 >= at);
        match &res.verdict {
            None => {
                if complete {
                    return self.bad(&["W15", "W08"], "no-result", "the whole reply has arrived, connect has not finished".into());
                }
                if closed {
                    return self.bad(&["W14", "W15", "W08"], "hang", format!("the reply ended after {} of {} bytes, connect has not finished", avail, hl));
                }
                return true;
            }
            Some(Err(c)) => {
                if wire.len() != req_len {
                    return self.bad(&["W08"], "wrote-after-failure", format!("{} bytes written behind the request although connect failed ({})", wire.len() - req_len, c));
                }
                if !fin && !reset {
                    return self.bad(&["W08"], "left-open", format!("the connection stays open after connect failed ({})", c));
                }
                if rp.either || (timeout && (c == "io" || c == "http")) {
                    return true;
                }
                let io = c == "io" || c == "http" || c == "closed";
                if rp.causes.is_empty() {
                    if complete && !(reset && io) {
                        return self.bad(&["W08", "W02"], "refused-valid", format!("a correct reply was refused: {}", c));
                    }
                    if !io || !(closed || reset) {
                        return self.bad(&["W08"], "refused-valid", format!("a correct reply was refused after {} of {} bytes: {}", avail, hl, c));
                    }
                    return true;
                }
                if (!complete && closed || reset) && io {
                    return true;
                }
                if rp.malformed {
                    if io {
                        return true;
                    }
                    return self.bad(&["W08"], "wrong-error", format!("a malformed reply was reported as {:?}", c));
                }
                let has = |x: &str| rp.causes.iter().any(|y| *y == x);
                let st = match &rp.location {
                    Some(l) if has("status") && (300..400).contains(&rp.status) => format!("redirect {} {}", rp.status, l),
                    _ => format!("status {}", rp.status),
                };
                let ok = has(c.as_str()) && c != "status" || has("status") && *c == st;
                if !ok {
                    return self.bad(&["W08"], "wrong-error", format!("reported {:?}, the failing conditions are {:?} ({})", c, rp.causes, st));
                }
                return true;
            }
            Some(Ok(())) => {}
        }
        if !complete {
            return self.bad(&["W08"], "early-success", format!("connected after {} of {} bytes of the reply", avail, hl));
        }
        if !rp.causes.is_empty() && !rp.either {
            let mut t = vec!["W08"];
            if rp.causes.contains(&"accept") {
                t.push("W19");
            }
            return self.bad(&t, "accepted-wrong", format!("connected although: {:?}", rp.causes));
        }
        // -------------------------------------------------------- what the client reports
        if let (Some(p), false) = (res.peer, closed) {
            let d = self.w.lock().kern.dialed.last().copied();
            if d != crate::kernel::v4(p) || p.is_ipv6() != self.model.host.starts_with('[') {
                return self.bad(&["W08", "W11"], "wrong-address", format!("the connection is to {:?}, the client reports {}", d, p));
            }
        }
        if !rp.either {
            if let Some(h) = &o.headers {
                let mut want: Vec<(String, Vec<String>)> = vec![];
                for (n, v) in &rp.headers {
                    match want.iter_mut().find(|w| w.0.eq_ignore_ascii_case(n)) {
                        Some(w) => w.1.push(v.trim().into()),
                        None => want.push((n.clone(), vec![v.trim().into()])),
                    }
                }
                let have = raw_headers(h);
                for (n, vs) in &want {
                    if rp.junk.contains(n) {
                        continue;
                    }
                    let x: Vec<Vec<String>> = have.iter().filter(|x| x.0.eq_ignore_ascii_case(n)).map(|x| x.1.iter().map(|v| String::from_utf8_lossy(v).trim().to_string()).collect()).collect();
                    if x.len() != 1 || &x[0] != vs {
                        return self.bad(&["W11"], "reply-header", format!("reply header {} {:?} is reported as {:?}", n, vs, x));
                    }
                }
                if have.len() != want.len() {
                    return self.bad(&["W11"], "reply-header", format!("{} header names reported, {} arrived", have.len(), want.len()));
                }
            }
            if rp.junk.is_empty() && (res.protos.as_ref().map_or(false, |p| *p != rp.protos) || res.exts.as_ref().map_or(false, |e| *e != rp.exts)) {
                return self.bad(&["W11"], "reply-meta", format!("client reports protocols {:?} extensions {:?}, the reply says {:?} {:?}", res.protos, res.exts, rp.protos, rp.exts));
            }
        }
        // -------------------------------------------------------- frames sent
        match strict_decode(&wire[req_len..], true) {
            Err(e) => return self.bad(&["W20", "W12", "W06"], "bad-frames", format!("frames behind the request: {}", e)),
            Ok((fs, left)) => {
                if left > 0 && !fault && !reset {
                    return self.bad(&["W12", "W15"], "torn-frame", format!("{} bytes of an unfinished frame", left));
                }
                for (j, (f, _)) in fs.iter().enumerate() {
                    let m = M::from_parts(f.op, &f.data);
                    if !f.fin || f.rsv != 0 || m.as_ref() != self.a.msgs.get(j) {
                        return self.bad(&["W01", "W12", "W20", "W06"], "wrong-frame", format!("frame {} is {}", j, f.short()));
                    }
                }
                if fs.len() < o.sent_ok {
                    return self.bad(&["W01", "W12"], "lost-frame", format!("{} sends succeeded, {} frames are on the wire", o.sent_ok, fs.len()));
                }
                if o.send_err && !fault && !reset {
                    return self.bad(&["W12"], "send-failed", "a send failed without cause".into());
                }
                if fault || reset && o.send_err {
                    return true;
                }
            }
        }
        // -------------------------------------------------------- bytes received
        if o.raw_mode {
            let want = &tr.behind[..(avail - hl).min(tr.behind.len())];
            if o.raw != want && !(reset && want.starts_with(&o.raw)) {
                return self.bad(&["W10"], "bytes-lost", format!("{} bytes followed the reply, {} were given back: {}", want.len(), o.raw.len(), diff(&o.raw, want)));
            }
            if closed && !fin && !reset {
                return self.bad(&["W15", "W14"], "hang", "the raw stream does not end".into());
            }
            return true;
        }
        let got = self.log.snapshot();
        let got = match got.first() {
            Some(Got::Up) => &got[1..],
            _ => return true,
        };
        match check_recv(&tr.full, got, avail - hl, closed, reset) {
            Ok(()) => true,
            Err((class, msg)) => {
                let mut t = vec!["W10", "W02", "W05"];
                if self.model.limits.0 < 1 << 20 { t.push("W07") }
                if matches!(self.a.after, After::Read(Api::SplitMsg) | After::Read(Api::SplitFrame) | After::Read(Api::SplitMsgIter)) { t.push("W16") }
                if class == "missing" || class == "hang" { t.push("W15") }
                if class == "hang" { t.extend(["W13", "W14"]) }
                self.bad(&t, class, msg)
            }
        }
    }
}
