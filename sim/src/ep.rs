//! Adaptors around the library's endpoints: how they are brought up, how they are read,
//! and how their results are classified. Everything here runs inside simulated nodes.
use crate::exec;
use crate::kernel;
use crate::refws::{F, M};
use crate::world::{cur, wait_readable, DirId, Inner, Mode, SimSock, SockInner, W};
use libc::c_int;
use std::net::{Ipv4Addr, SocketAddrV4, TcpStream};
use std::os::fd::FromRawFd;
use std::time::Duration;
use futures::{Async, Future, Poll, Stream as _};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::http::h1::parse_request;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_codec::{Decoder, Framed};
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::{DataFrame, Opcode};
use websocket::message::CloseData;
use websocket::server::upgrade::r#async::IntoWs as AsyncIntoWs;
use websocket::server::upgrade::sync::{HyperRequest, IntoWs as SyncIntoWs, RequestStreamPair};
use websocket::stream::{ReadWritePair, Stream};
use websocket::sync::Client;
use websocket::ws::Receiver as _;
use websocket::{ClientBuilder, OwnedMessage, WebSocketError};

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    /// the handshake completed
    Up,
    Msg(M),
    Frame(F),
    /// a protocol violation was reported
    Proto(String),
    /// the end of the data was reported
    End(String),
    /// the handshake failed
    HsErr(String),
}

impl Got {
    pub fn short(&self) -> String {
        match self {
            Got::Up => "connected".into(),
            Got::Msg(m) => m.short(),
            Got::Frame(f) => f.short(),
            Got::Proto(s) => format!("protocol-error({})", s),
            Got::End(s) => format!("end({})", s),
            Got::HsErr(s) => format!("handshake-error({})", s),
        }
    }
}

#[derive(Default)]
pub struct LogInner {
    pub got: Vec<Got>,
    pub peak: usize,
    /// how many results are still asked for once the first error or end was reported
    pub late_left: u32,
    pub late: Vec<Got>,
    ended: bool,
}
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<LogInner>>);
impl Log {
    pub fn push(&self, g: Got) {
        if let Some((w, me)) = cur() {
            let mut i = w.lock();
            if i.keep_trace {
                let s = format!("{} reports {}", i.nodes[me].name, g.short());
                i.note(s);
            }
        }
        let mut i = self.0.lock().unwrap();
        if i.ended && i.late_left > 0 {
            i.late_left -= 1;
            i.late.push(g);
            return;
        }
        if matches!(g, Got::Proto(_) | Got::End(_)) {
            i.ended = true;
        }
        i.got.push(g)
    }
    /// Whether reading goes on after an error or the end was reported.
    pub fn go_on(&self) -> bool {
        self.0.lock().unwrap().late_left > 0
    }
    /// Whether all the further results were had.
    pub fn sated(&self) -> bool {
        let i = self.0.lock().unwrap();
        i.late_left == 0 && !i.late.is_empty()
    }
    pub fn snapshot(&self) -> Vec<Got> {
        self.0.lock().unwrap().got.clone()
    }
}

pub fn to_m(m: OwnedMessage) -> M {
    match m {
        OwnedMessage::Text(s) => M::Text(s),
        OwnedMessage::Binary(v) => M::Binary(v),
        OwnedMessage::Ping(v) => M::Ping(v),
        OwnedMessage::Pong(v) => M::Pong(v),
        OwnedMessage::Close(None) => M::Close(None),
        OwnedMessage::Close(Some(c)) => M::Close(Some((c.status_code, c.reason))),
    }
}
pub fn to_owned(m: &M) -> OwnedMessage {
    match m {
        M::Text(s) => OwnedMessage::Text(s.clone()),
        M::Binary(v) => OwnedMessage::Binary(v.clone()),
        M::Ping(v) => OwnedMessage::Ping(v.clone()),
        M::Pong(v) => OwnedMessage::Pong(v.clone()),
        M::Close(None) => OwnedMessage::Close(None),
        M::Close(Some((c, r))) => OwnedMessage::Close(Some(CloseData::new(*c, r.clone()))),
    }
}
pub fn to_borrowed(m: &M) -> websocket::Message<'_> {
    match m {
        M::Text(s) => websocket::Message::text(s.as_str()),
        M::Binary(v) => websocket::Message::binary(&v[..]),
        M::Ping(v) => websocket::Message::ping(&v[..]),
        M::Pong(v) => websocket::Message::pong(&v[..]),
        M::Close(None) => websocket::Message::close(),
        M::Close(Some((c, r))) => websocket::Message::close_because(*c, r.as_str()),
    }
}
pub fn to_f(d: DataFrame) -> F {
    let r = d.reserved;
    F { fin: d.finished, rsv: (r[0] as u8) << 2 | (r[1] as u8) << 1 | r[2] as u8, op: d.opcode as u8, mask: None, data: d.data }
}
pub fn to_df(f: &F) -> DataFrame {
    DataFrame {
        finished: f.fin,
        reserved: [f.rsv & 4 != 0, f.rsv & 2 != 0, f.rsv & 1 != 0],
        opcode: Opcode::new(f.op).expect("opcode"),
        data: f.data.clone(),
    }
}

pub enum Cls {
    Proto(String),
    End(String),
    Retry,
}

pub fn classify(e: &WebSocketError) -> Cls {
    match e {
        WebSocketError::ProtocolError(s) | WebSocketError::DataFrameError(s) => Cls::Proto(s.to_string()),
        WebSocketError::Utf8Error(e) => Cls::Proto(e.to_string()),
        WebSocketError::NoDataAvailable => Cls::End("no data".into()),
        WebSocketError::IoError(e) => match e.kind() {
            ErrorKind::InvalidData => Cls::Proto(e.to_string()),
            ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted => Cls::Retry,
            _ => Cls::End(format!("{:?}", e.kind())),
        },
        WebSocketError::Other(e) => Cls::Proto(e.to_string()),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Client,
    Server,
}

/// How the endpoint is brought up.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Up {
    SyncHs,
    AsyncHs,
    /// server: a request parsed beforehand
    Pair,
    /// server: a request parsed by hyper
    Hyper,
    SyncRaw,
    AsyncRaw,
    /// ws::Receiver used directly on the stream
    Direct,
}

impl Up {
    pub fn handshake(self) -> bool {
        matches!(self, Up::SyncHs | Up::AsyncHs | Up::Pair | Up::Hyper)
    }
    pub fn is_async(self) -> bool {
        matches!(self, Up::AsyncHs | Up::AsyncRaw)
    }
}

/// How it is read.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    Msg,
    MsgIter,
    Frame,
    FrameIter,
    SplitMsg,
    SplitMsgIter,
    SplitFrame,
    SplitFrameIter,
}
impl Api {
    pub fn frames(self) -> bool {
        matches!(self, Api::Frame | Api::FrameIter | Api::SplitFrame | Api::SplitFrameIter)
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub role: Role,
    pub up: Up,
    pub api: Api,
    pub limits: Option<(usize, usize)>,
}

impl Cfg {
    /// reads with DataFrame::read_dataframe_with_limit or DataFrame::read_dataframe
    pub fn stateless(&self) -> bool {
        self.up == Up::Direct && matches!(self.api, Api::FrameIter | Api::SplitFrame)
    }
    pub fn unlimited(&self) -> bool {
        self.up == Up::Direct && self.api == Api::SplitFrame
    }
    pub fn desc(&self) -> String {
        format!("{:?}/{:?}/{:?} limits={:?}", self.role, self.up, self.api, self.limits)
    }
}

/// Waiting place for an endpoint whose reads fail with would-block or timed-out.
#[derive(Clone)]
pub struct Wait {
    pub w: W,
    pub d: DirId,
}

/// Records one receive result; false when reading is over.
pub fn rec<T>(r: Result<T, WebSocketError>, conv: impl Fn(T) -> Got, log: &Log, wait: &Wait) -> bool {
    match r {
        Ok(x) => {
            log.push(conv(x));
            !log.sated()
        }
        Err(e) => match classify(&e) {
            Cls::Retry => {
                wait_readable(&wait.w, wait.d);
                true
            }
            Cls::Proto(s) => {
                log.push(Got::Proto(s));
                log.go_on()
            }
            Cls::End(s) => {
                log.push(Got::End(s));
                log.go_on()
            }
        },
    }
}

pub fn drain<S: Stream>(c: &mut Client<S>, api: Api, wait: &Wait, log: &Log) {
    let m = |x| Got::Msg(to_m(x));
    let f = |x| Got::Frame(to_f(x));
    match api {
        Api::Frame | Api::SplitFrame => while rec(c.recv_dataframe(), f, log, wait) {},
        Api::FrameIter | Api::SplitFrameIter => {
            for r in c.incoming_dataframes() {
                if !rec(r, f, log, wait) {
                    return;
                }
            }
            log.push(Got::End("iterator ended".into()))
        }
        Api::MsgIter | Api::SplitMsgIter => {
            for r in c.incoming_messages() {
                if !rec(r, m, log, wait) {
                    return;
                }
            }
            log.push(Got::End("iterator ended".into()))
        }
        Api::Msg | Api::SplitMsg => while rec(c.recv_message(), m, log, wait) {},
    }
}

pub fn drain_reader<R: Read>(c: &mut websocket::receiver::Reader<R>, api: Api, wait: &Wait, log: &Log) {
    let m = |x| Got::Msg(to_m(x));
    let f = |x| Got::Frame(to_f(x));
    match api {
        Api::Frame | Api::SplitFrame => while rec(c.recv_dataframe(), f, log, wait) {},
        Api::FrameIter | Api::SplitFrameIter => {
            for r in c.incoming_dataframes() {
                if !rec(r, f, log, wait) {
                    return;
                }
            }
            log.push(Got::End("iterator ended".into()))
        }
        Api::MsgIter | Api::SplitMsgIter => {
            for r in c.incoming_messages() {
                if !rec(r, m, log, wait) {
                    return;
                }
            }
            log.push(Got::End("iterator ended".into()))
        }
        Api::Msg | Api::SplitMsg => while rec(c.recv_message(), m, log, wait) {},
    }
}

/// Reads an asynchronous stream until it ends, recording every item.
pub struct Drain<St, C> {
    pub st: Option<St>,
    pub conv: C,
    pub log: Log,
}

impl<St, C> Future for Drain<St, C>
where
    St: futures::Stream<Error = WebSocketError>,
    C: Fn(St::Item) -> Got,
{
    type Item = St;
    type Error = ();
    fn poll(&mut self) -> Poll<St, ()> {
        loop {
            match self.st.as_mut().unwrap().poll() {
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Ok(Async::Ready(Some(x))) => {
                    self.log.push((self.conv)(x));
                    if self.log.sated() {
                        return Ok(Async::Ready(self.st.take().unwrap()));
                    }
                    continue;
                }
                Ok(Async::Ready(None)) => self.log.push(Got::End("stream ended".into())),
                Err(e) => match classify(&e) {
                    Cls::Proto(s) => self.log.push(Got::Proto(s)),
                    Cls::End(s) => self.log.push(Got::End(s)),
                    Cls::Retry => self.log.push(Got::End("would-block surfaced".into())),
                },
            }
            if !self.log.go_on() {
                return Ok(Async::Ready(self.st.take().unwrap()));
            }
        }
    }
}

pub const URL: &str = "ws://sim.example:8123/chat?room=1";

pub fn client_builder(limits: Option<(usize, usize)>) -> ClientBuilder<'static> {
    let b = ClientBuilder::new(URL).expect("url");
    match limits {
        Some((f, m)) => b.max_dataframe_size(f).max_message_size(m),
        None => b,
    }
}

/// A reader that hands out one byte at a time, so that a parser takes no byte it does not need.
pub struct OneByte<'a, R: Read>(pub &'a mut R);
impl<'a, R: Read> Read for OneByte<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.0.read(&mut b[..1])
    }
}

/// A synchronous connection of any stream type, handed to the continuation.
pub fn accept_sync<S: Stream>(up: websocket::server::upgrade::sync::Upgrade<S>, limits: Option<(usize, usize)>) -> Result<Client<S>, String> {
    match limits {
        Some((f, m)) => up.accept_with_limits(f, m),
        None => up.accept(),
    }
    .map_err(|(_, e)| format!("accept: {}", e))
}

/// A synchronous transport the simulator controls.
pub trait Sock: Stream + websocket::sync::stream::Splittable + Sized + 'static
where
    Self::Reader: 'static,
    Self::Writer: Send + 'static,
{
    type Net: hyper::net::NetworkStream;
    /// How reads on an empty pipe behave from now on.
    fn reads(&self, m: Mode);
    /// The same socket again.
    fn dup(&self) -> Self;
    fn net(self) -> Self::Net;
}

impl Sock for SimSock {
    type Net = SimSock;
    fn reads(&self, m: Mode) {
        self.set_mode(m)
    }
    fn dup(&self) -> SimSock {
        self.clone()
    }
    fn net(self) -> SimSock {
        self
    }
}

/// The reading side of a socket, and nothing else.
pub struct In(pub SimSock);
/// The writing side.
pub struct Out(pub SimSock);
impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl tokio_io::AsyncRead for In {}
impl tokio_io::AsyncWrite for Out {
    fn shutdown(&mut self) -> Poll<(), io::Error> {
        self.0.close_write();
        Ok(Async::Ready(()))
    }
}
pub type RwPair = ReadWritePair<In, Out>;
pub fn rw_pair(s: SimSock) -> RwPair {
    ReadWritePair(In(s.clone()), Out(s))
}
impl Sock for RwPair {
    type Net = SimSock;
    fn reads(&self, m: Mode) {
        (self.0).0.set_mode(m)
    }
    fn dup(&self) -> RwPair {
        rw_pair((self.0).0.clone())
    }
    fn net(self) -> SimSock {
        (self.0).0
    }
}

impl Sock for TcpStream {
    type Net = hyper::net::HttpStream;
    fn reads(&self, m: Mode) {
        match m {
            Mode::Fail(ErrorKind::WouldBlock) => self.set_nonblocking(true).expect("set_nonblocking"),
            Mode::Fail(_) => self.set_read_timeout(Some(Duration::from_millis(5))).expect("set_read_timeout"),
            _ => {}
        }
    }
    fn dup(&self) -> TcpStream {
        self.try_clone().expect("try_clone")
    }
    fn net(self) -> hyper::net::HttpStream {
        hyper::net::HttpStream(self)
    }
}

/// What an endpoint runs over: the simulator's own stream type, or a real `TcpStream` whose
/// system calls the simulator answers.
pub enum Conn {
    Sim(SimSock),
    /// two one-way streams the library's ReadWritePair makes one of
    Pair(SimSock),
    Fd(c_int, W, DirId),
}

impl Conn {
    /// Puts the endpoint's end of a connection on one or the other.
    pub fn over(g: &mut Inner, w: &W, rd: DirId, wr: DirId, tcp: bool) -> Conn {
        if !tcp {
            return Conn::Sim(SimSock(Arc::new(SockInner { w: w.clone(), rd, wr, mode: Mutex::new(Mode::Blocking) })));
        }
        let (a, b) = (SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 2), 5000), SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, 1), 80));
        Conn::Fd(kernel::stream_fd(g, rd, wr, a, b), w.clone(), rd)
    }
    /// The same; the simulator's own stream may come as two one-way streams.
    pub fn any(g: &mut Inner, w: &W, rd: DirId, wr: DirId, tcp: bool) -> Conn {
        match Conn::over(g, w, rd, wr, tcp) {
            Conn::Sim(s) if g.tape.chance(250) => {
                g.probe("read_write_pair");
                Conn::Pair(s)
            }
            c => c,
        }
    }
    pub fn tcp(fd: c_int) -> TcpStream {
        unsafe { TcpStream::from_raw_fd(fd) }
    }
    pub fn wait(&self) -> Wait {
        match self {
            Conn::Sim(s) | Conn::Pair(s) => Wait { w: s.0.w.clone(), d: s.0.rd },
            Conn::Fd(_, w, d) => Wait { w: w.clone(), d: *d },
        }
    }
}

pub fn tokio_tcp(fd: c_int) -> tokio_tcp::TcpStream {
    tokio_tcp::TcpStream::from_std(Conn::tcp(fd), &tokio_reactor::Handle::default()).expect("from_std")
}

pub fn sync_server_up<S: Sock>(sock: S, up: Up, limits: Option<(usize, usize)>) -> Result<Client<S>, String>
where
    S::Writer: Send,
{
    match up {
        Up::SyncHs => {
            let u = SyncIntoWs::into_ws(sock).map_err(|e| format!("{:?}", e.3))?;
            accept_sync(u, limits)
        }
        Up::Pair => {
            let mut s2 = sock.dup();
            let req = parse_request(&mut BufReader::new(OneByte(&mut s2))).map_err(|e| format!("harness parse: {}", e))?;
            let u = SyncIntoWs::into_ws(RequestStreamPair(sock, req)).map_err(|e| format!("{:?}", e.2))?;
            accept_sync(u, limits)
        }
        _ => unreachable!(),
    }
}

/// A server connection from a request that hyper's server has read already, given to `f`.
pub fn hyper_up<S: Sock>(sock: S, limits: Option<(usize, usize)>, log: &Log, f: impl FnOnce(&S, &mut Client<&'_ mut &'_ mut dyn hyper::net::NetworkStream>))
where
    S::Writer: Send,
{
    let mut s2 = sock.dup().net();
    let stream: &mut dyn hyper::net::NetworkStream = &mut s2;
    let mut br = BufReader::new(stream);
    match hyper::server::Request::new(&mut br, "10.0.0.2:4000".parse().unwrap()) {
        Err(e) => log.push(Got::HsErr(format!("harness parse: {}", e))),
        Ok(req) => match HyperRequest(req).into_ws() {
            Err((_, e)) => log.push(Got::HsErr(format!("{:?}", e))),
            Ok(u) => match accept_sync(u, limits) {
                Err(e) => log.push(Got::HsErr(e)),
                Ok(mut c) => f(&sock, &mut c),
            },
        },
    }
}

fn drain_any_sync<S: Sock>(mut c: Client<S>, cfg: &Cfg, wait: &Wait, log: &Log)
where
    S::Writer: Send,
{
    if matches!(cfg.api, Api::SplitMsg | Api::SplitMsgIter | Api::SplitFrame | Api::SplitFrameIter) {
        match c.split() {
            Ok((mut r, w)) => {
                drain_reader(&mut r, cfg.api, wait, log);
                drop(w);
            }
            Err(e) => log.push(Got::End(format!("split failed: {}", e))),
        }
    } else {
        drain(&mut c, cfg.api, wait, log)
    }
}

/// The body of a node that brings up one endpoint and reads it until it ends.
/// `mode`: how a read on an empty pipe behaves once the connection is up.
pub fn run_reader(conn: Conn, cfg: Cfg, mode: Mode, log: Log) {
    let m0 = crate::alloc::mark();
    let wait = conn.wait();
    match conn {
        Conn::Sim(s) if cfg.up.is_async() => {
            s.set_mode(Mode::Async);
            read_async(s, &cfg, &log)
        }
        Conn::Pair(s) if cfg.up.is_async() => {
            s.set_mode(Mode::Async);
            read_async(rw_pair(s), &cfg, &log)
        }
        Conn::Fd(fd, ..) if cfg.up.is_async() => exec::with_reactor(|| read_async(tokio_tcp(fd), &cfg, &log)),
        Conn::Sim(s) => read_sync(s, &cfg, mode, &wait, &log),
        Conn::Pair(s) => read_sync(rw_pair(s), &cfg, mode, &wait, &log),
        Conn::Fd(fd, ..) => read_sync(Conn::tcp(fd), &cfg, mode, &wait, &log),
    }
    log.0.lock().unwrap().peak = crate::alloc::peak_since(m0);
}

fn read_sync<S: Sock>(sock: S, cfg: &Cfg, mode: Mode, wait: &Wait, log: &Log)
where
    S::Writer: Send,
{
    let after = |c: Result<Client<S>, String>| match c {
        Ok(c) => {
            c.stream_ref().reads(mode);
            log.push(Got::Up);
            drain_any_sync(c, cfg, wait, log);
        }
        Err(e) => log.push(Got::HsErr(e)),
    };
    match (cfg.role, cfg.up) {
        (Role::Client, Up::SyncHs) => after(client_builder(cfg.limits).connect_on(sock).map_err(|e| format!("{:?}", e))),
        (Role::Server, Up::SyncHs) | (Role::Server, Up::Pair) => after(sync_server_up(sock, cfg.up, cfg.limits)),
        (Role::Server, Up::Hyper) => hyper_up(sock, cfg.limits, log, |s, c| {
            s.reads(mode);
            log.push(Got::Up);
            drain(c, cfg.api, wait, log);
        }),
        (role, Up::SyncRaw) | (role, Up::Pair) | (role, Up::Hyper) => {
            let br = BufReader::new(sock);
            let (o, i) = (role == Role::Client, role == Role::Server);
            after(Ok(match cfg.limits {
                Some((f, m)) => Client::unchecked_with_limits(br, Headers::new(), o, i, f, m),
                None => Client::unchecked(br, Headers::new(), o, i),
            }))
        }
        (role, _) => {
            sock.reads(mode);
            let mut s = sock;
            let mask = role == Role::Server;
            let mut r = match cfg.limits {
                Some((f, m)) => websocket::receiver::Receiver::new_with_limits(mask, f, m),
                None => websocket::receiver::Receiver::new(mask),
            };
            log.push(Got::Up);
            // the frame reading functions themselves keep nothing between calls: they block
            if cfg.stateless() {
                loop {
                    let r = if cfg.api == Api::FrameIter {
                        DataFrame::read_dataframe_with_limit(&mut s, mask, cfg.limits.map_or(crate::refws::DEFAULT_LIMITS.frame as usize, |l| l.0))
                    } else {
                        DataFrame::read_dataframe(&mut s, mask)
                    };
                    if !rec(r, |x| Got::Frame(to_f(x)), log, wait) {
                        break;
                    }
                }
            } else if cfg.api.frames() {
                while rec(r.recv_dataframe(&mut s), |x| Got::Frame(to_f(x)), log, wait) {}
            } else if cfg.api == Api::Msg {
                while rec(r.recv_message(&mut s), |x| Got::Msg(to_m(x)), log, wait) {}
            } else {
                // the frames of one message
                let conv = |fs: Vec<DataFrame>| {
                    use websocket::ws::Message as _;
                    match OwnedMessage::from_dataframes(fs) {
                        Ok(m) => Got::Msg(to_m(m)),
                        Err(e) => match classify(&e) {
                            Cls::Proto(s) => Got::Proto(s),
                            _ => Got::End(format!("{:?}", e)),
                        },
                    }
                };
                loop {
                    if !rec(r.recv_message_dataframes(&mut s), &conv, log, wait) {
                        break;
                    }
                    let over = matches!(log.0.lock().unwrap().got.last(), Some(Got::Proto(_)) | Some(Got::End(_)));
                    if log.sated() || (over && !log.go_on()) {
                        break;
                    }
                }
            }
        }
    }
}

/// An asynchronous transport the simulator controls.
pub trait ASock: tokio_io::AsyncRead + tokio_io::AsyncWrite + Send + 'static {}
impl<T: tokio_io::AsyncRead + tokio_io::AsyncWrite + Send + 'static> ASock for T {}

fn read_async<T: ASock>(sock: T, cfg: &Cfg, log: &Log) {
    let log2 = log.clone();
    let (api, role, limits) = (cfg.api, cfg.role, cfg.limits);
    let go = async_up(sock, role, cfg.up, limits);
    let fut = go.then(move |r| -> Box<dyn Future<Item = (), Error = ()> + Send> {
        match r {
            Err(e) => {
                log2.push(Got::HsErr(e));
                Box::new(futures::future::ok(()))
            }
            Ok(c) => {
                log2.push(Got::Up);
                drain_async(c, role, api, limits, log2)
            }
        }
    });
    exec::run_tasks(vec![Box::new(fut)]);
}

pub type AClient<T> = Framed<T, MessageCodec<OwnedMessage>>;

/// Brings up an asynchronous endpoint.
pub fn async_up<T: ASock>(sock: T, role: Role, up: Up, limits: Option<(usize, usize)>) -> Box<dyn Future<Item = AClient<T>, Error = String> + Send> {
    match (role, up) {
        (Role::Client, Up::AsyncHs) => Box::new(client_builder(limits).async_connect_on(sock).map(|(c, _)| c).map_err(|e| format!("{:?}", e))),
        (Role::Server, Up::AsyncHs) => Box::new(AsyncIntoWs::into_ws(sock).map_err(|e| format!("{:?}", e.3)).and_then(move |u| {
            match limits {
                Some((f, m)) => u.accept_with_limits(f, m),
                None => u.accept(),
            }
            .map(|(c, _)| c)
            .map_err(|e| format!("accept: {:?}", e))
        })),
        (role, _) => {
            let ctx = if role == Role::Server { Context::Server } else { Context::Client };
            let codec = match limits {
                Some((f, m)) => MessageCodec::new_with_limits(ctx, f, m),
                None => MessageCodec::default(ctx),
            };
            Box::new(futures::future::ok(codec.framed(sock)))
        }
    }
}

fn drain_async<T: ASock>(c: AClient<T>, role: Role, api: Api, limits: Option<(usize, usize)>, log: Log) -> Box<dyn Future<Item = (), Error = ()> + Send> {
    let ctx = if role == Role::Server { Context::Server } else { Context::Client };
    let cm = |x: OwnedMessage| Got::Msg(to_m(x));
    let cf = |x: DataFrame| Got::Frame(to_f(x));
    match api {
        Api::Msg | Api::MsgIter => Box::new(Drain { st: Some(c), conv: cm, log }.map(|_| ())),
        Api::SplitMsg | Api::SplitMsgIter => {
            let (sink, st) = c.split();
            Box::new(Drain { st: Some(st), conv: cm, log }.map(move |_| drop(sink)))
        }
        Api::Frame | Api::FrameIter | Api::SplitFrame | Api::SplitFrameIter => {
            let codec: DataFrameCodec<DataFrame> = match limits {
                Some((f, _)) => DataFrameCodec::new_with_limits(ctx, f),
                None => DataFrameCodec::new(ctx),
            };
            let c = websocket::ws::util::update_framed_codec(c, codec);
            Box::new(Drain { st: Some(DfStream(c)), conv: cf, log }.map(|_| ()))
        }
    }
}

/// The dataframe codec's encoder needs a borrowable item type; only its stream side is used here.
pub struct DfStream<T>(pub Framed<T, DataFrameCodec<DataFrame>>);
impl<T: ASock> futures::Stream for DfStream<T> {
    type Item = DataFrame;
    type Error = WebSocketError;
    fn poll(&mut self) -> Poll<Option<DataFrame>, WebSocketError> {
        self.0.poll()
    }
}

#[allow(dead_code)]
pub fn _w(_: &mut dyn Write) {}
