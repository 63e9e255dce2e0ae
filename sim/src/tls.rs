//! TLS in the simulation: OpenSSL gets its randomness and its clock from the simulator, and
//! runs over simulated sockets. This module has the certificates, the connectors an application
//! may use, and the far end of a client's TLS connection.
use crate::exec;
use crate::tape::{mix, Tape};
use crate::world::{DirId, Mode, SimSock, W};
use futures::{Async, Future, Poll};
use native_tls::{Certificate, Identity, Protocol, TlsAcceptor, TlsConnector};
use openssl::ssl::{ErrorCode, HandshakeError, SslAcceptor, SslMethod, SslStream, SslVersion};
use std::cell::Cell;
use std::io::{ErrorKind, Read, Write};
use std::os::raw::{c_int, c_void};

// ------------------------------------------------------------------ randomness

#[repr(C)]
struct RandMethod {
    seed: Option<unsafe extern "C" fn(*const c_void, c_int) -> c_int>,
    bytes: Option<unsafe extern "C" fn(*mut u8, c_int) -> c_int>,
    cleanup: Option<unsafe extern "C" fn()>,
    add: Option<unsafe extern "C" fn(*const c_void, c_int, f64) -> c_int>,
    pseudorand: Option<unsafe extern "C" fn(*mut u8, c_int) -> c_int>,
    status: Option<unsafe extern "C" fn() -> c_int>,
}

extern "C" {
    fn RAND_set_rand_method(m: *const RandMethod) -> c_int;
}

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(1) };
}

pub fn set_thread_seed(s: u64) {
    RNG.with(|r| r.set(mix(s ^ 0x7415)));
}

unsafe extern "C" fn bytes(p: *mut u8, n: c_int) -> c_int {
    RNG.with(|r| {
        for i in 0..n.max(0) as usize {
            let x = r.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
            r.set(x);
            *p.add(i) = (mix(x) >> 24) as u8;
        }
    });
    1
}
unsafe extern "C" fn seed(_: *const c_void, _: c_int) -> c_int {
    1
}
unsafe extern "C" fn add(_: *const c_void, _: c_int, _: f64) -> c_int {
    1
}
unsafe extern "C" fn status() -> c_int {
    1
}

static METHOD: RandMethod = RandMethod { seed: Some(seed), bytes: Some(bytes), cleanup: None, add: Some(add), pseudorand: Some(bytes), status: Some(status) };

/// Once, before any thread is started.
pub fn install(root: &str) {
    // what an application trusts that brings no connector of its own
    std::env::set_var("SSL_CERT_FILE", format!("{}/sim/certs/ca.pem", root));
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    openssl_sys::init();
    unsafe {
        RAND_set_rand_method(&METHOD);
    }
}

// ------------------------------------------------------------------ identities and trust

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cert {
    /// of the simulated CA, for sim.example, *.wild.example, 10.0.0.1 and 2001:db8::a00:1
    Good,
    /// of the simulated CA, for other.example
    Other,
    /// as Good, valid until 2010
    Expired,
    /// as Good, of a CA nobody should know
    Forged,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Trust {
    /// the application brings no connector
    Default,
    Ca,
    /// the other CA, and only that
    Rogue,
    Nobody,
    AnyCert,
    AnyHost,
}

const CA: &[u8] = include_bytes!("../certs/ca.pem");
const ROGUE: &[u8] = include_bytes!("../certs/rogue.pem");

fn pems(c: Cert) -> (&'static [u8], &'static [u8]) {
    match c {
        Cert::Good => (include_bytes!("../certs/good.pem"), include_bytes!("../certs/good.p8")),
        Cert::Other => (include_bytes!("../certs/other.pem"), include_bytes!("../certs/other.p8")),
        Cert::Expired => (include_bytes!("../certs/expired.pem"), include_bytes!("../certs/expired.p8")),
        Cert::Forged => (include_bytes!("../certs/forged.pem"), include_bytes!("../certs/forged.p8")),
    }
}

/// What a server application gives the library.
pub fn acceptor(c: Cert) -> TlsAcceptor {
    let (a, b) = pems(c);
    TlsAcceptor::new(Identity::from_pkcs8(a, b).expect("harness identity")).expect("harness acceptor")
}

/// The far end of a client's connection; this one speaks TLS 1.3 too, unless it is `old`.
fn far_acceptor(c: Cert, old: bool) -> SslAcceptor {
    let (a, b) = pems(c);
    let mut x = SslAcceptor::mozilla_intermediate_v5(SslMethod::tls()).expect("harness acceptor");
    x.set_certificate(&openssl::x509::X509::from_pem(a).expect("harness cert")).expect("harness cert");
    x.set_private_key(&openssl::pkey::PKey::private_key_from_pem(b).expect("harness key")).expect("harness key");
    if old {
        x.set_max_proto_version(Some(SslVersion::TLS1_2)).expect("harness version");
    }
    x.build()
}

/// An accepting handshake in progress.
struct Accept {
    acc: SslAcceptor,
    sock: Option<Quiet>,
    mid: Option<openssl::ssl::MidHandshakeSslStream<Quiet>>,
}

impl Future for Accept {
    type Item = SslStream<Quiet>;
    type Error = ();
    fn poll(&mut self) -> Poll<SslStream<Quiet>, ()> {
        let r = match (self.sock.take(), self.mid.take()) {
            (Some(s), _) => self.acc.accept(s),
            (_, Some(m)) => m.handshake(),
            _ => return Err(()),
        };
        match r {
            Ok(s) => Ok(Async::Ready(s)),
            Err(HandshakeError::WouldBlock(m)) => {
                self.mid = Some(m);
                Ok(Async::NotReady)
            }
            Err(_) => Err(()),
        }
    }
}

/// `modern`: nothing older than TLS 1.3 is spoken.
pub fn connector(t: Trust, modern: bool) -> Option<TlsConnector> {
    let mut b = TlsConnector::builder();
    b.disable_built_in_roots(true);
    let ca = |x| Certificate::from_pem(x).expect("harness ca");
    match t {
        Trust::Default => return None,
        Trust::Ca => {
            b.add_root_certificate(ca(CA));
        }
        Trust::Rogue => {
            b.add_root_certificate(ca(ROGUE));
        }
        Trust::Nobody => {}
        Trust::AnyCert => {
            b.danger_accept_invalid_certs(true);
        }
        Trust::AnyHost => {
            b.add_root_certificate(ca(CA)).danger_accept_invalid_hostnames(true);
        }
    }
    if modern {
        b.min_protocol_version(Some(Protocol::Tlsv13));
    }
    Some(b.build().expect("harness connector"))
}

/// Whether a client may go on with this server: `host` as in the URL, `now` in seconds since 1970.
pub fn trusted(t: Trust, c: Cert, host: &str, now: i64) -> bool {
    if t == Trust::AnyCert {
        return true;
    }
    let issuer = match t {
        Trust::Default | Trust::Ca | Trust::AnyHost => c != Cert::Forged,
        Trust::Rogue => c == Cert::Forged,
        _ => false,
    };
    let from = 946_684_800; // 2000
    let until = if c == Cert::Expired { 1_262_304_000 } else { i64::MAX };
    let name = t == Trust::AnyHost
        || match c {
            Cert::Other => host == "other.example",
            _ => host == "sim.example" || host == "10.0.0.1" || host == "[2001:db8::a00:1]" || host.strip_suffix(".wild.example").map_or(false, |l| !l.is_empty() && !l.contains('.')),
        };
    issuer && name && (from..=until).contains(&now)
}

// ------------------------------------------------------------------ the far end

/// What the server at the far end of a client's connection does.
#[derive(Clone, Debug)]
pub struct Far {
    pub cert: Cert,
    /// TLS 1.2 at most
    pub old: bool,
    /// it does not speak TLS: it says this
    pub junk: Option<Vec<u8>>,
    /// it says nothing
    pub mute: bool,
    /// it ends connections without saying so in TLS
    pub abrupt: bool,
}

/// The far end's socket: what it writes after the client has gone is lost without an error,
/// which leaves it able to read what the client wrote before.
struct Quiet(SimSock);

impl std::fmt::Debug for Quiet {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("socket")
    }
}

impl Read for Quiet {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}

impl Write for Quiet {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self.0.write(b) {
            Err(ref e) if matches!(e.kind(), ErrorKind::BrokenPipe | ErrorKind::ConnectionReset) => Ok(b.len()),
            r => r,
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Relay {
    tls: SslStream<Quiet>,
    /// the cipher text's direction towards this end
    cup: DirId,
    plain: SimSock,
    down: Vec<u8>,
    up_open: bool,
    /// TLS has failed: what else arrives is read and thrown away
    drain: bool,
    down_open: bool,
    closing: bool,
    abrupt: bool,
}

impl Future for Relay {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        let mut b = [0u8; 700];
        while self.up_open {
            match self.tls.read(&mut b) {
                Ok(n) if n > 0 => {
                    let _ = self.plain.write_all(&b[..n]);
                }
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                r => {
                    self.up_open = false;
                    self.drain = r.is_err();
                    self.plain.close_write();
                }
            }
        }
        while self.drain {
            match self.tls.get_mut().0.read(&mut b) {
                Ok(n) if n > 0 => {}
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                _ => self.drain = false,
            }
        }
        loop {
            if self.closing {
                match self.tls.shutdown() {
                    Err(ref e) if matches!(e.code(), ErrorCode::WANT_READ | ErrorCode::WANT_WRITE) => break,
                    _ => {
                        self.tls.get_mut().0.close_write();
                        self.closing = false;
                        self.down_open = false;
                    }
                }
            }
            if !self.down_open {
                break;
            }
            if !self.down.is_empty() {
                match self.tls.write(&self.down) {
                    Ok(n) => {
                        self.down.drain(..n);
                    }
                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                    // nobody is there any more
                    Err(_) => self.down.clear(),
                }
                continue;
            }
            match self.plain.read(&mut b) {
                Ok(n) if n > 0 => self.down.extend_from_slice(&b[..n]),
                Ok(_) if self.abrupt => {
                    self.tls.get_mut().0.close_write();
                    self.down_open = false;
                }
                Ok(_) => self.closing = true,
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(_) => {
                    let w = self.plain.0.w.clone();
                    w.lock().do_rst(self.cup);
                    return Ok(Async::Ready(()));
                }
            }
        }
        if !self.down_open && !self.up_open && !self.drain {
            Ok(Async::Ready(()))
        } else {
            Ok(Async::NotReady)
        }
    }
}

/// Decrypts what a client sends and encrypts what the driver answers.
pub fn far_node(w: W, far: Far, cipher: SimSock, plain: SimSock) {
    let (_, me) = crate::world::cur().unwrap();
    if far.mute {
        let mut b = [0u8; 512];
        let mut c = cipher;
        loop {
            match c.read(&mut b) {
                Ok(n) if n > 0 => {}
                _ => return,
            }
        }
    }
    if let Some(j) = &far.junk {
        let mut c = cipher;
        let _ = c.write_all(j);
        w.sleep(me, 2_000);
        c.close_write();
        return;
    }
    let cup = cipher.0.rd;
    cipher.set_mode(Mode::Async);
    plain.set_mode(Mode::Async);
    let abrupt = far.abrupt;
    let f = Accept { acc: far_acceptor(far.cert, far.old), sock: Some(Quiet(cipher)), mid: None }.and_then(move |tls| Relay { tls, cup, plain, down: vec![], up_open: true, drain: false, down_open: true, closing: false, abrupt });
    let _ = exec::block_on(f);
}

// ------------------------------------------------------------------ what is on the wire

/// Splits cipher text into records; returns them and the number of bytes left over.
pub fn records(b: &[u8]) -> Result<(Vec<(u8, usize, usize)>, usize), String> {
    let mut at = 0;
    let mut v = vec![];
    while b.len() - at >= 5 {
        let (ty, maj) = (b[at], b[at + 1]);
        let n = (b[at + 3] as usize) << 8 | b[at + 4] as usize;
        if !(20..=23).contains(&ty) || maj != 3 || n > 16_384 + 2048 {
            return Err(format!("at byte {}: {:?}", at, String::from_utf8_lossy(&b[at..b.len().min(at + 40)])));
        }
        if b.len() - at - 5 < n {
            break;
        }
        v.push((ty, at + 5, n));
        at += 5 + n;
    }
    Ok((v, b.len() - at))
}

/// The server name in a ClientHello.
pub fn server_name(b: &[u8]) -> Option<Option<String>> {
    let (v, _) = records(b).ok()?;
    let (ty, at, n) = *v.first()?;
    let h = &b[at..at + n];
    if ty != 22 || h.first() != Some(&1) {
        return None;
    }
    let u16at = |i: usize| -> Option<usize> { Some((*h.get(i)? as usize) << 8 | *h.get(i + 1)? as usize) };
    let mut i = 4 + 2 + 32;
    i += 1 + *h.get(i)? as usize;
    i += 2 + u16at(i)?;
    i += 1 + *h.get(i)? as usize;
    let end = (i + 2 + u16at(i)?).min(h.len());
    i += 2;
    while i + 4 <= end {
        let (t, l) = (u16at(i)?, u16at(i + 2)?);
        if t == 0 {
            let k = u16at(i + 4 + 3)?;
            return Some(Some(String::from_utf8_lossy(h.get(i + 4 + 5..i + 4 + 5 + k)?).to_string()));
        }
        i += 4 + l;
    }
    Some(None)
}

pub fn junk(t: &mut Tape) -> Vec<u8> {
    match t.choose(6) {
        0 => b"HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n".to_vec(),
        1 => b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: s3pPLMBiTxaQ9kYGzzhZRbK+xOo=\r\n\r\n".to_vec(),
        2 => vec![21, 3, 3, 0, 2, 2, 40],
        3 => vec![22, 3, 3, 0xff, 0xff, 2, 0, 0, 1],
        4 => vec![],
        _ => {
            let n = t.range(1, 300);
            (0..n).map(|_| t.choose(256) as u8).collect()
        }
    }
}
