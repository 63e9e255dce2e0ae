//! Generated handshake heads, requests and replies, valid and not, with what a correct
//! endpoint may say about each.
use crate::refws::{b64, unb64};
use crate::tape::Tape;

pub type Ext = (String, Vec<(String, Option<String>)>);

/// A generated head. `causes`: the conditions it fails; empty means it must be accepted.
#[derive(Clone, Debug, Default)]
pub struct Gen {
    pub bytes: Vec<u8>,
    pub causes: Vec<&'static str>,
    /// the head is not parseable HTTP
    pub malformed: bool,
    /// either verdict is fine
    pub either: bool,
    pub headers: Vec<(String, String)>,
    pub method: String,
    pub target: String,
    pub key: String,
    pub protos: Vec<String>,
    pub exts: Vec<Ext>,
    pub origin: Option<String>,
    pub version13: bool,
    pub status: u16,
    pub location: Option<String>,
    /// headers that do not decide the handshake, whose values make no sense
    pub junk: Vec<String>,
}

const NAMES: [&str; 10] = ["X-Trace", "Cookie", "User-Agent", "x-lower", "X-UPPER", "Accept-Language", "X_Under", "X-Forwarded-For", "Via", "DNT"];
const VALUES: [&str; 9] = ["1", "a=b; c=d", "sim/1.0 (test)", "", "websocket", "Upgrade", "v:with:colons", "caf\u{e9} \u{4f60}", "tab\tinside, comma"];

/// Headers an application may well set, which mean nothing to the handshake.
const USUAL: [(&str, &str); 30] = [
    ("Content-Length", "0"), ("Content-Type", "text/plain; charset=utf-8"), ("Set-Cookie", "id=1; Path=/; HttpOnly"), ("Set-Cookie", "other=\"2\""), ("Cookie", "id=1; other=2"),
    ("Server", "sim"), ("Date", "Thu, 19 Nov 2026 07:00:00 GMT"), ("Retry-After", "120"), ("WWW-Authenticate", "Basic realm=\"sim\""), ("Vary", "Origin"),
    ("Cache-Control", "no-store, max-age=0"), ("Pragma", "no-cache"), ("Access-Control-Allow-Origin", "*"), ("Strict-Transport-Security", "max-age=1"), ("X-Frame-Options", "DENY"),
    ("User-Agent", "Sim/1.0 (a; b)"), ("Referer", "http://sim.example/a?b=c"), ("Accept", "*/*;q=0.1, text/html"), ("Accept-Encoding", "gzip, br"), ("Accept-Language", "en, *"),
    ("If-None-Match", "\"x\""), ("ETag", "W/\"y\""), ("Proxy-Authorization", "Basic QTpC"), ("From", "a@b.example"), ("Range", "bytes=0-3"),
    ("Last-Modified", "not a date"), ("Allow", ""), ("Sec-WebSocket-Extra", "x"), ("Sec-Fetch-Mode", "websocket"), ("Upgrade-Insecure-Requests", "1"),
];

pub fn ext_str(e: &Ext) -> String {
    let mut s = e.0.clone();
    for (k, v) in &e.1 {
        s.push_str("; ");
        s.push_str(k);
        if let Some(v) = v {
            s.push('=');
            s.push_str(v);
        }
    }
    s
}

const TOKEN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._!#$%&'*+^`|~";
/// What stays as it is in a path, whoever handles it.
const PATH: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~!$&()*+,;=:@";

fn from_set(t: &mut Tape, set: &[u8], n: usize) -> String {
    (0..n).map(|_| set[t.choose(set.len() as u32) as usize] as char).collect()
}

/// Any token of RFC 7230.
pub fn token(t: &mut Tape) -> String {
    let n = match t.choose(8) {
        0 => 1,
        1 => t.range(20, 70),
        _ => t.range(2, 12),
    };
    from_set(t, TOKEN, n)
}

/// A header value: visible characters, and blanks inside.
fn value(t: &mut Tape) -> String {
    let n = t.choose(5);
    let mut v = token(t);
    for _ in 0..n {
        v.push_str(*t.pick(&[" ", ", ", "; ", "=", ":", "\"", "/", "  ", "\\", "(", "]", "@", "\u{e9}"]));
        v.push_str(&token(t));
    }
    v
}

pub fn gen_origin(t: &mut Tape) -> String {
    match t.choose(3) {
        0 => t.pick(&["http://sim.example", "null", "https://a.b:99", "http://sim.example/", "HTTPS://Sim.Example:443", "http://a.example http://b.example", "moz-extension://0a1b-2c", "file://", "https://[::1]:8443", "*"]).to_string(),
        1 => t.pick(&["http://a.example", "https://b.example:8", "null"]).to_string(),
        _ => {
            let mut o = format!("{}://", t.pick(&["http", "https", "x-app"]));
            o.push_str(&from_set(t, b"abcXYZ019-.", 9));
            if t.choose(2) == 1 {
                o.push_str(&format!(":{}", t.range(1, 65_536)));
            }
            o
        }
    }
}

/// A path, perhaps with a query, that no URL parser has a reason to write otherwise.
pub fn gen_target(t: &mut Tape) -> String {
    let mut s = String::new();
    for _ in 0..t.range(1, 5) {
        s.push('/');
        for _ in 0..t.choose(4) {
            let n = t.range(1, 9);
            s.push_str(&from_set(t, PATH, n));
            if t.choose(4) == 0 {
                s.push_str(*t.pick(&["%20", "%2F", "%c3%a9", "%C3%A9", "%00", "%25", "x.y", "a..", "%3f"]));
            }
        }
    }
    if t.choose(2) == 1 {
        s.push('?');
        for _ in 0..t.choose(4) {
            let n = t.range(1, 9);
            s.push_str(&from_set(t, PATH, n));
            s.push_str(*t.pick(&["&", "=", "/", "?", "%26", "+", ".", "%20"]));
        }
    }
    s
}

pub fn gen_proto(t: &mut Tape) -> String {
    if t.chance(300) {
        return token(t);
    }
    t.pick(&["chat", "superchat", "v10.stomp", "mqtt", "rust-websocket", "CHAT"]).to_string()
}

pub fn gen_ext(t: &mut Tape) -> Ext {
    let wild = t.chance(300);
    let name = if wild { token(t) } else { t.pick(&["permessage-deflate", "x-foo", "a", "deflate-stream", "x-webkit-deflate-frame"]).to_string() };
    let n = if wild && t.chance(50) { t.range(7, 30) as u32 } else if wild { t.choose(7) } else { t.choose(4) };
    let params = (0..n)
        .map(|_| {
            let k = if wild && t.choose(2) == 1 { token(t) } else { t.pick(&["client_max_window_bits", "server_no_context_takeover", "p", "mode"]).to_string() };
            let v = match t.choose(4) {
                0 | 1 => None,
                2 if wild => Some(token(t)),
                _ => Some(t.pick(&["10", "15", "x", "fast", "a=b", "\"k=v\"", "\"two words\"", "q==", ""]).to_string()),
            };
            (k, v)
        })
        .collect();
    (name, params)
}

pub fn gen_protos(t: &mut Tape) -> Vec<String> {
    let n = match t.weighted(&[950, 35, 15]) {
        0 => t.choose(4) as usize,
        1 => t.range(4, 9),
        _ => t.range(10, 50),
    };
    (0..n).map(|_| gen_proto(t)).collect()
}

/// `n` of them, now and then many more.
pub fn gen_exts(t: &mut Tape, n: u32) -> Vec<Ext> {
    let n = if n > 0 && t.chance(40) { t.range(4, 40) } else { n as usize };
    (0..n).map(|_| gen_ext(t)).collect()
}

pub fn gen_extras(t: &mut Tape, max: u32) -> Vec<(String, String)> {
    let n = t.choose(max);
    let usual = *t.pick(&[0, 300]);
    let mut v: Vec<(String, String)> = (0..n)
        .map(|i| {
            if t.chance(usual) {
                let (n, v) = t.pick(&USUAL);
                return (n.to_string(), v.to_string());
            }
            let name = if t.chance(200) { format!("X{}-{}", token(t), i) } else { format!("{}-{}", t.pick(&NAMES), i) };
            let val = if t.chance(300) { value(t) } else { t.pick(&VALUES).to_string() };
            (name, val)
        })
        .collect();
    if t.chance(10) {
        let n = match t.choose(3) {
            0 => t.range(500, 4200),
            1 => t.range(7900, 8300),
            _ => 12_000,
        };
        v.push(("X-Lengthy".into(), "abcdefghij0".chars().cycle().take(n).collect()));
    }
    v
}

/// Now and then: many header lines, or a value longer than any buffer on the way.
fn add_bulk(t: &mut Tape, hs: &mut Vec<(String, String)>) {
    if t.chance(25) {
        for i in 0..*t.pick(&[50, 40, 62]) {
            hs.push((format!("X-Many-{}", i), "y".into()));
        }
    }
    if t.chance(25) {
        let n = match t.choose(5) {
            0 => t.range(300, 2500),
            1 => t.range(3500, 4200),
            2 => t.range(7600, 8300),
            3 => t.range(8300, 17_000),
            _ => *t.pick(&[20_000, 20_000, 30_000, 66_000]),
        };
        hs.push(("X-Long".into(), "v0123456789abcde".chars().cycle().take(n).collect()));
    }
}

/// Stands for a byte that is not UTF-8.
const OBS: char = '\u{f8ff}';

/// A header value no specification allows but any HTTP parser passes on.
fn junk_value(t: &mut Tape) -> String {
    let n = 1 + *t.pick(&[0, 0, 1, 2, 6]);
    (0..n)
        .map(|_| *t.pick(&["\"", "\"", ";", "=", ",", " ", "a", "\u{e9}", "p=\"", "\\", "x;y", "%", "\u{f8ff}", "\"q\"", ";;", "=1", "\t", "://", ":", "[", "@", "18446744073709551616", "-1"]))
        .collect()
}

/// Now and then: replaces or adds headers that carry metadata only, with values that make no
/// sense. They must not change the verdict.
fn add_junk(t: &mut Tape, names: &[&str], hs: &mut Vec<(String, String)>, junk: &mut Vec<String>) {
    if !t.chance(130) {
        return;
    }
    for _ in 0..1 + t.choose(3) {
        let n = t.pick(names).to_string();
        // well-formed up to some point, or not at all
        let lead = match n.as_str() {
            "Sec-WebSocket-Extensions" => *t.pick(&["", "a; p=", "a;", "x-foo, b; q"]),
            "Sec-WebSocket-Protocol" => *t.pick(&["", "chat,", "chat"]),
            "Origin" => *t.pick(&["", "http:", "http://"]),
            _ => "",
        };
        let v = format!("{}{}", lead, junk_value(t));
        if t.choose(2) == 0 {
            hs.retain(|h| h.0 != n);
        }
        hs.push((n.clone(), v));
        junk.push(n);
    }
}

fn shuffle<T>(t: &mut Tape, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = i - t.choose(i as u32 + 1) as usize;
        v.swap(i, j);
    }
}

fn recase(t: &mut Tape, s: &str) -> String {
    match t.choose(4) {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}

pub fn write_head(t: &mut Tape, line: &str, headers: &[(String, String)]) -> Vec<u8> {
    let mut b = vec![];
    b.extend_from_slice(line.as_bytes());
    b.extend_from_slice(b"\r\n");
    let fancy = t.chance(400);
    for (n, v) in headers {
        let n = if fancy { recase(t, n) } else { n.clone() };
        let (pre, post) = if fancy { (*t.pick(&[" ", "", "  ", "\t", " \t "]), *t.pick(&["", " ", "\t"])) } else { (" ", "") };
        for c in format!("{}:{}{}{}\r\n", n, pre, v, post).chars() {
            if c == OBS {
                b.push(0xff);
            } else {
                b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            }
        }
    }
    b.extend_from_slice(b"\r\n");
    b
}

/// Makes a head that no HTTP parser may accept.
fn spoil(t: &mut Tape, line: &mut String, headers: &mut Vec<(String, String)>, request: bool, either: &mut bool) -> Option<Vec<u8>> {
    match t.choose(7) {
        0 => {
            // very many header lines: whether they are too many is the library's affair
            *either = true;
            for i in 0..130 {
                headers.push((format!("X-Many-{}", i), "x".into()));
            }
            None
        }
        1 => {
            headers.push(("Bad Name".into(), "x".into()));
            None
        }
        2 => {
            headers.push(("X-Nul".into(), "a\0b".into()));
            None
        }
        3 => {
            headers.insert(0, ("".into(), "x".into()));
            None
        }
        4 => {
            *line = if request { "GET /chat".into() } else { "HTTP/1.1 abc Nope".into() };
            None
        }
        5 => {
            *line = if request { "GET /chat HTTP/3.7".into() } else { "HTTP/3.7 101 Switching Protocols".into() };
            None
        }
        _ => {
            let n = t.range(1, 60);
            let mut b = vec![0x81, 0x02];
            for _ in 0..n {
                b.push(t.choose(256) as u8);
            }
            b.retain(|c| *c != b'\r' && *c != b'\n');
            b.extend_from_slice(b"\r\n\r\n");
            Some(b)
        }
    }
}

/// Options of a list header, `core` among them if there is one, over one or more lines.
fn crowd(t: &mut Tape, core: Option<&str>, others: &[&str]) -> Vec<String> {
    let most = if t.chance(100) { 40 } else { 9 };
    let n = 1 + t.choose(most);
    let mut items: Vec<String> = (0..n)
        .map(|_| {
            if t.choose(2) == 0 {
                return t.pick(others).to_string();
            }
            // the name looked for is not made by chance
            format!("x{}", token(t))
        })
        .collect();
    if let Some(c) = core {
        let at = t.range(0, items.len());
        let c = recase(t, c);
        items.insert(at, c);
    }
    let mut lines: Vec<String> = vec![items.remove(0)];
    for i in items {
        if lines.len() < 4 && t.chance(150) {
            lines.push(i);
        } else {
            let l = lines.last_mut().unwrap();
            l.push_str(*t.pick(&[", ", ",", " , "]));
            l.push_str(&i);
        }
    }
    lines
}
const OPTIONS: [&str; 8] = ["keep-alive", "close", "upgraded", "Upgrade-Insecure-Requests", "TE", "HTTP2-Settings", "up-grade", "websocket"];
const PROTOCOLS: [&str; 7] = ["h2c", "TLS/1.0", "IRC/6.9", "websockets", "web-socket", "HTTP/2.0", "SHTTP/1.3"];

pub fn some_key(t: &mut Tape) -> [u8; 16] {
    let mut k = [0; 16];
    for x in &mut k {
        *x = t.choose(256) as u8;
    }
    k
}

/// A request. `muts`: how many things are wrong with it; `can_spoil`: it may be unparseable.
pub fn request(t: &mut Tape, muts: u32, can_spoil: bool) -> Gen {
    let mut g = Gen { method: "GET".into(), ..Default::default() };
    g.target = match t.choose(8) {
        6 | 7 => gen_target(t),
        0 => "/chat".into(),
        1 => "/".into(),
        2 => "/a/b%20c?x=1&y=%2F".into(),
        3 => "/?q=websocket".into(),
        4 => "http://sim.example:8123/abs?x=1".into(),
        _ => format!("/long/{}", "p".repeat(t.range(1, 600))),
    };
    let mut http = "HTTP/1.1";
    let key = some_key(t);
    g.key = b64(&key);
    let mut keys = vec![g.key.clone()];
    let mut upg: Vec<String> = match t.choose(7) {
        0 => vec!["websocket".into()],
        1 => vec!["WebSocket".into()],
        2 => vec!["WEBSOCKET".into()],
        3 => vec!["h2c, websocket".into()],
        4 => vec!["websocket, h2c".into()],
        5 => vec!["TLS/1.0".into(), "websocket".into()],
        _ => vec!["websocket".into(), "irc/6.9".into()],
    };
    let mut conn: Vec<String> = match t.choose(7) {
        0 => vec!["Upgrade".into()],
        1 => vec!["upgrade".into()],
        2 => vec!["keep-alive, Upgrade".into()],
        3 => vec!["Upgrade,keep-alive".into()],
        4 => vec!["UPGRADE".into()],
        5 => vec!["keep-alive".into(), "Upgrade".into()],
        _ => vec!["x-foo, uPgRaDe , close".into()],
    };
    if t.chance(120) {
        upg = crowd(t, Some("websocket"), &PROTOCOLS);
    }
    if t.chance(120) {
        conn = crowd(t, Some("Upgrade"), &OPTIONS);
    }
    let mut ver: Vec<String> = if t.chance(200) { vec![] } else { vec!["13".into()] };
    let mut bad = None;
    let mut spoiled = false;
    let mut used = 0u32;
    for _ in 0..muts {
        let c = t.choose(if can_spoil { 7 } else { 6 });
        if used >> c & 1 == 1 {
            continue;
        }
        used |= 1 << c;
        match c {
            0 => {
                g.method = t.pick(&["POST", "HEAD", "get", "OPTIONS", "GETX", "PUT", "CONNECTX"]).to_string();
                g.causes.push("method");
            }
            1 => {
                http = "HTTP/1.0";
                g.causes.push("http version");
            }
            2 => {
                g.causes.push("key");
                keys = match t.choose(8) {
                    0 => vec![],
                    1 => vec!["".into()],
                    2 => vec![b64(&key[..15])],
                    3 => vec![b64(&[&key[..], &[7]].concat())],
                    4 => vec![format!("{}!", &g.key[..23])],
                    5 => vec![g.key.clone(), b64(&[9; 16])],
                    6 => vec![format!("{}x", g.key)],
                    _ => vec![g.key[..22].to_string() + "*="],
                };
            }
            3 => {
                let c = t.choose(5);
                g.causes.push(if c == 0 { "no upgrade" } else if c == 3 { "empty upgrade" } else { "upgrade" });
                upg = match c {
                    0 => vec![],
                    1 => vec!["h2c".into()],
                    2 => vec!["websockets".into()],
                    3 => vec!["".into()],
                    _ => crowd(t, None, &PROTOCOLS),
                };
            }
            4 => {
                let c = t.choose(6);
                g.causes.push(if c == 0 { "no connection" } else if c == 4 { "empty connection" } else { "connection" });
                conn = match c {
                    0 => vec![],
                    1 => vec!["keep-alive".into()],
                    2 => vec!["close".into()],
                    3 => vec!["upgraded, keep-alive".into()],
                    4 => vec!["".into()],
                    _ => crowd(t, None, &OPTIONS),
                };
            }
            5 => {
                g.causes.push("ws version");
                ver = match t.choose(8) {
                    0 => vec!["8".into()],
                    1 => vec!["0".into()],
                    2 => vec!["14".into()],
                    3 => vec!["13, 8".into()],
                    4 => vec!["abc".into()],
                    5 => vec![t.pick(&["1", "130", "113", "13.0", "13;x=1", "99999999999999999999", "12", "7", "1 3"]).to_string()],
                    6 => vec!["13".into(), "13, 7".into()],
                    _ => vec!["13".into(), "8".into()],
                };
            }
            _ => spoiled = true,
        }
    }
    g.version13 = ver.len() == 1 && ver[0] == "13";
    let mut hs: Vec<(String, String)> = vec![("Host".into(), "sim.example:8123".into())];
    let mut put = |n: &str, vs: &[String]| {
        for v in vs {
            hs.push((n.to_string(), v.clone()));
        }
    };
    put("Upgrade", &upg);
    put("Connection", &conn);
    put("Sec-WebSocket-Key", &keys);
    put("Sec-WebSocket-Version", &ver);
    if t.chance(400) {
        g.protos = gen_protos(t);
        if !g.protos.is_empty() {
            if g.protos.len() < 10 && t.chance(300) {
                for p in &g.protos {
                    hs.push(("Sec-WebSocket-Protocol".into(), p.clone()));
                }
            } else {
                let sep = *t.pick(&[", ", ",", " , "]);
                hs.push(("Sec-WebSocket-Protocol".into(), g.protos.join(sep)));
            }
        }
    }
    if t.chance(400) {
        let n = 1 + t.choose(3);
        g.exts = gen_exts(t, n);
        let e: Vec<String> = g.exts.iter().map(ext_str).collect();
        hs.push(("Sec-WebSocket-Extensions".into(), e.join(", ")));
    }
    if t.chance(300) {
        let o = gen_origin(t);
        hs.push(("Origin".into(), o.clone()));
        g.origin = Some(o);
    }
    add_junk(t, &["Sec-WebSocket-Extensions", "Sec-WebSocket-Extensions", "Sec-WebSocket-Extensions", "Sec-WebSocket-Protocol", "Origin", "Host", "Content-Type", "Accept", "Cookie"], &mut hs, &mut g.junk);
    hs.extend(gen_extras(t, 6));
    add_bulk(t, &mut hs);
    if t.chance(500) {
        // the order of lines of the same name matters, so only whole-name groups move
        let mut groups: Vec<Vec<(String, String)>> = vec![];
        for h in hs {
            match groups.iter_mut().find(|g| g[0].0 == h.0) {
                Some(g) => g.push(h),
                None => groups.push(vec![h]),
            }
        }
        shuffle(t, &mut groups);
        hs = groups.into_iter().flatten().collect();
    }
    let mut line = format!("{} {} {}", g.method, g.target, http);
    if spoiled {
        bad = spoil(t, &mut line, &mut hs, true, &mut g.either);
        g.malformed = true;
        g.causes = vec!["malformed"];
    }
    g.headers = hs.clone();
    g.bytes = match bad {
        Some(b) => b,
        None => write_head(t, &line, &hs),
    };
    if !spoiled && t.chance(80) {
        let mut b = b"\r\n".to_vec();
        if t.choose(2) == 1 {
            b.extend_from_slice(b"\r\n");
        }
        b.extend_from_slice(&g.bytes);
        g.bytes = b;
    }
    g
}

/// A reply to a request that carried `key`; `old`: accept value of an earlier request.
pub fn reply(t: &mut Tape, accept: &str, old: Option<&str>, muts: u32) -> Gen {
    let mut g = Gen { status: 101, ..Default::default() };
    let mut reason = "Switching Protocols".to_string();
    let mut upg: Vec<String> = vec![t.pick(&["websocket", "WebSocket", "WEBSOCKET"]).to_string()];
    let mut conn: Vec<String> = match t.choose(5) {
        0 => vec!["Upgrade".into()],
        1 => vec!["upgrade".into()],
        2 => vec!["keep-alive, Upgrade".into()],
        3 => vec!["Upgrade,keep-alive".into()],
        _ => vec!["UPGRADE".into()],
    };
    if t.chance(120) {
        conn = crowd(t, Some("Upgrade"), &OPTIONS);
    }
    let mut acc: Vec<String> = vec![accept.to_string()];
    let mut spoiled = false;
    let mut used = 0u32;
    for _ in 0..muts {
        let c = t.choose(5);
        if used >> c & 1 == 1 {
            continue;
        }
        used |= 1 << c;
        match c {
            0 => {
                g.causes.push("accept");
                let sum = unb64(accept).expect("accept value");
                acc = match t.choose(if old.is_some() { 11 } else { 10 }) {
                    0 => vec![],
                    1 => vec![b64(&[3; 20])],
                    2 => vec!["".into()],
                    3 => vec![flip_case(accept)],
                    4 => vec![accept[..24].to_string()],
                    5 => vec![format!("{}A", accept)],
                    6 => vec![accept.to_string(), b64(&[3; 20])],
                    // almost right: one bit wrong, longer, shorter
                    7 => {
                        let mut sum = sum;
                        sum[t.choose(20) as usize] ^= 1 << t.choose(8);
                        vec![b64(&sum)]
                    }
                    8 => {
                        let k = t.range(1, 8);
                        vec![b64(&[&sum[..], &vec![0; k][..]].concat())]
                    }
                    9 => vec![b64(&sum[..t.range(1, 19)])],
                    _ => vec![old.unwrap().to_string()],
                };
            }
            1 => {
                g.status = *t.pick(&[200, 201, 202, 299, 300, 304, 399, 400, 404, 500, 426, 100, 102, 301, 302, 307, 308, 303, 204, 401, 599]);
                reason = t.pick(&["Nope", "Some Reason", ""]).to_string();
                g.causes.push("status");
                // only a redirection is one: elsewhere the header has another meaning
                if t.chance(if (300..400).contains(&g.status) { 700 } else { 200 }) {
                    g.location = Some(if t.chance(400) {
                        let to = *t.pick(&["", "ws://other.example", "HTTPS://Sim.Example:443", "//other.example"]);
                        let tail = *t.pick(&["", "", "#part", "/"]);
                        format!("{}{}{}", to, gen_target(t), tail)
                    } else {
                        t.pick(&["ws://other.example/x?y=1", "/elsewhere", "http://sim.example:99/a%20b"]).to_string()
                    });
                }
            }
            2 => {
                g.causes.push("upgrade");
                upg = match t.choose(3) {
                    0 => vec![],
                    1 => vec!["h2c".into()],
                    _ => vec!["websockets".into()],
                };
            }
            3 => {
                g.causes.push("connection");
                conn = match t.choose(5) {
                    0 => vec![],
                    1 => vec!["close".into()],
                    2 => vec!["keep-alive".into()],
                    3 => vec!["upgraded".into()],
                    _ => crowd(t, None, &OPTIONS),
                };
            }
            _ => spoiled = true,
        }
    }
    let mut hs: Vec<(String, String)> = vec![];
    let mut put = |n: &str, vs: &[String]| {
        for v in vs {
            hs.push((n.to_string(), v.clone()));
        }
    };
    put("Upgrade", &upg);
    put("Connection", &conn);
    put("Sec-WebSocket-Accept", &acc);
    if let Some(l) = &g.location {
        hs.push(("Location".into(), l.clone()));
    }
    if t.chance(400) {
        g.protos = gen_protos(t);
        if !g.protos.is_empty() {
            hs.push(("Sec-WebSocket-Protocol".into(), g.protos.join(", ")));
        }
    }
    if t.chance(400) {
        let n = 1 + t.choose(3);
        g.exts = gen_exts(t, n);
        let e: Vec<String> = g.exts.iter().map(ext_str).collect();
        hs.push(("Sec-WebSocket-Extensions".into(), e.join(", ")));
    }
    add_junk(t, &["Sec-WebSocket-Extensions", "Sec-WebSocket-Extensions", "Sec-WebSocket-Extensions", "Sec-WebSocket-Protocol", "Server", "Content-Type", "Set-Cookie"], &mut hs, &mut g.junk);
    hs.extend(gen_extras(t, 6));
    add_bulk(t, &mut hs);
    if t.chance(500) {
        let mut groups: Vec<Vec<(String, String)>> = vec![];
        for h in hs {
            match groups.iter_mut().find(|g| g[0].0 == h.0) {
                Some(g) => g.push(h),
                None => groups.push(vec![h]),
            }
        }
        shuffle(t, &mut groups);
        hs = groups.into_iter().flatten().collect();
    }
    let mut line = format!("HTTP/1.1 {} {}", g.status, reason);
    let mut bad = None;
    if spoiled {
        bad = spoil(t, &mut line, &mut hs, false, &mut g.either);
        g.malformed = true;
        g.causes = vec!["malformed"];
    }
    g.headers = hs.clone();
    g.bytes = match bad {
        Some(b) => b,
        None => write_head(t, &line, &hs),
    };
    if !spoiled && t.chance(40) {
        g.bytes.splice(0..0, *b"\r\n");
    }
    g
}

pub fn flip_case(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
