//! Independent reference model of the wire: frame encoder and decoder written from
//! RFC 6455, SHA-1 and base64, and a small HTTP head parser. Shares no code with /repo.

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum M {
    Text(String),
    Binary(Vec<u8>),
    Close(Option<(u16, String)>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
}

impl M {
    pub fn opcode(&self) -> u8 {
        match self {
            M::Text(_) => 1,
            M::Binary(_) => 2,
            M::Close(_) => 8,
            M::Ping(_) => 9,
            M::Pong(_) => 10,
        }
    }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            M::Text(s) => s.as_bytes().to_vec(),
            M::Binary(v) | M::Ping(v) | M::Pong(v) => v.clone(),
            M::Close(None) => vec![],
            M::Close(Some((c, r))) => {
                let mut v = c.to_be_bytes().to_vec();
                v.extend_from_slice(r.as_bytes());
                v
            }
        }
    }
    pub fn is_control(&self) -> bool {
        self.opcode() >= 8
    }
    pub fn short(&self) -> String {
        let p = self.payload();
        let k = match self {
            M::Text(_) => "text",
            M::Binary(_) => "binary",
            M::Close(_) => "close",
            M::Ping(_) => "ping",
            M::Pong(_) => "pong",
        };
        let h: String = p.iter().take(8).map(|b| format!("{:02x}", b)).collect();
        format!("{}[{}B {}{}]", k, p.len(), h, if p.len() > 8 { ".." } else { "" })
    }
    /// The message with this opcode and payload, if it is a legal one.
    pub fn from_parts(op: u8, p: &[u8]) -> Option<M> {
        Some(match op {
            1 => M::Text(std::str::from_utf8(p).ok()?.to_string()),
            2 => M::Binary(p.to_vec()),
            8 => {
                if p.is_empty() {
                    M::Close(None)
                } else if p.len() == 1 {
                    return None;
                } else {
                    M::Close(Some((u16::from_be_bytes([p[0], p[1]]), std::str::from_utf8(&p[2..]).ok()?.to_string())))
                }
            }
            9 => M::Ping(p.to_vec()),
            10 => M::Pong(p.to_vec()),
            _ => return None,
        })
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct F {
    pub fin: bool,
    pub rsv: u8,
    pub op: u8,
    pub mask: Option<[u8; 4]>,
    pub data: Vec<u8>,
}

impl F {
    pub fn short(&self) -> String {
        let h: String = self.data.iter().take(8).map(|b| format!("{:02x}", b)).collect();
        format!("frame[fin={} rsv={} op={} {}B {}]", self.fin as u8, self.rsv, self.op, self.data.len(), h)
    }
    /// Encodes with the minimal length form.
    pub fn encode(&self, out: &mut Vec<u8>) {
        let form = if self.data.len() <= 125 { 0 } else if self.data.len() <= 65535 { 1 } else { 2 };
        self.encode_form(out, form, self.data.len() as u64)
    }
    /// Encodes with a chosen length form and a chosen claimed length.
    pub fn encode_form(&self, out: &mut Vec<u8>, form: u8, claimed: u64) {
        out.push((self.fin as u8) << 7 | (self.rsv & 7) << 4 | self.op & 15);
        let m = if self.mask.is_some() { 0x80 } else { 0 };
        match form {
            0 => out.push(m | claimed as u8 & 0x7f),
            1 => {
                out.push(m | 126);
                out.extend_from_slice(&(claimed as u16).to_be_bytes());
            }
            _ => {
                out.push(m | 127);
                out.extend_from_slice(&claimed.to_be_bytes());
            }
        }
        match self.mask {
            Some(k) => {
                out.extend_from_slice(&k);
                out.extend(self.data.iter().enumerate().map(|(i, b)| b ^ k[i & 3]));
            }
            None => out.extend_from_slice(&self.data),
        }
    }
}

/// One frame parsed from `b` at `pos`, with the raw length form. None: incomplete.
pub struct Parsed {
    pub f: F,
    pub form: u8,
    pub len: u64,
    pub hdr: usize,
    pub end: usize,
    pub complete: bool,
}

pub enum Head {
    /// not even the length is there
    Short,
    Have(Parsed),
}

pub fn parse_frame(b: &[u8], pos: usize) -> Head {
    let r = &b[pos..];
    if r.len() < 2 {
        return Head::Short;
    }
    let mut i = 2;
    let l7 = r[1] & 0x7f;
    let (form, len) = match l7 {
        126 => {
            if r.len() < 4 {
                return Head::Short;
            }
            i = 4;
            (1, u16::from_be_bytes([r[2], r[3]]) as u64)
        }
        127 => {
            if r.len() < 10 {
                return Head::Short;
            }
            i = 10;
            (2, u64::from_be_bytes([r[2], r[3], r[4], r[5], r[6], r[7], r[8], r[9]]))
        }
        n => (0, n as u64),
    };
    let masked = r[1] & 0x80 != 0;
    let hdr = i + if masked { 4 } else { 0 };
    let mask = if masked {
        if r.len() >= hdr {
            Some([r[i], r[i + 1], r[i + 2], r[i + 3]])
        } else {
            Some([0; 4])
        }
    } else {
        None
    };
    let complete = (r.len() as u64) >= (hdr as u64).saturating_add(len);
    let data = if complete {
        let p = &r[hdr..hdr + len as usize];
        match mask {
            Some(k) => p.iter().enumerate().map(|(i, b)| b ^ k[i & 3]).collect(),
            None => p.to_vec(),
        }
    } else {
        vec![]
    };
    let end = if complete { pos + hdr + len as usize } else { usize::MAX };
    Head::Have(Parsed {
        f: F { fin: r[0] & 0x80 != 0, rsv: r[0] >> 4 & 7, op: r[0] & 15, mask, data },
        form,
        len,
        hdr: pos + hdr,
        end,
        complete,
    })
}

/// Strict decode of everything an endpoint emitted. Ok((frames with end offsets, bytes left over)).
pub fn strict_decode(b: &[u8], masked: bool) -> Result<(Vec<(F, usize)>, usize), String> {
    let mut pos = 0;
    let mut out = vec![];
    while pos < b.len() {
        match parse_frame(b, pos) {
            Head::Short => return Ok((out, b.len() - pos)),
            Head::Have(p) => {
                let at = format!("frame {} at byte {}", out.len(), pos);
                if p.f.mask.is_some() != masked {
                    return Err(format!("{}: masked={} expected {}", at, p.f.mask.is_some(), masked));
                }
                if p.form == 1 && p.len <= 125 || p.form == 2 && p.len <= 65535 {
                    return Err(format!("{}: length {} not minimally encoded (form {})", at, p.len, p.form));
                }
                if p.f.op >= 8 && (p.len > 125 || !p.f.fin) {
                    return Err(format!("{}: illegal control frame op={} len={} fin={}", at, p.f.op, p.len, p.f.fin));
                }
                if !p.complete {
                    return Ok((out, b.len() - pos));
                }
                pos = p.end;
                out.push((p.f, p.end));
            }
        }
    }
    Ok((out, 0))
}

/// What a correct receiver must report for a byte stream.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Msg(M, usize),
    Frame(F, usize),
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// offset at which the stream first became illegal
    pub earliest: usize,
    /// offset by which the receiver must have noticed (usize::MAX: not complete in this stream)
    pub latest: usize,
    pub why: &'static str,
    /// control messages completed between the two, which may or may not be delivered
    pub optional: Vec<(M, usize)>,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub items: Vec<Item>,
    pub viol: Option<Viol>,
    /// the stream ends at a frame boundary with no message in progress
    pub clean: bool,
    pub frame_ends: Vec<usize>,
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub frame: u64,
    pub msg: u64,
}
pub const DEFAULT_LIMITS: Limits = Limits { frame: 100 << 20, msg: 200 << 20 };
pub const OVERHEAD: u64 = 64;
/// The most fragments a message may have.
pub const FRAGMENTS: u64 = 1 << 20;

/// The reference receiver. `masked`: frames must arrive masked. `frames`: dataframe-level API.
pub fn expect(b: &[u8], masked: bool, lim: Limits, frames: bool) -> Expect {
    let mut e = Expect { items: vec![], viol: None, clean: true, frame_ends: vec![] };
    let mut pos = 0;
    // message in progress: opcode, data, accounted size
    let mut cur: Option<(u8, Vec<u8>, u64)> = None;
    let mut parts = 0u64;
    // a violation whose report may come as late as the end of the message
    let mut pend: Option<Viol> = None;
    let max = |v: &mut Option<Viol>, x: Viol| {
        if v.is_none() {
            *v = Some(x)
        }
    };
    while pos < b.len() {
        let rest = &b[pos..];
        // what is known after the first byte
        let op = rest[0] & 15;
        let fin = rest[0] & 0x80 != 0;
        let rsv = rest[0] >> 4 & 7;
        let p = match parse_frame(b, pos) {
            Head::Short => {
                // an incomplete header may already be illegal
                let v = |w| Viol { earliest: pos + 1, latest: usize::MAX, why: w, optional: vec![] };
                if op >= 8 && !fin {
                    max(&mut pend, v("fragmented control"));
                } else if !frames {
                    if rsv != 0 {
                        max(&mut pend, v("reserved bits"));
                    } else if op > 10 || (3..8).contains(&op) {
                        max(&mut pend, v("unknown opcode"));
                    } else if op == 0 && cur.is_none() {
                        max(&mut pend, v("stray continuation"));
                    } else if (1..8).contains(&op) && cur.is_some() {
                        max(&mut pend, v("missing continuation"));
                    }
                }
                if rest.len() >= 2 {
                    if (rest[1] & 0x80 != 0) != masked {
                        max(&mut pend, v("masking"));
                    }
                    if op >= 8 && rest[1] & 0x7f > 125 {
                        max(&mut pend, v("long control"));
                    }
                    // a partial 64-bit length with a set high byte already exceeds any limit
                    if rest[1] & 0x7f == 127 {
                        max(&mut pend, v("frame limit?"));
                    }
                }
                e.clean = false;
                break;
            }
            Head::Have(p) => p,
        };
        let end = p.end;
        let hdr_end = if p.hdr <= b.len() { p.hdr } else { usize::MAX };
        let mut now: Option<(&'static str, usize)> = None; // (why, latest)
        if p.form == 1 && p.len <= 125 || p.form == 2 && p.len <= 65535 {
            now = Some(("non-minimal length", hdr_end));
        } else if op >= 8 && p.len > 125 {
            now = Some(("long control", hdr_end));
        } else if op >= 8 && !fin {
            now = Some(("fragmented control", hdr_end));
        } else if p.len > lim.frame {
            // must be refused once the header is complete
            now = Some(("frame limit", hdr_end));
        } else if p.f.mask.is_some() != masked {
            now = Some(("masking", end));
        }
        if let Some((why, latest)) = now {
            // an illegal header may hide the fact that earlier trouble is pending
            let v = Viol { earliest: pos + 1, latest, why, optional: vec![] };
            match &mut pend {
                Some(x) => x.latest = x.latest.min(latest),
                None => pend = Some(v),
            }
            e.clean = false;
            break;
        }
        if frames {
            if !p.complete {
                e.clean = false;
                break;
            }
            let mut f = p.f;
            f.mask = None;
            e.items.push(Item::Frame(f, end));
            e.frame_ends.push(end);
            pos = end;
            continue;
        }
        // message level
        if op >= 8 {
            let bad = if rsv != 0 {
                Some("reserved bits")
            } else if op > 10 {
                Some("unknown opcode")
            } else {
                None
            };
            if let Some(why) = bad {
                max(&mut pend, Viol { earliest: pos + 1, latest: end, why, optional: vec![] });
                if let Some(x) = &mut pend {
                    x.latest = x.latest.min(end);
                }
                e.clean = false;
                break;
            }
            if !p.complete {
                e.clean = false;
                break;
            }
            match M::from_parts(op, &p.f.data) {
                Some(m) => {
                    match &mut pend {
                        Some(x) => x.optional.push((m, end)),
                        None => e.items.push(Item::Msg(m, end)),
                    }
                    pos = end;
                    e.frame_ends.push(end);
                    continue;
                }
                None => {
                    let v = Viol { earliest: p.hdr, latest: end, why: if p.f.data.len() == 1 { "one-byte close" } else { "close reason not UTF-8" }, optional: vec![] };
                    max(&mut pend, v);
                    if let Some(x) = &mut pend {
                        x.latest = x.latest.min(end);
                    }
                    e.clean = false;
                    break;
                }
            }
        }
        // data frame
        if op == 0 && cur.is_none() || op != 0 && cur.is_some() {
            let why = if op == 0 { "stray continuation" } else { "missing continuation" };
            max(&mut pend, Viol { earliest: pos + 1, latest: end, why, optional: vec![] });
            if let Some(x) = &mut pend {
                x.latest = x.latest.min(end);
            }
            e.clean = false;
            break;
        }
        if rsv != 0 || op >= 3 {
            // may be reported with the frame or with the message it belongs to
            let why = if rsv != 0 { "reserved bits" } else { "unknown opcode" };
            max(&mut pend, Viol { earliest: pos + 1, latest: usize::MAX, why, optional: vec![] });
        }
        if !p.complete {
            e.clean = false;
            // invalid UTF-8 that a streaming validator could already see is not modelled:
            // the earliest report of it is allowed from the first frame on (see utf8 below)
            break;
        }
        parts = if cur.is_none() { 1 } else { parts + 1 };
        let c = cur.get_or_insert((op, vec![], 0));
        c.1.extend_from_slice(&p.f.data);
        c.2 += p.len + OVERHEAD;
        e.frame_ends.push(end);
        pos = end;
        if fin {
            let (mop, data, _) = cur.take().unwrap();
            if let Some(x) = &mut pend {
                x.latest = x.latest.min(end);
                e.clean = false;
                break;
            }
            match M::from_parts(mop, &data) {
                Some(m) => e.items.push(Item::Msg(m, end)),
                None => {
                    max(&mut pend, Viol { earliest: 0, latest: end, why: "text not UTF-8", optional: vec![] });
                    e.clean = false;
                    break;
                }
            }
        } else if parts >= FRAGMENTS {
            // it cannot be completed within the cap any more: to be refused here or at the next one
            let v = pend.get_or_insert(Viol { earliest: pos, latest: usize::MAX, why: "fragment limit", optional: vec![] });
            if parts > FRAGMENTS {
                v.latest = v.latest.min(end);
                e.clean = false;
                break;
            }
        } else if c.2 > lim.msg {
            max(&mut pend, Viol { earliest: pos, latest: end, why: "message limit", optional: vec![] });
            if let Some(x) = &mut pend {
                x.latest = x.latest.min(end);
            }
            e.clean = false;
            break;
        } else if c.2 == lim.msg {
            // exactly at the limit: refusing here or going on are both fine
            max(&mut pend, Viol { earliest: pos, latest: usize::MAX - 1, why: "message limit reached exactly", optional: vec![] });
            e.clean = false;
            break;
        }
    }
    if cur.is_some() {
        e.clean = false;
    }
    // text that is not UTF-8: a validator that works fragment by fragment may report it early;
    // control messages inside the message are then optional
    if let Some(v) = &mut pend {
        if v.why == "text not UTF-8" {
            v.earliest = 0;
        }
    }
    e.viol = pend;
    e
}

// ---------------------------------------------------------------- SHA-1, base64

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    let bits = (m.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut cc, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & cc) | (!b & d), 0x5A827999),
                20..=39 => (b ^ cc ^ d, 0x6ED9EBA1),
                40..=59 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        s.push(B64[(v >> 18) as usize & 63] as char);
        s.push(B64[(v >> 12) as usize & 63] as char);
        s.push(if c.len() > 1 { B64[(v >> 6) as usize & 63] as char } else { '=' });
        s.push(if c.len() > 2 { B64[v as usize & 63] as char } else { '=' });
    }
    s
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for (ci, c) in b.chunks(4).enumerate() {
        let last = (ci + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return None;
        }
        let mut v = 0u32;
        for (i, x) in c.iter().enumerate() {
            let d = if i >= 4 - pad { 0 } else { B64.iter().position(|y| y == x)? as u32 };
            v = v << 6 | d;
        }
        if pad == 1 && v & 0xff != 0 || pad == 2 && v & 0xffff != 0 {
            return None;
        }
        out.push((v >> 16) as u8);
        if pad < 2 {
            out.push((v >> 8) as u8);
        }
        if pad < 1 {
            out.push(v as u8);
        }
    }
    Some(out)
}

pub fn accept_for(key: &str) -> String {
    b64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes()))
}

// ---------------------------------------------------------------- HTTP heads

#[derive(Clone, Debug)]
pub struct HttpHead {
    pub line: String,
    pub headers: Vec<(String, String)>,
    pub len: usize,
}

impl HttpHead {
    pub fn get(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
    pub fn one(&self, name: &str) -> Option<&str> {
        let v = self.get(name);
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    }
    /// comma-separated tokens over all occurrences
    pub fn tokens(&self, name: &str) -> Vec<String> {
        self.get(name).iter().flat_map(|v| v.split(',').map(|t| t.trim().to_string())).filter(|t| !t.is_empty()).collect()
    }
}

/// Strict parse of an HTTP/1.1 head emitted by an endpoint. Ok(None): incomplete.
pub fn parse_head(b: &[u8]) -> Result<Option<HttpHead>, String> {
    let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(p) => p + 4,
        None => return Ok(None),
    };
    let text = std::str::from_utf8(&b[..end - 4]).map_err(|_| "head is not UTF-8".to_string())?;
    let mut lines = text.split("\r\n");
    let line = lines.next().unwrap_or("").to_string();
    let mut headers = vec![];
    for l in lines {
        let (n, v) = l.split_once(':').ok_or_else(|| format!("header line without colon: {:?}", l))?;
        let tok = |c: char| c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c);
        if n.is_empty() || !n.chars().all(tok) {
            return Err(format!("bad header name {:?}", n));
        }
        if v.bytes().any(|c| c < 0x20 && c != b'\t' || c == 0x7f) {
            return Err(format!("control character in header value {:?}", v));
        }
        headers.push((n.to_string(), v.trim().to_string()));
    }
    Ok(Some(HttpHead { line, headers, len: end }))
}

/// Rank over GF(2) of a set of bit vectors given as u128 differences.
pub fn gf2_rank(vs: &[u128]) -> usize {
    let mut basis: Vec<u128> = vec![];
    for &v in vs {
        let mut x = v;
        for b in &basis {
            x = x.min(x ^ b);
        }
        if x != 0 {
            basis.push(x);
            basis.sort_unstable_by(|a, b| b.cmp(a));
        }
    }
    basis.len()
}

/// Whether each of these keys is a fixed function of the ones before it, of a kind anyone who
/// has seen some of them can work out: an affine function over GF(2) of the last one to
/// five (shift registers, xorshift, CRCs), or a linear congruence.
pub fn foreseeable(keys: &[u128], bits: usize) -> Option<&'static str> {
    for win in [1usize, 2, 3, 5] {
        let n = win * bits + 1;
        if keys.len() < n + win + 4 {
            break;
        }
        let vw = (n + 63) / 64;
        let mut basis: Vec<(usize, Vec<u64>)> = vec![];
        let mut spare = 0;
        let mut linear = true;
        for x in keys.windows(win + 1) {
            let mut row = vec![0u64; vw + 2];
            for (j, k) in x[..win].iter().enumerate() {
                for b in 0..bits {
                    let at = j * bits + b;
                    row[at / 64] |= ((k >> b & 1) as u64) << (at % 64);
                }
            }
            row[(n - 1) / 64] |= 1 << ((n - 1) % 64);
            row[vw] = x[win] as u64;
            row[vw + 1] = (x[win] >> 64) as u64;
            for (pivot, b) in &basis {
                if row[pivot / 64] >> (pivot % 64) & 1 == 1 {
                    row.iter_mut().zip(b).for_each(|(r, b)| *r ^= b);
                }
            }
            match (0..n).find(|i| row[i / 64] >> (i % 64) & 1 == 1) {
                Some(pivot) => basis.push((pivot, row)),
                None if row[vw] | row[vw + 1] == 0 => spare += 1,
                None => {
                    linear = false;
                    break;
                }
            }
        }
        if linear && spare >= 3 {
            return Some("by a linear function over bits");
        }
    }
    // x' = a x + c modulo 2^bits
    let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let d: Vec<u128> = keys.windows(2).map(|x| x[1].wrapping_sub(x[0]) & m).collect();
    if d.len() >= 8 {
        if let Some(i) = (0..d.len() - 1).find(|&i| d[i] & 1 == 1) {
            let mut inv: u128 = 1;
            for _ in 0..7 {
                inv = inv.wrapping_mul(2u128.wrapping_sub(d[i].wrapping_mul(inv)));
            }
            let a = d[i + 1].wrapping_mul(inv) & m;
            if d.windows(2).all(|x| x[0].wrapping_mul(a) & m == x[1]) {
                return Some("by a linear congruence");
            }
        }
    }
    None
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn predictors() {
        let mut x = 0x9e37_79b9u32;
        let mut v = vec![];
        for _ in 0..120 {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            v.push(x as u128);
        }
        assert!(foreseeable(&v, 32).is_some());
        let mut x = 0x9e37_79b9_1234_5671u64;
        let mut v = vec![];
        for _ in 0..120 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.push((x >> 32) as u128);
        }
        assert!(foreseeable(&v, 32).is_some());
        let mut x = 77u32;
        let mut v = vec![];
        for _ in 0..120 {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            v.push(x as u128);
        }
        assert!(foreseeable(&v, 32).is_some());
        let mut x = 77u64;
        let mut v = vec![];
        for _ in 0..200 {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = (x ^ x >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
            v.push(((z ^ z >> 31) >> 32) as u128);
        }
        assert!(foreseeable(&v, 32).is_none());
    }
    #[test]
    fn known() {
        assert_eq!(accept_for("dGhlIHNhbXBsZSBub25jZQ=="), "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=");
        assert_eq!(unb64("dGhlIHNhbXBsZSBub25jZQ==").unwrap(), b"the sample nonce");
    }
}
