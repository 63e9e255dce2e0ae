//! Workload generation: messages, frame traffic with and without violations, network faults.
use crate::refws::{F, M};
use crate::tape::{mix, Tape};
use crate::world::{Cut, Deliver, DirId, Inner};

#[derive(Clone, Copy)]
pub struct Sizes {
    /// largest ordinary payload
    pub big: usize,
    /// allow payloads around 65536
    pub huge: bool,
}

pub fn size(t: &mut Tape, s: Sizes) -> usize {
    match t.weighted(&[30, 20, 12, 10, if s.huge { 3 } else { 0 }, if s.huge { 1 } else { 0 }]) {
        0 => t.range(0, 12),
        1 => t.range(0, s.big.min(200)),
        2 => *t.pick(&[125, 126, 127, 124, 128]),
        3 => match t.choose(6) {
            // around powers of two
            5 => {
                let top = (usize::BITS - s.big.max(16).leading_zeros()) as u32;
                ((1usize << (4 + t.choose(top.saturating_sub(4).max(1)))) + t.choose(3) as usize - 1).min(s.big)
            }
            _ => t.range(0, s.big),
        },
        4 => *t.pick(&[65535, 65536, 65534, 65537]),
        _ => match t.choose(12) {
            // past every buffer and chunk size in use
            11 => t.range(200_000, 3_000_000),
            _ => t.range(66_000, 200_000),
        },
    }
}

/// Now and then a connection that lives long: how many messages it carries.
pub fn many(t: &mut Tape) -> Option<usize> {
    match t.weighted(&[4000, 40, 12, 1]) {
        0 => None,
        1 => Some(t.range(257, 400)),
        2 => Some(t.range(1000, 1500)),
        _ => Some(t.range(65_537, 66_000)),
    }
}

/// Hardly ever: a message that no 24-bit length can tell.
pub fn giant(t: &mut Tape) -> Option<M> {
    if t.choose(4000) < 3999 {
        return None;
    }
    let n = (1 << 24) + t.range(0, 70_000);
    Some(M::Binary(pattern(4_000_000, n)))
}

/// Position-dependent bytes, different for every `id`.
pub fn pattern(id: u32, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x = mix(0xABCD_0000 ^ id as u64);
    for i in 0..n {
        if i % 8 == 0 {
            x = mix(x.wrapping_add(i as u64 + 1));
        }
        v.push((x >> ((i % 8) * 8)) as u8);
    }
    v
}

/// Valid UTF-8 of exactly n bytes with characters of every width.
pub fn text(id: u32, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let mut x = mix(0x7E47 ^ id as u64);
    while s.len() < n {
        x = mix(x.wrapping_add(1));
        let room = n - s.len();
        let c = match x % 7 {
            0 if room >= 2 => char::from_u32(0x80 + (x >> 8) as u32 % 0x700).unwrap(),
            // U+0800 to U+D7FF, U+E000 to U+FFFF
            1 if room >= 3 => {
                let c = 0x800 + (x >> 8) as u32 % 0xF000;
                char::from_u32(if c < 0xD800 { c } else { c + 0x800 }).unwrap()
            }
            2 if room >= 4 => char::from_u32(0x10000 + (x >> 8) as u32 % 0x100000).unwrap(),
            3 if room >= 3 => '\u{FFFD}',
            4 => (b'a' + ((x >> 8) % 26) as u8) as char,
            5 => (((x >> 8) % 32) as u8) as char,
            _ => (b' ' + ((x >> 8) % 95) as u8) as char,
        };
        if c.len_utf8() <= room {
            s.push(c);
        }
    }
    s
}

pub fn close_reason(t: &mut Tape, id: u32) -> M {
    match t.choose(4) {
        0 => M::Close(None),
        1 => M::Close(Some((*t.pick(&[1000, 1001, 1002, 3000, 4999, 1005, 0, 65535]), String::new()))),
        2 => {
            let n = t.range(1, 30);
            let code = if t.chance(300) { t.choose(65536) as u16 } else { 1000 + id as u16 % 50 };
            M::Close(Some((code, plain_text(t, id, n))))
        }
        _ => {
            let n = *t.pick(&[123, 122, 121]);
            M::Close(Some((1000, plain_text(t, id, n))))
        }
    }
}

/// A payload of exactly n bytes: position-dependent mostly, or one that looks like something else.
fn plain_bytes(t: &mut Tape, id: u32, n: usize) -> Vec<u8> {
    let unit: Vec<u8> = match t.weighted(&[85, 3, 3, 3, 3, 3]) {
        0 => return pattern(id, n),
        1 => vec![0],
        2 => vec![0xff],
        3 => vec![0x81, 0x85, 1, 2, 3, 4, 0x69, 0x67, 0x6f, 0x68, 0x6e],
        4 => vec![0x88, 0x02, 0x03, 0xe8],
        _ => b"HTTP/1.1 101 Switching Protocols\r\n\r\n".to_vec(),
    };
    unit.into_iter().cycle().take(n).collect()
}

fn plain_text(t: &mut Tape, id: u32, n: usize) -> String {
    let unit = match t.weighted(&[85, 3, 3, 3, 3, 3, 3]) {
        0 => return text(id, n),
        1 => "\0",
        2 => "GET / HTTP/1.1\r\nHost: a\r\n\r\n",
        // a byte order mark in front
        3 if n >= 3 => return format!("\u{feff}{}", text(id, n - 3)),
        4 => "abcdefgh",
        5 => " \t\r\n",
        _ => "\u{7f}",
    };
    unit.chars().cycle().take(n).collect()
}

/// Messages that come again and again.
fn common(t: &mut Tape) -> M {
    match t.choose(6) {
        0 => M::Text("hello".into()),
        1 => M::Binary(vec![1, 2, 3]),
        2 => M::Ping(vec![]),
        3 => M::Pong(b"hello".to_vec()),
        4 => M::Text(String::new()),
        _ => M::Ping(b"hello".to_vec()),
    }
}

pub fn message(t: &mut Tape, id: u32, s: Sizes) -> M {
    if t.chance(60) {
        return common(t);
    }
    if t.last.is_some() && t.chance(70) {
        return t.last.clone().unwrap();
    }
    let m = fresh(t, id, s);
    t.last = Some(m.clone());
    m
}

fn fresh(t: &mut Tape, id: u32, s: Sizes) -> M {
    match t.weighted(&[30, 30, 14, 12, 6]) {
        0 => {
            let n = size(t, s);
            M::Binary(plain_bytes(t, id, n))
        }
        1 => {
            let n = size(t, s);
            M::Text(plain_text(t, id, n))
        }
        2 => {
            let n = ctl(t);
            M::Ping(pattern(id, n))
        }
        3 => {
            let n = ctl(t);
            M::Pong(pattern(id, n))
        }
        _ => close_reason(t, id),
    }
}

pub fn ctl(t: &mut Tape) -> usize {
    match t.choose(5) {
        0 => t.range(0, 4),
        1 => 0,
        2 => t.range(0, 125),
        3 => 125,
        _ => t.range(4, 60),
    }
}

pub fn mask(t: &mut Tape, masked: bool) -> Option<[u8; 4]> {
    if !masked {
        return None;
    }
    // keys with distinct bytes, so that a shifted or dropped key byte shows
    let a = t.choose(256) as u8;
    Some(match t.weighted(&[10, 1, 2]) {
        0 => [a, a ^ 0x5a, a.wrapping_add(0x31), !a],
        1 => [0, 0, 0, 0],
        _ => {
            // bytes that are zero or equal
            let mut k = [a, a ^ 0x11, a ^ 0x22, a ^ 0x44];
            let z = t.choose(15) + 1;
            for i in 0..4 {
                if z >> i & 1 == 1 {
                    k[i] = if t.choose(2) == 0 { 0 } else { a };
                }
            }
            k
        }
    })
}

/// Splits a message into fragments, with control frames between them.
pub fn fragments(t: &mut Tape, m: &M, masked: bool, next_id: &mut u32, frag_p: u32, ctl_p: u32, out: &mut Vec<F>) {
    let p = m.payload();
    if m.is_control() || !t.chance(frag_p) {
        let k = mask(t, masked);
        out.push(F { fin: true, rsv: 0, op: m.opcode(), mask: k, data: p });
        return;
    }
    let n = match t.weighted(&[4000, 200, 20, 2]) {
        0 => 1 + t.choose(5) as usize,
        1 => t.range(6, 40),
        2 => t.range(120, 300),
        _ => t.range(1000, 5000),
    };
    let ctl_p = if n > 5 { ctl_p / 4 } else { ctl_p };
    let mut cuts: Vec<usize> = (0..n).map(|_| t.range(0, p.len())).collect();
    cuts.sort_unstable();
    cuts.push(p.len());
    let mut at = 0;
    for (i, c) in cuts.iter().enumerate() {
        let last = i + 1 == cuts.len();
        let k = mask(t, masked);
        out.push(F { fin: last, rsv: 0, op: if i == 0 { m.opcode() } else { 0 }, mask: k, data: p[at..*c].to_vec() });
        at = *c;
        while !last && t.chance(ctl_p) {
            *next_id += 1;
            let id = *next_id;
            let n = ctl(t);
            let c = match t.choose(3) {
                0 => M::Ping(pattern(id, n)),
                1 => M::Pong(pattern(id, n)),
                _ => close_reason(t, id),
            };
            let k = mask(t, masked);
            out.push(F { fin: true, rsv: 0, op: c.opcode(), mask: k, data: c.payload() });
        }
    }
}

/// One illegal frame (or sequence) appended to `out`; `open`: a fragmented message is in progress.
pub fn violation(t: &mut Tape, masked: bool, open: bool, frame_limit: u64, out: &mut Vec<u8>) -> &'static str {
    let n = t.range(0, 20);
    let k = mask(t, masked);
    let data = pattern(77, n);
    let dop = |t: &mut Tape| if open { 0 } else { 1 + t.choose(2) as u8 };
    match t.choose(14) {
        0 => {
            let op = *t.pick(&[2u8, 9, 8, 10, 1]);
            let op = if open && op < 8 { 0 } else { op };
            let d = if op == 8 { vec![] } else { text(5, n).into_bytes() };
            F { fin: true, rsv: 1 + t.choose(7) as u8, op, mask: k, data: d }.encode(out);
            "rsv"
        }
        1 => {
            let op = *t.pick(&[3u8, 4, 5, 6, 7, 11, 12, 13, 14, 15]);
            let fin = op >= 8 || t.choose(4) > 0;
            F { fin, rsv: 0, op, mask: k, data }.encode(out);
            "opcode"
        }
        2 => {
            // wrong masking for the role
            let k2 = if masked { None } else { mask(t, true) };
            let op = match t.choose(3) { 0 => dop(t), 1 => 9, _ => 10 };
            F { fin: true, rsv: 0, op, mask: k2, data: text(9, n).into_bytes() }.encode(out);
            "mask"
        }
        3 => {
            let op = if t.choose(4) == 0 { *t.pick(&[8u8, 9, 10]) } else { dop(t) };
            let n = if t.choose(2) == 0 { n.min(125) } else { *t.pick(&[125usize, 124, 1, 0]) };
            let mut d = text(9, n).into_bytes();
            if op == 8 && n >= 2 {
                d[..2].copy_from_slice(&[3, 232]);
                for b in &mut d[2..] {
                    *b = b'r';
                }
            }
            F { fin: true, rsv: 0, op, mask: k, data: d }.encode_form(out, 1, n as u64);
            "nonminimal16"
        }
        4 => {
            let op = dop(t);
            let m = *t.pick(&[0usize, 5, 125, 126, 127, 300, 65535, 65534]);
            let m = if m > 1000 && frame_limit < 200_000 { 200 } else { m };
            let d = text(9, m).into_bytes();
            F { fin: true, rsv: 0, op, mask: k, data: d }.encode_form(out, 2, m as u64);
            "nonminimal64"
        }
        5 => {
            let op = *t.pick(&[9u8, 8, 10]);
            let m = *t.pick(&[126usize, 127, 200, 70000]);
            let m = if frame_limit < 200_000 { m.min(300) } else { m };
            let mut d = pattern(3, m);
            if op == 8 {
                d = [vec![3, 232], text(3, m - 2).into_bytes()].concat();
            }
            F { fin: true, rsv: 0, op, mask: k, data: d }.encode(out);
            "longctl"
        }
        6 => {
            let op = *t.pick(&[9u8, 8, 10]);
            let d = if op == 8 { vec![] } else { data };
            F { fin: false, rsv: 0, op, mask: k, data: d }.encode(out);
            "fragctl"
        }
        7 => {
            if open {
                F { fin: t.choose(2) == 0, rsv: 0, op: *t.pick(&[1u8, 2, 1, 2, 7, 3, 5]), mask: k, data: text(4, n).into_bytes() }.encode(out);
                "missing continuation"
            } else {
                F { fin: t.choose(2) == 0, rsv: 0, op: 0, mask: k, data }.encode(out);
                "stray continuation"
            }
        }
        8 => {
            let mut bad = bad_utf8(t);
            if t.chance(120) {
                // far behind the start
                let n = match t.choose(8) {
                    0 if frame_limit >= 400_000 => t.range(65_000, 70_000),
                    1 if frame_limit >= 400_000 => t.range(70_000, 300_000),
                    _ => t.range(200, 3000),
                };
                bad.splice(0..0, text(12, n).into_bytes());
            }
            let op = if open { 0 } else { 1 };
            F { fin: true, rsv: 0, op, mask: k, data: bad }.encode(out);
            "badutf8"
        }
        9 => {
            let mut d = vec![3, 232];
            d.extend(bad_utf8(t));
            d.truncate(125);
            if std::str::from_utf8(&d[2..]).is_ok() {
                d.push(0xff);
            }
            F { fin: true, rsv: 0, op: 8, mask: k, data: d }.encode(out);
            "close utf8"
        }
        10 => {
            F { fin: true, rsv: 0, op: 8, mask: k, data: vec![t.choose(256) as u8] }.encode(out);
            "close1"
        }
        11 => {
            // bad UTF-8 spread over fragments
            if open {
                F { fin: true, rsv: 0, op: 0, mask: k, data: bad_utf8(t) }.encode(out);
            } else if t.chance(150) {
                // in one of several fragments, or across two of them
                let mut b = bad_utf8(t);
                let n = t.range(0, 400);
                b.extend(text(13, n).into_bytes());
                let parts = t.range(3, 30);
                let mut cuts: Vec<usize> = (0..parts - 1).map(|_| t.range(0, b.len())).collect();
                cuts.sort_unstable();
                cuts.push(b.len());
                let mut at = 0;
                for (i, c) in cuts.iter().enumerate() {
                    let k = mask(t, masked);
                    F { fin: i + 1 == cuts.len(), rsv: 0, op: if i == 0 { 1 } else { 0 }, mask: k, data: b[at..*c].to_vec() }.encode(out);
                    at = *c;
                }
            } else {
                let b = bad_utf8(t);
                let c = t.range(0, b.len());
                F { fin: false, rsv: 0, op: 1, mask: k, data: b[..c].to_vec() }.encode(out);
                let k = mask(t, masked);
                F { fin: true, rsv: 0, op: 0, mask: k, data: b[c..].to_vec() }.encode(out);
            }
            "badutf8 fragments"
        }
        12 => {
            // claims far more than any limit
            let len = *t.pick(&[frame_limit + 1, frame_limit * 2 + 5, 1 << 40, i64::MAX as u64, u64::MAX, u64::MAX - 8, u64::MAX - 14, 0]);
            let op = dop(t);
            // or a bit more than what the frame really holds
            let (len, data) = if len > 0 {
                (len, data)
            } else {
                let n = if frame_limit >= 400_000 { 65_536 + n } else { n };
                (*t.pick(&[1 << 63, 1 << 32, 1 << 48]) + n as u64, text(77, n).into_bytes())
            };
            let form = if len > 65535 { 2 } else if len > 125 { 1 } else { 0 };
            F { fin: true, rsv: 0, op, mask: k, data }.encode_form(out, form, len);
            "frame limit"
        }
        _ => {
            // wrong masking with rsv and long form: several at once
            let k2 = if masked { None } else { mask(t, true) };
            F { fin: false, rsv: 3, op: 9, mask: k2, data }.encode_form(out, 1, n as u64);
            "several"
        }
    }
}

pub fn bad_utf8(t: &mut Tape) -> Vec<u8> {
    let pre = if t.chance(100) { t.range(12, 110) } else { t.range(0, 12) };
    let mut v = text(11, pre).into_bytes();
    let bads: [&[u8]; 9] = [
        &[0xff], &[0xc0, 0xaf], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0x80], &[0xf0, 0x9f, 0x98], &[0xc3], &[0xf8, 0x88, 0x80, 0x80, 0x80],
    ];
    v.extend_from_slice(*t.pick(&bads));
    if t.choose(2) == 1 {
        v.extend_from_slice(b"tail");
    }
    // a truncated sequence followed by ASCII is still invalid
    v
}

/// A position in a frame stream of n bytes: anywhere, between two frames, inside a header.
pub fn spot(t: &mut Tape, bounds: &[usize], n: usize) -> usize {
    let c = match t.weighted(&[40, 30, 20, 10]) {
        0 => t.range(0, n),
        1 => *t.pick(bounds),
        2 => *t.pick(bounds) + t.range(1, 14),
        _ => t.pick(bounds).saturating_sub(t.range(1, 3)),
    };
    c.min(n)
}

/// Chooses how the network treats one direction.
pub fn net(g: &mut Inner, d: DirId) {
    let mode = g.tape.weighted(&[25, 15, 35, 15, 10]);
    let delay = *g.tape.pick(&[0u32, 10, 1000]);
    g.dirs[d].deliver = match mode {
        0 => Deliver::Instant,
        1 => Deliver::Whole(delay),
        2 => {
            let c = *g.tape.pick(&[3u32, 7, 40, 1000]);
            Deliver::Chunks(c, delay)
        }
        3 => Deliver::Chunks(1, delay),
        _ => Deliver::Chunks(20_000, delay),
    };
    g.dirs[d].short_r = *g.tape.pick(&[0, 100, 600]);
    g.dirs[d].short_w = *g.tape.pick(&[0, 100, 600]);
    g.dirs[d].flaky = 40;
}

/// Big transfers must not be delivered byte by byte (step budget).
pub fn coarsen(g: &mut Inner, d: DirId, total: usize) {
    if total > 3000 {
        if let Deliver::Chunks(c, dl) = g.dirs[d].deliver {
            let min = (total / 400) as u32;
            if c < min {
                g.dirs[d].deliver = Deliver::Chunks(min, dl);
            }
        }
        if g.dirs[d].short_r > 100 {
            g.dirs[d].short_r = 100;
        }
        if g.dirs[d].short_w > 100 {
            g.dirs[d].short_w = 100;
        }
    }
}

pub fn sched(g: &mut Inner) {
    g.preempt = *g.tape.pick(&[0, 50, 300, 700]);
    g.time_pass = *g.tape.pick(&[0, 50, 300]);
    g.spurious_poll = *g.tape.pick(&[0, 0, 200]);
}

pub fn cut(g: &mut Inner, d: DirId, upto: usize) {
    let at = g.tape.range(0, upto) as u64;
    let c = if g.tape.chance(300) { Cut::Rst } else { Cut::Fin };
    g.dirs[d].cut = Some((at, c));
}
