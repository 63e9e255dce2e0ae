//! Scenario "send": one endpoint sends through every sending interface of the library into a
//! faulty transport, and every byte that reaches the wire is decoded independently. A twin
//! with other entropy sends the same things, so that keys that do not depend on entropy show.
use crate::ep::*;
use crate::exec;
use crate::gen::{self, Sizes};
use crate::refws::{foreseeable, gf2_rank, parse_frame, Head, F, M};
use crate::s_duplex::{DfItem, Out, SendTask, Sent};
use crate::world::{cur, DirId, Inner, Mode, SimSock, W};
use bytes::BytesMut;
use hyper::buffer::BufReader;
use hyper::header::Headers;
use std::io::{ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use tokio_codec::{Decoder, Encoder};
use websocket::codec::ws::{Context, DataFrameCodec, MessageCodec};
use websocket::dataframe::DataFrame;
use websocket::stream::ReadWritePair;
use websocket::sync::Client;
use websocket::ws::dataframe::DataFrame as DataFrameTrait;
use websocket::ws::{Message as MessageTrait, Sender as _};
use websocket::{Message, OwnedMessage, WebSocketResult};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    Whole,
    Split,
    Pair,
    Sender,
    Serialize,
    MsgCodec,
    BorrowedCodec,
    FrameCodec,
    Buffer,
}

#[derive(Clone, Debug)]
enum Item {
    Owned(M),
    Borrowed(M),
    Frame(F),
    /// a data frame type of the application's own, which writes its payload in pieces
    Custom(F, usize),
    /// cannot be sent legally; true: as a frame
    Illegal(M, bool),
}

impl Item {
    fn frame(&self) -> Option<F> {
        match self {
            Item::Owned(m) | Item::Borrowed(m) => Some(F { fin: true, rsv: 0, op: m.opcode(), mask: None, data: m.payload() }),
            Item::Frame(f) | Item::Custom(f, _) => Some(f.clone()),
            Item::Illegal(..) => None,
        }
    }
    fn short(&self) -> String {
        match self {
            Item::Owned(m) => format!("owned {}", m.short()),
            Item::Borrowed(m) => format!("borrowed {}", m.short()),
            Item::Frame(f) => f.short(),
            Item::Custom(f, n) => format!("custom {} in pieces of {}", f.short(), n),
            Item::Illegal(m, _) => format!("illegal {}", m.short()),
        }
    }
}

/// An application's own data frame type.
struct Pieces {
    f: F,
    rsv: [bool; 3],
    n: usize,
}
impl Pieces {
    fn new(f: &F, n: usize) -> Pieces {
        Pieces { rsv: [f.rsv & 4 != 0, f.rsv & 2 != 0, f.rsv & 1 != 0], f: f.clone(), n }
    }
}
impl DataFrameTrait for Pieces {
    fn is_last(&self) -> bool {
        self.f.fin
    }
    fn opcode(&self) -> u8 {
        self.f.op
    }
    fn reserved(&self) -> &[bool; 3] {
        &self.rsv
    }
    fn size(&self) -> usize {
        self.f.data.len()
    }
    fn write_payload(&self, socket: &mut dyn Write) -> WebSocketResult<()> {
        for c in self.f.data.chunks(self.n) {
            socket.write_all(c)?;
        }
        socket.flush()?;
        Ok(())
    }
    fn take_payload(self) -> Vec<u8> {
        self.f.data
    }
}

trait Tx {
    fn frame<D: DataFrameTrait>(&mut self, f: &D) -> WebSocketResult<()>;
    fn msg<T: MessageTrait>(&mut self, m: &T) -> WebSocketResult<()>;
}
impl<S: websocket::stream::Stream> Tx for Client<S> {
    fn frame<D: DataFrameTrait>(&mut self, f: &D) -> WebSocketResult<()> {
        self.send_dataframe(f)
    }
    fn msg<T: MessageTrait>(&mut self, m: &T) -> WebSocketResult<()> {
        self.send_message(m)
    }
}
impl<S: Write> Tx for websocket::sender::Writer<S> {
    fn frame<D: DataFrameTrait>(&mut self, f: &D) -> WebSocketResult<()> {
        self.send_dataframe(f)
    }
    fn msg<T: MessageTrait>(&mut self, m: &T) -> WebSocketResult<()> {
        self.send_message(m)
    }
}
struct Direct<S>(websocket::sender::Sender, S);
impl<S: Write> Tx for Direct<S> {
    fn frame<D: DataFrameTrait>(&mut self, f: &D) -> WebSocketResult<()> {
        self.0.send_dataframe(&mut self.1, f)
    }
    fn msg<T: MessageTrait>(&mut self, m: &T) -> WebSocketResult<()> {
        self.0.send_message(&mut self.1, m)
    }
}
struct Ser<S>(bool, S);
impl<S: Write> Tx for Ser<S> {
    fn frame<D: DataFrameTrait>(&mut self, f: &D) -> WebSocketResult<()> {
        f.write_to(&mut self.1, self.0)
    }
    fn msg<T: MessageTrait>(&mut self, m: &T) -> WebSocketResult<()> {
        m.serialize(&mut self.1, self.0)
    }
}

struct Side {
    sent: Sent,
    /// predicted sizes that are wrong
    sizes: Arc<Mutex<Vec<String>>>,
}

fn wire_len(f: &F, masked: bool) -> usize {
    let n = f.data.len();
    2 + if n > 65535 { 8 } else if n > 125 { 2 } else { 0 } + if masked { 4 } else { 0 } + n
}

fn predict(it: &Item, masked: bool, out: &Mutex<Vec<String>>) {
    let mut say = |what: &str, got: usize, want: usize, it: &Item| {
        if got != want {
            out.lock().unwrap().push(format!("{} predicts {} bytes for {}, which takes {}", what, got, it.short(), want))
        }
    };
    let f = match it.frame() {
        Some(f) => f,
        None => return,
    };
    for m in [masked, !masked] {
        let want = wire_len(&f, m);
        match it {
            Item::Owned(x) => {
                let o = to_owned(x);
                say("OwnedMessage::message_size", o.message_size(m), want, it);
                say("OwnedMessage::frame_size", o.frame_size(m), want, it);
            }
            Item::Borrowed(x) => {
                let o = to_borrowed(x);
                say("Message::message_size", o.message_size(m), want, it);
                say("Message::frame_size", o.frame_size(m), want, it);
            }
            Item::Frame(f) => say("DataFrame::frame_size", to_df(f).frame_size(m), want, it),
            Item::Custom(f, n) => say("frame_size", Pieces::new(f, *n).frame_size(m), want, it),
            Item::Illegal(..) => {}
        }
    }
}

fn go<T: Tx>(tx: &mut T, plan: &[Item], sent: &Sent) {
    for it in plan {
        if let Some(f) = it.frame() {
            sent.lock().unwrap().tried.push(f);
        }
        let r = match it {
            Item::Owned(m) => tx.msg(&to_owned(m)),
            Item::Borrowed(m) => tx.msg(&to_borrowed(m)),
            Item::Frame(f) => tx.frame(&to_df(f)),
            Item::Custom(f, n) => tx.frame(&Pieces::new(f, *n)),
            Item::Illegal(m, false) => tx.msg(&to_owned(m)),
            Item::Illegal(m, true) => tx.frame(&DataFrame::new(true, websocket::dataframe::Opcode::new(m.opcode()).unwrap(), m.payload())),
        };
        let mut s = sent.lock().unwrap();
        match (it, r) {
            (Item::Illegal(m, _), Ok(())) => s.illegal_ok = Some(m.short()),
            (Item::Illegal(..), Err(_)) => {}
            (_, Ok(())) => s.ok += 1,
            (_, Err(e)) => {
                s.err = Some(format!("{:?}", e));
                return;
            }
        }
    }
}

fn node(conn: Conn, via: Via, client: bool, plan: Arc<Vec<Item>>, sent: Sent) {
    let aio = matches!(via, Via::MsgCodec | Via::BorrowedCodec | Via::FrameCodec);
    match conn {
        Conn::Sim(s) if aio => {
            s.set_mode(Mode::Async);
            async_node(s, via, client, plan, sent)
        }
        Conn::Pair(s) if aio => {
            s.set_mode(Mode::Async);
            async_node(rw_pair(s), via, client, plan, sent)
        }
        Conn::Fd(fd, ..) if aio => exec::with_reactor(|| async_node(tokio_tcp(fd), via, client, plan, sent)),
        Conn::Pair(s) => sync_node(rw_pair(s), via, client, plan, sent),
        Conn::Sim(s) => sync_node(s, via, client, plan, sent),
        Conn::Fd(fd, ..) => sync_node(Conn::tcp(fd), via, client, plan, sent),
    }
}

fn sync_node<S: Sock>(sock: S, via: Via, client: bool, plan: Arc<Vec<Item>>, sent: Sent)
where
    S::Writer: Send,
{
    match via {
        Via::Whole => {
            let mut c = Client::unchecked(BufReader::new(sock), Headers::new(), client, !client);
            go(&mut c, &plan, &sent)
        }
        Via::Split => {
            let c = Client::unchecked(BufReader::new(sock), Headers::new(), client, !client);
            let (_r, mut wr) = c.split().expect("split");
            go(&mut wr, &plan, &sent)
        }
        Via::Pair => {
            let c = Client::unchecked(BufReader::new(ReadWritePair(sock.dup(), sock)), Headers::new(), client, !client);
            let (_r, mut wr) = c.split().expect("split");
            go(&mut wr, &plan, &sent)
        }
        Via::Sender => go(&mut Direct(websocket::sender::Sender::new(client), sock), &plan, &sent),
        Via::Serialize => go(&mut Ser(client, sock), &plan, &sent),
        _ => buffer(sock, client, &plan, &sent),
    }
}

fn async_node<K: ASock>(sock: K, via: Via, client: bool, plan: Arc<Vec<Item>>, sent: Sent) {
    let ctx = if client { Context::Client } else { Context::Server };
    let (w, _) = cur().unwrap();
    let (each, close) = {
        let mut g = w.lock();
        let x = (g.tape.choose(2) == 0, g.tape.chance(300));
        if x.1 {
            g.probe("sink_closed");
        }
        x
    };
    let msg = |it: &Item| match it {
        Item::Owned(m) | Item::Borrowed(m) | Item::Illegal(m, _) => m.clone(),
        _ => unreachable!(),
    };
    let fs = |it: &Item| it.frame().into_iter().collect::<Vec<_>>();
    let ill = |it: &Item| matches!(it, Item::Illegal(..));
    match via {
        Via::MsgCodec => {
            let items = plan.iter().map(|i| (to_owned(&msg(i)), fs(i), ill(i))).collect();
            let c = MessageCodec::<OwnedMessage>::new(ctx).framed(sock);
            exec::run_tasks(vec![Box::new(SendTask { c, out: Out { items, sent, dirty: false, dead: false, close }, each })]);
        }
        Via::BorrowedCodec => {
            let items = plan.iter().map(|i| (Message::from(to_owned(&msg(i))), fs(i), ill(i))).collect();
            let c = MessageCodec::<Message<'static>>::new(ctx).framed(sock);
            exec::run_tasks(vec![Box::new(SendTask { c, out: Out { items, sent, dirty: false, dead: false, close }, each })]);
        }
        _ => {
            let df = |i: &Item| match i {
                Item::Frame(f) => to_df(f),
                i => {
                    let m = msg(i);
                    DataFrame::new(true, websocket::dataframe::Opcode::new(m.opcode()).unwrap(), m.payload())
                }
            };
            let items = plan.iter().map(|i| (DfItem(df(i)), fs(i), ill(i))).collect();
            let c = DataFrameCodec::<DfItem>::new(ctx).framed(sock);
            exec::run_tasks(vec![Box::new(SendTask { c, out: Out { items, sent, dirty: false, dead: false, close }, each })]);
        }
    }
}

/// The encoders on a buffer of the application's own, which it writes out now and then.
fn buffer<S: Write>(mut sock: S, client: bool, plan: &[Item], sent: &Sent) {
    let (w, _) = cur().unwrap();
    let ctx = || if client { Context::Client } else { Context::Server };
    let mut mc = MessageCodec::<OwnedMessage>::default(ctx());
    let mut dc: DataFrameCodec<DfItem> = DataFrameCodec::new(ctx());
    let cap = *w.lock().tape.pick(&[0usize, 1, 16, 200, 5000]);
    let mut buf = BytesMut::with_capacity(cap);
    let mut waiting = 0;
    let mut it = plan.iter().peekable();
    while let Some(i) = it.next() {
        let before = buf.to_vec();
        if let Some(f) = i.frame() {
            sent.lock().unwrap().tried.push(f);
        }
        let r = match i {
            Item::Owned(m) | Item::Borrowed(m) => mc.encode(to_owned(m), &mut buf),
            Item::Frame(f) => dc.encode(DfItem(to_df(f)), &mut buf),
            Item::Custom(f, n) => {
                use bytes::BufMut;
                buf.reserve(wire_len(f, client));
                Pieces::new(f, *n).write_to(&mut (&mut buf).writer(), client)
            }
            Item::Illegal(m, false) => mc.encode(to_owned(m), &mut buf),
            Item::Illegal(m, true) => dc.encode(DfItem(DataFrame::new(true, websocket::dataframe::Opcode::new(m.opcode()).unwrap(), m.payload())), &mut buf),
        };
        let mut s = sent.lock().unwrap();
        match (i, r) {
            (Item::Illegal(m, _), Ok(())) => s.illegal_ok = Some(m.short()),
            (Item::Illegal(..), Err(_)) => {
                if buf[..] != before[..] {
                    s.illegal_ok = Some(format!("(partly) {}", m_short(i)))
                }
            }
            (_, Ok(())) => waiting += 1,
            (_, Err(e)) => {
                s.err = Some(format!("{:?}", e));
                return;
            }
        }
        drop(s);
        let out = it.peek().is_none() || w.lock().tape.choose(3) == 0;
        if out {
            let b = buf.take();
            if let Err(e) = sock.write_all(&b) {
                sent.lock().unwrap().err = Some(format!("{:?}", e));
                return;
            }
            sent.lock().unwrap().ok += waiting;
            waiting = 0;
        }
    }
}
fn m_short(i: &Item) -> String {
    i.short()
}

fn plan(g: &mut Inner, via: Via, id: &str) -> Vec<Item> {
    let t = &mut g.tape;
    let many = matches!(id, "W06") && t.chance(300) || t.chance(20);
    let n = if many { t.range(90, 180) } else { 1 + t.choose(10) as usize };
    let sizes = if many { Sizes { big: 20, huge: false } } else { Sizes { big: *t.pick(&[200, 200, 3000]), huge: t.chance(80) } };
    let ill = *t.pick(&[0, if id == "W12" { 350 } else { 150 }]);
    let same = t.chance(250);
    let is_async = matches!(via, Via::MsgCodec | Via::BorrowedCodec | Via::FrameCodec);
    let mut v = vec![];
    let mut next = 0;
    let mut giant = if many { None } else { gen::giant(t) };
    for _ in 0..n {
        if !same || next == 0 {
            next += 1;
        }
        if t.chance(ill) {
            let k = t.range(126, 300);
            let l = *t.pick(&[126usize, 127, 65_536, 70_000]);
            let l = if many || t.choose(2) == 0 { k } else { l };
            let m = match t.choose(3) {
                0 => M::Ping(gen::pattern(next, l)),
                1 => M::Pong(gen::pattern(next, l)),
                _ => M::Close(Some((1000, gen::text(next, l - 2)))),
            };
            let fr = via == Via::FrameCodec || !is_async && t.choose(2) == 0;
            v.push(Item::Illegal(m, fr));
            continue;
        }
        let mut m = gen::message(t, next, sizes);
        if !many && t.chance(60) {
            // where the form of the length changes
            let l = *t.pick(&[125usize, 126, 127, 65_535, 65_536, 65_537]);
            m = M::Binary(gen::pattern(next, l));
        }
        if let Some(g) = giant.take() {
            m = g;
        }
        let kind = match via {
            Via::MsgCodec => 0,
            Via::BorrowedCodec => 1,
            Via::FrameCodec => 2,
            Via::Buffer => *t.pick(&[0, 2, 3]),
            _ => t.choose(4),
        };
        v.push(match kind {
            0 => Item::Owned(m),
            1 => Item::Borrowed(m),
            k => {
                // any frame at all: flags, reserved bits and opcodes as the application asks
                let f = F {
                    fin: t.chance(300) == false,
                    rsv: if t.chance(250) { t.choose(8) as u8 } else { 0 },
                    op: if t.chance(300) { t.choose(16) as u8 } else { m.opcode() },
                    mask: None,
                    data: m.payload(),
                };
                let f = if f.op >= 8 && f.data.len() > 125 { F { op: f.op & 7, ..f } } else { f };
                if k == 2 {
                    Item::Frame(f)
                } else {
                    Item::Custom(f, *t.pick(&[1usize, 2, 3, 5, 7, 64, 1000]))
                }
            }
        });
    }
    v
}

pub fn send(w: &W, id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    if g.tape.chance(60) {
        drop(g);
        return masker(w);
    }
    let via = *g.tape.pick(&[Via::Whole, Via::Split, Via::Pair, Via::Sender, Via::Serialize, Via::MsgCodec, Via::BorrowedCodec, Via::FrameCodec, Via::Buffer]);
    let client = g.tape.choose(3) != 2 || id == "W06" && g.tape.choose(3) != 0;
    let is_async = matches!(via, Via::MsgCodec | Via::BorrowedCodec | Via::FrameCodec);
    let plan = Arc::new(plan(&mut g, via, id));
    let total: usize = plan.iter().filter_map(|i| i.frame()).map(|f| wire_len(&f, client)).sum();
    let twin = g.tape.chance(if id == "W06" { 600 } else { 150 });
    let mut fault = vec![];
    let mut ends = vec![];
    for k in 0..if twin { 2 } else { 1 } {
        // the peer reads one direction; nothing travels in the other
        let (up, down) = g.new_conn();
        let d = up;
        let tcp = g.tape.chance(300);
        gen::net(&mut g, d);
        gen::coarsen(&mut g, d, total);
        let mut f = None;
        if k == 0 {
            if g.tape.chance(500) {
                let c = *g.tape.pick(&[1usize, 3, 60, 600, 20_000]);
                g.dirs[d].cap = c.max(total / 300);
            }
            let p = *g.tape.pick(&[0, 100, 400]);
            if is_async && tcp {
            } else if is_async {
                g.dirs[d].spurious_w = p;
            } else {
                g.dirs[d].eintr_w = p;
            }
            if g.tape.chance(if id == "W12" { 450 } else { 200 }) {
                let at = g.tape.range(0, total) as u64;
                let kinds = [ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::WriteZero, ErrorKind::WouldBlock];
                let n = if tcp { 5 } else if is_async { 6 } else { 7 };
                let kind = kinds[g.tape.choose(n) as usize];
                g.dirs[d].wfail = Some((at, kind));
                f = Some((at, format!("{:?}", kind)));
            } else if g.tape.chance(80) {
                gen::cut(&mut g, d, total);
                f = Some((0, "cut".into()));
            }
        }
        fault.push(f);
        let a = Conn::any(&mut g, w, down, up, tcp);
        let b = match Conn::over(&mut g, w, up, down, false) { Conn::Sim(s) => s, _ => unreachable!() };
        ends.push((a, b, d));
    }
    let desc = format!("send: {} via {:?}{}{}; {} items, {} bytes; cap {:?}; short writes {}/1000; fault {:?}",
        if client { "client" } else { "server" }, via, if matches!(ends[0].0, Conn::Fd(..)) { " over tcp" } else { "" }, if twin { " with a twin" } else { "" }, plan.len(), total, g.dirs[ends[0].2].cap, g.dirs[ends[0].2].short_w, fault[0]);
    g.describe(desc.clone());
    if g.keep_trace {
        for i in plan.iter() {
            let s = i.short();
            g.note(format!("plan: {}", s));
        }
    }
    drop(g);
    let mut sides = vec![];
    let mut dirs = vec![];
    for (k, (a, mut b, d)) in ends.into_iter().enumerate() {
        let sent = Sent::default();
        let sizes = Arc::new(Mutex::new(vec![]));
        let (p, s2, z) = (plan.clone(), sent.clone(), sizes.clone());
        w.spawn(if k == 0 { "sender" } else { "twin" }, move || {
            for i in p.iter() {
                predict(i, client, &z);
            }
            node(a, via, client, p, s2)
        });
        let w2 = w.clone();
        w.spawn("peer", move || {
            let (_, me) = cur().unwrap();
            let mut buf = vec![0; 30_000];
            loop {
                let (n, nap) = {
                    let mut g = w2.lock();
                    (*g.tape.pick(&[30_000usize, 100, 7, 2000]), g.tape.chance(100))
                };
                if nap {
                    w2.sleep(me, 500);
                }
                match b.read(&mut buf[..n]) {
                    Ok(0) | Err(_) => return,
                    Ok(_) => {}
                }
            }
        });
        sides.push(Side { sent, sizes });
        dirs.push(d);
    }
    let ok = w.run();
    let mut g = w.lock();
    let pan: Vec<(String, String)> = g.nodes.iter().filter_map(|n| n.panic.clone().map(|p| (n.name.clone(), p))).collect();
    for (n, p) in pan {
        g.viol(&["W12", "W20", "W06", "W01"], "panic", format!("{} panicked: {} [{}]", n, p, desc));
        return;
    }
    if !ok {
        g.viol(&["W12", "W15"], "livelock", format!("sending makes no progress [{}]", desc));
        return;
    }
    let mut keys: Vec<Vec<u32>> = vec![];
    for k in 0..sides.len() {
        match wire(&mut g, &sides[k], dirs[k], client, &fault[k], &plan, &desc) {
            Some(x) => keys.push(x),
            None => return,
        }
    }
    if client {
        fresh(&mut g, &keys, &desc);
    }
}

/// Decodes what one sender put on the wire and compares it with what was asked for.
fn wire(g: &mut Inner, side: &Side, d: DirId, client: bool, fault: &Option<(u64, String)>, plan: &[Item], desc: &str) -> Option<Vec<u32>> {
    let b = g.dirs[d].sent.clone();
    let sent = side.sent.lock().unwrap();
    if let Some(s) = side.sizes.lock().unwrap().first() {
        let s = s.clone();
        g.viol(&["W20"], "size-prediction", format!("{} [{}]", s, desc));
        return None;
    }
    if let Some(m) = &sent.illegal_ok {
        let m = m.clone();
        g.viol(&["W12", "W20"], "illegal-sent", format!("{} was accepted for sending [{}]", m, desc));
        return None;
    }
    let mut pos = 0;
    let mut keys = vec![];
    let mut n = 0;
    while pos < b.len() {
        let want = match sent.tried.get(n) {
            Some(f) => f,
            None => {
                g.viol(&["W12", "W20"], "wire", format!("{} stray bytes on the wire after the last frame [{}]", b.len() - pos, desc));
                return None;
            }
        };
        let bad = |g: &mut Inner, props: &[&'static str], what: String| {
            g.viol(props, "wire", format!("frame {} at byte {}: {}, sent was {} [{}]", n, pos, what, want.short(), desc));
        };
        let r = &b[pos..];
        let first = (want.fin as u8) << 7 | want.rsv << 4 | want.op;
        if r[0] != first {
            bad(g, &["W20", "W12"], format!("first byte is {:#04x}, not {:#04x}", r[0], first));
            return None;
        }
        let l = want.data.len();
        let mut head: Vec<u8> = vec![];
        let m = if client { 0x80u8 } else { 0 };
        if l <= 125 {
            head.push(m | l as u8);
        } else if l <= 65535 {
            head.push(m | 126);
            head.extend((l as u16).to_be_bytes());
        } else {
            head.push(m | 127);
            head.extend((l as u64).to_be_bytes());
        }
        let have = (r.len() - 1).min(head.len());
        if r[1..1 + have] != head[..have] {
            let mask_wrong = have > 0 && (r[1] ^ head[0]) & 0x80 != 0;
            bad(g, if mask_wrong { &["W06", "W20", "W12"] } else { &["W20", "W12"] }, format!("length bytes are {:02x?}, not {:02x?}", &r[1..1 + have], &head[..have]));
            return None;
        }
        match parse_frame(&b, pos) {
            Head::Have(p) if p.complete => {
                if p.f.data != want.data {
                    let i = p.f.data.iter().zip(&want.data).position(|(a, b)| a != b);
                    bad(g, &["W06", "W20", "W12", "W01"], format!("unmasked payload differs at {:?}", i));
                    return None;
                }
                if let Some(k) = p.f.mask {
                    keys.push(u32::from_be_bytes(k));
                }
                pos = p.end;
                n += 1;
            }
            Head::Have(p) => {
                // the frame was cut by the fault: what is there must still be right
                let got = &b[p.hdr.min(b.len())..];
                if let (Some(k), true) = (p.f.mask, p.hdr <= b.len()) {
                    if let Some(i) = (0..got.len()).find(|&i| got[i] ^ k[i & 3] != want.data[i]) {
                        bad(g, &["W12", "W06", "W20"], format!("payload byte {} of the cut frame is wrong", i));
                        return None;
                    }
                } else if p.f.mask.is_none() && got != &want.data[..got.len()] {
                    bad(g, &["W12", "W20"], "the cut frame's payload is wrong".into());
                    return None;
                }
                break;
            }
            Head::Short => break,
        }
    }
    let whole = n;
    if sent.ok > whole {
        g.viol(&["W12", "W20", "W15"], "lost", format!("{} frames were sent successfully, {} are on the wire [{}]", sent.ok, whole, desc));
        return None;
    }
    let want = plan.iter().filter(|i| i.frame().is_some()).count();
    match (&sent.err, fault) {
        (Some(e), None) => {
            let e = e.clone();
            g.viol(&["W12", "W20"], "send-error", format!("sending failed without a fault: {} [{}]", e, desc));
            return None;
        }
        (None, _) if sent.ok < want => {
            // neither an error nor success
            g.viol(&["W15", "W12"], "stalled-send", format!("{} of {} frames were sent and nothing more happens [{}]", sent.ok, want, desc));
            return None;
        }
        _ => {}
    }
    if fault.is_some() && sent.err.is_some() {
        g.probe("send_failed_by_transport");
    }
    if sent.err.is_none() && pos < b.len() {
        g.viol(&["W12", "W20"], "wire", format!("an incomplete frame ends the output although sending succeeded [{}]", desc));
        return None;
    }
    Some(keys)
}

/// Masking keys must be drawn afresh for every frame and connection.
pub fn fresh(g: &mut Inner, conns: &[Vec<u32>], desc: &str) {
    let all: Vec<u32> = conns.iter().flatten().copied().collect();
    let mut s = all.clone();
    s.sort_unstable();
    // a single coincidence among random keys is possible, two are not
    let dups = s.windows(2).filter(|x| x[0] == x[1]).count();
    if dups >= 2 {
        let ex = s.windows(2).find(|x| x[0] == x[1]).unwrap()[0];
        g.viol(&["W06"], "repeated-key", format!("{} of {} masking keys are repeats, e.g. {:08x} [{}]", dups, s.len(), ex, desc));
        return;
    }
    if s.iter().filter(|k| **k == 0).count() >= 2 {
        g.viol(&["W06"], "zero-key", format!("masking keys are zero [{}]", desc));
        return;
    }
    for c in conns.iter().chain(std::iter::once(&all)) {
        if c.len() >= 72 {
            g.probe("key_rank_checked");
            let v: Vec<u128> = c[1..].iter().map(|k| (k ^ c[0]) as u128).collect();
            let r = gf2_rank(&v);
            if r < 32 {
                g.viol(&["W06"], "weak-key", format!("{} masking keys span only {} of 32 bits [{}]", c.len(), r, desc));
                return;
            }
            // keys that count up, or are related by a constant step, are predictable
            let mut dd: Vec<u32> = c.windows(2).map(|x| x[1].wrapping_sub(x[0])).collect();
            dd.sort_unstable();
            let rep = dd.windows(2).filter(|x| x[0] == x[1]).count();
            let mut dx: Vec<u32> = c.windows(2).map(|x| x[1] ^ x[0]).collect();
            dx.sort_unstable();
            let repx = dx.windows(2).filter(|x| x[0] == x[1]).count();
            if rep >= 3 || repx >= 3 {
                g.viol(&["W06"], "predictable-key", format!("masking keys follow each other by a fixed step [{}]", desc));
                return;
            }
            let v: Vec<u128> = c.iter().map(|k| u32::from_be(*k) as u128).collect();
            if let Some(how) = foreseeable(&v, 32).or_else(|| foreseeable(&c.iter().map(|k| *k as u128).collect::<Vec<_>>(), 32)) {
                g.viol(&["W06"], "predictable-key", format!("each masking key follows from those before it {} [{}]", how, desc));
                return;
            }
        }
    }
}

/// The masking writer by itself, straight onto a socket that takes little at a time.
fn masker(w: &W) {
    let mut g = w.lock();
    let (a, b) = SimSock::pair_in(&mut g, w);
    let d = a.0.wr;
    gen::net(&mut g, d);
    g.dirs[d].short_w = *g.tape.pick(&[600, 100, 950]);
    g.dirs[d].eintr_w = *g.tape.pick(&[0, 200]);
    let n = g.tape.range(1, 400);
    let key = gen::mask(&mut g.tape, true).unwrap();
    let data = gen::pattern(9, n);
    let mut pieces = vec![];
    let mut at = 0;
    while at < n {
        let k = g.tape.range(1, 40).min(n - at);
        pieces.push(data[at..at + k].to_vec());
        at += k;
    }
    let at = if g.tape.chance(300) { Some(g.tape.range(0, n)) } else { None };
    if let Some(x) = at {
        g.dirs[d].wfail = Some((x as u64, ErrorKind::BrokenPipe));
    }
    let desc = format!("send: Masker on a socket, {} bytes in {} pieces, write fails at {:?}", n, pieces.len(), at);
    g.describe(desc.clone());
    drop(g);
    let res = Arc::new(Mutex::new(None));
    let r2 = res.clone();
    w.spawn("masker", move || {
        let mut s = a;
        let r = {
            let mut m = websocket::ws::util::mask::Masker::new(key, &mut s);
            pieces.iter().try_for_each(|p| m.write_all(p))
        };
        *r2.lock().unwrap() = Some(r.is_ok());
        drop(s);
    });
    let ok = w.run();
    let mut g = w.lock();
    let sent = g.dirs[d].sent.clone();
    let want: Vec<u8> = data.iter().enumerate().map(|(i, b)| b ^ key[i & 3]).collect();
    let r = *res.lock().unwrap();
    if let Some(p) = g.nodes[0].panic.clone() {
        g.viol(&["W12", "W06"], "panic", format!("Masker panicked: {} [{}]", p, desc));
    } else if !ok || r.is_none() {
        g.viol(&["W12", "W15"], "livelock", format!("masking makes no progress [{}]", desc));
    } else if sent.len() > want.len() || sent[..] != want[..sent.len()] || r == Some(true) && sent.len() != n {
        let i = sent.iter().zip(&want).position(|(a, b)| a != b);
        g.viol(&["W12", "W06"], "masker", format!("masked output differs at byte {:?} ({} of {} bytes written, reported ok: {:?}) [{}]", i, sent.len(), n, r, desc));
    } else if r == Some(false) && at.is_none() {
        g.viol(&["W12"], "send-error", format!("masking failed without a fault [{}]", desc));
    }
    drop(g);
    drop(b);
}
