//! Scenario "frames": a raw peer played by the simulator sends frame traffic, legal or not, to
//! one endpoint of the library over a faulty network; whatever the endpoint reports is compared,
//! at every quiescent point, with the reference receiver run on the bytes that have arrived.
use crate::ep::*;
use crate::gen::{self, Sizes};
use crate::refws::{self, accept_for, expect, parse_head, Expect, Item, Limits, DEFAULT_LIMITS, F, FRAGMENTS, M};
use crate::tape::Tape;
use crate::world::{Deliver, DirId, Mode, SimSock, K, W};
use std::io::ErrorKind;

pub struct Info {
    pub frag: bool,
    pub ctl_inside: bool,
    pub interrupts: bool,
    pub limits: bool,
    pub pipelined: bool,
    pub split: bool,
    pub cut: bool,
    pub closed: bool,
}

pub fn item_is(i: &Item, g: &Got) -> bool {
    match (i, g) {
        (Item::Msg(m, _), Got::Msg(x)) => m == x,
        (Item::Frame(f, _), Got::Frame(x)) => f == x,
        _ => false,
    }
}
pub fn item_end(i: &Item) -> usize {
    match i {
        Item::Msg(_, e) | Item::Frame(_, e) => *e,
    }
}
pub fn item_short(i: &Item) -> String {
    match i {
        Item::Msg(m, e) => format!("{} complete at byte {}", m.short(), e),
        Item::Frame(f, e) => format!("{} complete at byte {}", f.short(), e),
    }
}

/// Compares what was reported with what had to be. `avail`: bytes of the stream that arrived;
/// `closed`: the stream is known to have ended. Returns (class, message).
pub fn check_recv(exp: &Expect, got: &[Got], avail: usize, closed: bool, reset: bool) -> Result<(), (&'static str, String)> {
    let req: Vec<&Item> = exp.items.iter().filter(|i| item_end(i) <= avail).collect();
    let mut k = 0;
    while k < req.len() && k < got.len() && item_is(req[k], &got[k]) {
        k += 1;
    }
    if k < req.len() {
        match got.get(k) {
            None => {
                // after a reset bytes that arrived may be discarded before they are read
                return Err(("missing", format!("item {} ({}) has arrived (byte {}) and was not reported", k, item_short(req[k]), avail)));
            }
            Some(Got::End(s)) => {
                if reset {
                    return Ok(());
                }
                return Err(("end-instead-of-item", format!("item {} ({}) was due, got end({})", k, item_short(req[k]), s)));
            }
            Some(Got::Proto(s)) => {
                return Err(("error-instead-of-item", format!("item {} ({}) was due, got protocol error ({})", k, item_short(req[k]), s)));
            }
            Some(g) => return Err(("wrong-item", format!("item {}: expected {}, got {}", k, item_short(req[k]), g.short()))),
        }
    }
    let mut rest = &got[k..];
    if let Some(v) = &exp.viol {
        let mut j = 0;
        while let (Some((m, e)), Some(Got::Msg(x))) = (v.optional.get(j), rest.first()) {
            if *e <= avail && m == x {
                rest = &rest[1..];
                j += 1;
            } else {
                break;
            }
        }
        match rest.first() {
            Some(Got::Proto(s)) => {
                if avail < v.earliest {
                    return Err(("error-too-early", format!("protocol error ({}) after {} bytes, the stream is legal up to byte {}", s, avail, v.earliest)));
                }
                return Ok(());
            }
            Some(Got::End(s)) if v.latest <= avail && !reset => {
                return Err(("end-instead-of-error", format!("{}: reported end({}) instead of an error", v.why, s)));
            }
            None if v.latest <= avail => {
                return Err(("no-error", format!("{}: not reported although byte {} has arrived", v.why, v.latest)));
            }
            _ => {}
        }
    }
    match rest.first() {
        None => {
            if closed {
                return Err(("hang", format!("stream ended after byte {} but the reader is still waiting (has reported {} items)", avail, k)));
            }
            Ok(())
        }
        Some(Got::End(s)) => {
            if closed {
                Ok(())
            } else {
                Err(("premature-end", format!("end({}) reported although the stream goes on (byte {})", s, avail)))
            }
        }
        Some(Got::Proto(s)) => Err(("false-error", format!("protocol error ({}) on a legal stream after {} bytes", s, avail))),
        Some(Got::HsErr(s)) => Err(("handshake", format!("handshake failed: {}", s))),
        Some(g) => Err((
            if exp.viol.as_ref().map_or(false, |v| v.earliest <= avail) { "item-from-offender" } else if closed && k == exp.items.len().min(req.len()) { "invented-item" } else { "extra-item" },
            format!("unexpected {} after {} items ({} bytes arrived)", g.short(), k, avail),
        )),
    }
}

fn tags(class: &str, i: &Info, exp: &Expect) -> Vec<&'static str> {
    let mut t: Vec<&'static str> = vec![];
    let why = exp.viol.as_ref().map_or("", |v| v.why);
    let limit = why.contains("limit");
    let item = ["missing", "wrong-item", "extra-item", "item-from-offender", "invented-item", "end-instead-of-item", "error-instead-of-item"].contains(&class);
    if item || class == "false-error" || class == "error-too-early" || class == "premature-end" {
        t.push("W02");
        if i.frag || i.ctl_inside {
            t.push("W04");
        }
        if i.interrupts {
            t.push("W03");
        }
        if i.pipelined {
            t.push("W10");
        }
        if i.split {
            t.push("W16");
        }
        if i.limits {
            t.push("W07");
        }
    }
    if ["missing", "error-instead-of-item", "end-instead-of-item", "wrong-item", "item-from-offender", "extra-item", "false-error", "error-too-early", "no-error", "end-instead-of-error"].contains(&class) {
        t.push("W05");
    }
    if ["no-error", "end-instead-of-error", "item-from-offender", "extra-item"].contains(&class) {
        t.push("W02");
        if limit {
            t.push("W07");
        }
        if why == "masking" {
            t.push("W06");
        }
    }
    if ["missing", "hang", "no-error"].contains(&class) {
        t.push("W15");
    }
    if i.closed && ["missing", "hang", "no-error"].contains(&class) {
        t.push("W14");
        t.push("W13");
    }
    if i.cut && ["extra-item", "item-from-offender", "invented-item", "false-error", "error-too-early", "wrong-item", "end-instead-of-item", "missing"].contains(&class) {
        t.push("W13");
    }
    if class == "after-end" {
        t.extend(["W13", "W02"]);
    }
    if class == "hang" {
        t.extend(["W02", "W13", "W14"]);
        if limit {
            t.push("W07");
        }
    }
    if class == "handshake" {
        t.extend(["W02", "W08", "W09", "W10", "W15"]);
    }
    if class == "panic" {
        t.extend(["W14", "W02", "W05", "W13", "W15"]);
        if i.frag {
            t.push("W04");
        }
        if i.interrupts {
            t.push("W03");
        }
        if i.limits {
            t.push("W07");
        }
    }
    if class == "memory" {
        t.extend(["W14", "W07"]);
    }
    t
}

fn pick_cfg(t: &mut Tape, id: &str) -> Cfg {
    let role = if t.choose(2) == 0 { Role::Client } else { Role::Server };
    let up = match t.weighted(&[30, 30, 12, 12, 8, 6, 6]) {
        0 => Up::SyncHs,
        1 => Up::AsyncHs,
        2 => Up::SyncRaw,
        3 => Up::AsyncRaw,
        4 => Up::Direct,
        5 => if role == Role::Server { Up::Pair } else { Up::SyncHs },
        _ => if role == Role::Server { Up::Hyper } else { Up::SyncHs },
    };
    // interrupted reads concern the synchronous side most
    let up = if id == "W03" && up.is_async() && t.chance(800) { Up::SyncHs } else { up };
    let up = if id == "W07" && up == Up::Direct { Up::SyncHs } else { up };
    let api = *t.pick(&[Api::Msg, Api::Msg, Api::MsgIter, Api::Frame, Api::FrameIter, Api::SplitMsg, Api::SplitMsgIter, Api::SplitFrame, Api::SplitFrameIter]);
    let api = if (id == "W04" || id == "W07") && api.frames() && t.chance(800) { Api::Msg } else { api };
    let lp = match id { "W07" => 880, "W14" => 400, "W05" => 200, "W03" => 150, _ => 60 };
    let limits = if t.chance(lp) {
        let f = *t.pick(&[200usize, 1000, 126, 125, 10, 65536, 70_000, 4000, 1, 0, (1 << 31) + 5, u32::MAX as usize]);
        let m = match t.choose(6) {
            0 => f.saturating_mul(2).saturating_add(100),
            1 => f,
            2 => f / 2 + 65,
            3 => t.range(0, 600),
            4 => f.saturating_mul(5).saturating_add(400),
            _ => 64 * t.range(1, 8),
        };
        Some((f.min(u32::MAX as usize), m.min(u32::MAX as usize)))
    } else {
        None
    };
    Cfg { role, up, api, limits }
}

/// Sends `bytes` in pieces, running to quiescence after each, until all have been delivered.
pub fn frames(w: &W, id: &'static str) {
    let mut g = w.lock();
    let cfg = pick_cfg(&mut g.tape, id);
    let masked = cfg.role == Role::Server;
    let mut cfg = cfg;
    if cfg.unlimited() {
        cfg.limits = None;
    }
    let mega = matches!(id, "W07" | "W14") && !cfg.api.frames() && !cfg.unlimited() && g.tape.choose(4000) == 3999;
    // a message about as large as the limit that is in force where none is configured
    let heavy = id == "W07" && !mega && !cfg.api.frames() && !cfg.unlimited() && g.tape.choose(2500) == 2499;
    if mega || heavy {
        cfg.limits = None;
    }
    let mut lim = match cfg.limits {
        Some((f, m)) => Limits { frame: f as u64, msg: m as u64 },
        None if cfg.unlimited() => Limits { frame: u64::MAX, msg: u64::MAX },
        None => DEFAULT_LIMITS,
    };
    gen::sched(&mut g);
    // ------------------------------------------------------------- the traffic
    let api_frames = cfg.api.frames();
    let t = &mut g.tape;
    let big = if cfg.limits.is_some() { (lim.frame as usize).min(70_000) } else { *t.pick(&[300, 300, 300, 300, 2000, 2000, 2000, 12_000]) };
    let sizes = Sizes { big, huge: cfg.limits.is_none() && t.chance(80) };
    let frag_p = match id { "W04" => 900, "W07" => 600, _ => *t.pick(&[0, 300, 800]) };
    let ctl_p = match id { "W04" => 400, _ => *t.pick(&[0, 200, 500]) };
    let hostile = t.chance(match id { "W14" => 650, _ => 0 });
    let vio_p = match id { "W05" => 850, "W06" => 800, "W14" => 500, "W02" => 350, "W13" => 150, "W03" => 250, "W15" => 200, _ => 80 };
    let n = 1 + t.choose(if id == "W15" { 4 } else { 7 }) as usize;
    let many = gen::many(t);
    let n = many.unwrap_or(n);
    let sizes = if many.is_some() { Sizes { big: 20, huge: false } } else { sizes };
    let mut fs: Vec<F> = vec![];
    let mut next_id = 0u32;
    for _ in 0..n {
        next_id += 1;
        let m = if n > 60_000 { M::Binary(next_id.to_be_bytes().to_vec()) } else { gen::message(t, next_id, sizes) };
        // around the configured limits
        let m = if cfg.limits.is_some() && many.is_none() && !m.is_control() && t.chance(500) {
            let l = match t.choose(4) { 0 => lim.frame, 1 => lim.frame.saturating_add(1), 2 => lim.msg, _ => lim.frame.saturating_sub(1) } as usize;
            let l = l.min(80_000);
            if t.choose(2) == 0 { M::Binary(gen::pattern(next_id, l)) } else { M::Text(gen::text(next_id, l)) }
        } else { m };
        gen::fragments(t, &m, masked, &mut next_id, frag_p, ctl_p, &mut fs);
    }
    // as many fragments as a message may have, or a few more
    let swarm = if mega { Some(t.choose(3) as u64) } else { None };
    if let Some(over) = swarm {
        let key = gen::mask(t, masked);
        fs.clear();
        let n = FRAGMENTS + over;
        fs.extend((0..n).map(|i| F { fin: i + 1 == n, rsv: 0, op: if i == 0 { 2 } else { 0 }, mask: key, data: if i % 4096 == 0 { vec![i as u8] } else { vec![] } }));
    }
    if heavy {
        let key = gen::mask(t, masked).map(|_| [0; 4]);
        let d = DEFAULT_LIMITS;
        let frames = 3 + t.choose(2) as u64;
        let total = d.msg - (frames - 1) * refws::OVERHEAD - 5 + *t.pick(&[0, 10]);
        fs.clear();
        let mut left = total;
        for i in 0..frames {
            let l = if i + 1 == frames { 7 } else { left.min(d.frame) };
            left -= left.min(l);
            fs.push(F { fin: i + 1 == frames, rsv: 0, op: if i == 0 { 2 } else { 0 }, mask: key, data: vec![i as u8; l as usize] });
        }
    }
    let mut bytes = vec![];
    let mut bounds = vec![0];
    for f in &fs {
        f.encode(&mut bytes);
        bounds.push(bytes.len());
    }
    let mut vio = "";
    if swarm.is_some() {
        vio = "swarm";
    } else if heavy {
        vio = "message near the default limit";
    } else if id == "W07" && cfg.limits.is_none() && !cfg.unlimited() && t.chance(600) {
        // a header around the limit in force where none is configured
        let claim = *t.pick(&[lim.frame, lim.frame - 1, lim.frame + 1, lim.frame + 70_000, 11 << 20, 60 << 20]);
        F { fin: true, rsv: 0, op: 2, mask: gen::mask(t, masked), data: gen::pattern(1, 10) }.encode_form(&mut bytes, 2, claim);
        vio = "default frame limit";
    } else if t.chance(vio_p) {
        let mut state = vec![false];
        for f in &fs {
            let last = *state.last().unwrap();
            state.push(if f.op < 8 { !f.fin } else { last });
        }
        let inside: Vec<usize> = (0..=fs.len()).filter(|a| state[*a]).collect();
        let at = if !inside.is_empty() && t.chance(300) { *t.pick(&inside) } else { t.range(0, fs.len()) };
        let open = state[at];
        let mut tail = bytes.split_off(bounds[at]);
        bounds.truncate(at + 1);
        // only violations of masking for the masking property
        vio = loop {
            let mut b = vec![];
            let v = gen::violation(t, masked, open, lim.frame.min(1 << 32), &mut b);
            if id == "W06" && v != "mask" && v != "several" {
                // choices past the end of a replayed tape are all zero
                if t.spent() { bytes.extend_from_slice(&b); break v; }
                continue;
            }
            bytes.extend_from_slice(&b);
            break v;
        };
        bounds.push(bytes.len());
        if t.chance(700) {
            bytes.append(&mut tail);
        }
    }
    if hostile && swarm.is_none() {
        match t.choose(4) {
            0 => {
                let k = t.range(0, 200);
                for _ in 0..k {
                    let b = t.choose(256) as u8;
                    bytes.push(b);
                }
            }
            1 => {
                for _ in 0..1 + t.choose(4) {
                    if !bytes.is_empty() {
                        let i = t.range(0, bytes.len() - 1);
                        bytes[i] = t.choose(256) as u8;
                    }
                }
                vio = "corrupted";
            }
            2 => {
                // a frame that claims much and delivers little, within the limit
                let claim = (lim.frame as usize).min(*t.pick(&[1000, 100_000, 50 << 20, 100 << 20])) as u64;
                let key = gen::mask(t, masked);
                let form = if claim > 65535 { 2 } else if claim > 125 { 1 } else { 0 };
                F { fin: true, rsv: 0, op: 2, mask: key, data: gen::pattern(1, 10) }.encode_form(&mut bytes, form, claim);
                vio = "claim";
            }
            _ => {
                // a flood of tiny fragments
                let k = t.range(50, 1500);
                for i in 0..k {
                    let key = gen::mask(t, masked);
                    let l = t.choose(2) as usize;
                    F { fin: false, rsv: 0, op: if i == 0 { 2 } else { 0 }, mask: key, data: gen::pattern(i as u32, l) }.encode(&mut bytes);
                }
                vio = "flood";
            }
        }
    }
    // exactly at the message limit either verdict is fine: move off it
    let mut exp = expect(&bytes, masked, lim, api_frames);
    let mut guard = 0;
    while exp.viol.as_ref().map_or(false, |v| v.why == "message limit reached exactly") && guard < 2000 {
        lim.msg += 1;
        guard += 1;
        cfg.limits = Some((lim.frame as usize, lim.msg as usize));
        exp = expect(&bytes, masked, lim, api_frames);
    }
    // ------------------------------------------------------------- the end of the stream
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum Ending { Fin, Stall, Rst }
    let cut_p = match id { "W13" => 850, "W14" => 300, "W02" => 200, _ => 120 };
    let t = &mut g.tape;
    let cut_at = if t.chance(cut_p) { Some(gen::spot(t, &bounds, bytes.len())) } else { None };
    let ending = match t.weighted(&[60, if id == "W14" || id == "W13" { 5 } else { 20 }, if id == "W13" { 25 } else { 8 }]) {
        0 => Ending::Fin,
        1 => Ending::Stall,
        _ => Ending::Rst,
    };
    if let Some(c) = cut_at {
        if c < bytes.len() {
            bytes.truncate(c);
            exp = expect(&bytes, masked, lim, api_frames);
        }
    }
    // ------------------------------------------------------------- network and reading faults
    let (into, out) = g.new_conn();
    gen::net(&mut g, into);
    gen::coarsen(&mut g, into, bytes.len());
    if !cfg.up.is_async() {
        // hyper's handshake reader does not retry interrupted reads; they start after it
        g.dirs[into].eintr_r = 0;
    }
    // over the simulator's stream type, or over a TcpStream whose system calls the simulator answers
    let tcp = g.tape.chance(350);
    let interrupts = !cfg.stateless() && !(tcp && cfg.up.is_async()) && g.tape.chance(match id { "W03" => 1000, _ => 250 });
    let mut mode = Mode::Blocking;
    let mut eintr = 0;
    if interrupts {
        if cfg.up.is_async() {
            let p = *g.tape.pick(&[100, 400]);
            g.dirs[into].spurious_r = p;
        } else {
            match g.tape.choose(3) {
                0 => { mode = Mode::Fail(ErrorKind::WouldBlock) }
                1 => { mode = Mode::Fail(ErrorKind::TimedOut) }
                _ => { eintr = *g.tape.pick(&[100, 400]) }
            }
            if mode != Mode::Blocking {
                let p = *g.tape.pick(&[0, 100, 300]);
                g.dirs[into].spurious_r = p;
            }
        }
    }
    let pipeline = if cfg.up.handshake() {
        match g.tape.weighted(&[40, 40, 20]) {
            0 => 0,
            1 => { let n = bytes.len(); gen::spot(&mut g.tape, &bounds, n) }
            _ => bytes.len(),
        }
    } else { 0 };
    // a client whose server speaks before the reply would be wrong; pipelining means right behind the head
    let mut cuts: Vec<usize> = vec![];
    let pieces = match id { "W15" => 6, _ => 3 };
    let np = g.tape.choose(pieces) as usize;
    for _ in 0..np {
        let n = bytes.len();
        let c = gen::spot(&mut g.tape, &bounds, n);
        if c > pipeline {
            cuts.push(c);
        }
    }
    cuts.push(bytes.len());
    cuts.sort_unstable();
    cuts.dedup();
    let info = Info {
        frag: fs.iter().any(|f| !f.fin && f.op < 8),
        ctl_inside: ctl_p > 0 && frag_p > 0,
        interrupts,
        limits: cfg.limits.is_some() || swarm.is_some() || heavy || vio == "default frame limit",
        pipelined: cfg.up.handshake(),
        split: matches!(cfg.api, Api::SplitMsg | Api::SplitMsgIter | Api::SplitFrame | Api::SplitFrameIter),
        cut: cut_at.is_some(),
        closed: ending != Ending::Stall,
    };
    let desc = format!(
        "frames: {} tcp={} mode={:?} eintr={} frames={} bytes={} violation={:?} cut={:?} ending={:?} pipelined={} net={:?}",
        cfg.desc(), tcp, mode, eintr, fs.len(), bytes.len(), vio, cut_at, ending, pipeline, g.dirs[into].deliver
    );
    g.describe(desc);
    if g.keep_trace {
        for f in &fs {
            let s = format!("plan: {}", f.short());
            g.note(s);
        }
        let s = format!("reference: {}", exp.items.iter().map(item_short).collect::<Vec<_>>().join("; "));
        g.note(s);
        let s = format!("reference violation: {:?}", exp.viol);
        g.note(s);
    }
    if let Some(k) = many {
        g.max_steps = 40_000_000;
        g.probe("long_connection");
        g.probe_max("messages_max", k as u64);
    }
    if swarm.is_some() {
        g.max_steps = 40_000_000;
        g.probe("message_of_max_fragments");
    }
    if heavy {
        g.max_steps = 40_000_000;
        g.probe("message_near_default_limit");
    }
    // an application that reads on after the first error or end
    let late = if g.tape.chance(150) { 1 + g.tape.choose(20) as u32 } else { 0 };
    if late > 0 {
        g.probe("reads_on_after_the_end");
    }
    g.nontrivial = fs.len() > 1 || !vio.is_empty() || cut_at.is_some();
    let conn = Conn::any(&mut g, w, into, out, tcp);
    drop(g);
    // ------------------------------------------------------------- run
    let log = Log::default();
    log.0.lock().unwrap().late_left = late;
    let (l2, c2) = (log.clone(), cfg.clone());
    let node = w.spawn("reader", move || run_reader(conn, c2, mode, l2));
    let fail = |class: &'static str, msg: String, got: &[Got], exp: &Expect| {
        let mut g = w.lock();
        let t = tags(class, &info, exp);
        let tail: Vec<String> = got.iter().rev().take(3).rev().map(|x| x.short()).collect();
        g.viol(&t, class, format!("{} [{}]; last reported: {}", msg, cfg.desc(), tail.join(", ")));
    };
    let hs_len = match handshake(w, &cfg, into, out, &bytes[..pipeline]) {
        Ok(n) => n,
        Err(e) => {
            if w.lock().stuck || w.lock().nodes[node].panic.is_some() {
                finish_checks(w, node, &info, &exp, &cfg);
                return;
            }
            fail("handshake", e, &log.snapshot(), &exp);
            return;
        }
    };
    w.lock().dirs[into].eintr_r = eintr;
    let mut sent = pipeline;
    let mut done = false;
    let mut verify = |closed: bool, reset: bool| -> bool {
        if w.lock().stuck {
            return false;
        }
        let got = log.snapshot();
        let avail = (w.lock().dirs[into].delivered as usize).saturating_sub(hs_len);
        let got = match got.first() {
            Some(Got::Up) => &got[1..],
            Some(Got::HsErr(e)) => {
                fail("handshake", format!("handshake failed: {}", e), &got, &exp);
                return false;
            }
            _ => {
                if w.lock().nodes[node].panic.is_none() {
                    fail("handshake", "handshake did not complete".into(), &got, &exp);
                }
                return false;
            }
        };
        if w.lock().nodes[node].panic.is_some() {
            return false;
        }
        match check_recv(&exp, got, avail, closed, reset) {
            Ok(()) => true,
            Err((class, msg)) => {
                fail(class, msg, got, &exp);
                false
            }
        }
    };
    if cfg.up.handshake() && !verify(false, false) {
        finish_checks(w, node, &info, &exp, &cfg);
        return;
    }
    for c in cuts {
        if c <= sent && sent != 0 {
            continue;
        }
        w.lock().put(into, &bytes[sent..c]);
        w.lock().ev(usize::MAX, K::Inject, into as u64, (c - sent) as u64);
        sent = c;
        if !w.run() || !verify(false, false) {
            done = true;
            break;
        }
    }
    if !done {
        match ending {
            Ending::Fin => {
                let mut g = w.lock();
                if cut_at.is_some() { g.ev(usize::MAX, K::CutFin, into as u64, 0) }
                g.do_fin(into)
            }
            Ending::Rst => {
                let mut g = w.lock();
                g.ev(usize::MAX, K::CutRst, into as u64, 0);
                g.do_rst(into)
            }
            Ending::Stall => w.lock().ev(usize::MAX, K::Stall, into as u64, 0),
        }
        if w.run() {
            if verify(ending != Ending::Stall, ending == Ending::Rst) && late > 0 && ending != Ending::Stall {
                let (late, left) = {
                    let i = log.0.lock().unwrap();
                    (i.late.clone(), i.late_left)
                };
                let got = log.snapshot();
                if !w.done(node) {
                    fail("hang", format!("reading on after the first end or error waits on an ended stream ({} of {} further reads answered)", late.len(), late.len() + left as usize), &late, &exp);
                } else if let (Some(Got::End(_)), Some(g)) = (got.last(), late.iter().find(|g| !matches!(g, Got::End(_)))) {
                    if ending == Ending::Fin {
                        fail("after-end", format!("the end of the stream was followed by {}", g.short()), &late, &exp);
                    }
                }
            }
        }
    }
    if w.done(node) {
        let peak = log.0.lock().unwrap().peak;
        let recv = bytes.len() + hs_len;
        let claim = if cfg.unlimited() { 0 } else { lim.frame as usize };
        let bound = recv * 24 + claim * 2 + (512 << 10);
        w.lock().probe_max("peak_bytes", peak as u64);
        if peak > bound {
            let mut g = w.lock();
            let t = tags("memory", &info, &exp);
            g.viol(&t, "memory", format!("{} bytes allocated for {} bytes received, frame limit {} [{}]", peak, recv, lim.frame, cfg.desc()));
        }
    }
    finish_checks(w, node, &info, &exp, &cfg);
}

fn finish_checks(w: &W, node: usize, info: &Info, exp: &Expect, cfg: &Cfg) {
    let mut g = w.lock();
    if let Some(p) = g.nodes[node].panic.clone() {
        let t = tags("panic", info, exp);
        g.viol(&t, "panic", format!("panic: {} [{}]", p, cfg.desc()));
    } else if g.stuck {
        let mut t = tags("hang", info, exp);
        if info.interrupts {
            t.push("W03");
        }
        let s = g.steps;
        g.viol(&t, "livelock", format!("no progress after {} steps [{}]", s, cfg.desc()));
    }
}

/// The simulator's side of the handshake. Returns the length of what was sent as the head.
pub fn handshake(w: &W, cfg: &Cfg, into: DirId, out: DirId, behind: &[u8]) -> Result<usize, String> {
    if !cfg.up.handshake() {
        return Ok(0);
    }
    if !w.run() {
        return Err("no progress".into());
    }
    let head = match cfg.role {
        Role::Client => {
            let sent = w.lock().dirs[out].sent.clone();
            let h = parse_head(&sent)?.ok_or_else(|| format!("the client sent no complete request: {:?}", String::from_utf8_lossy(&sent)))?;
            let key = h.one("Sec-WebSocket-Key").ok_or("request without key")?.to_string();
            format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept_for(&key))
        }
        Role::Server => "GET /chat HTTP/1.1\r\nHost: sim.example\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n".to_string(),
    };
    let mut b = head.clone().into_bytes();
    b.extend_from_slice(behind);
    w.lock().put(into, &b);
    if !w.run() {
        return Err("no progress".into());
    }
    if cfg.role == Role::Server {
        let sent = w.lock().dirs[out].sent.clone();
        let h = parse_head(&sent)?.ok_or_else(|| "the server sent no complete reply".to_string())?;
        if !h.line.starts_with("HTTP/1.1 101") {
            return Err(format!("reply {:?}", h.line));
        }
    }
    Ok(head.len())
}

#[allow(dead_code)]
fn _unused(_: Deliver, _: refws::Viol) {}
