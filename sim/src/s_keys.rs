//! Scenario "keys": many connects from a builder, its clones and fresh builders; the handshake
//! keys on the wire must be unpredictable. A twin with other entropy makes the same connects.
use crate::exec;
use crate::gen;
use crate::refws::{foreseeable, gf2_rank, parse_head, unb64};
use crate::world::{Mode, SimSock, W};
use websocket::ClientBuilder;

pub fn keys(w: &W, _id: &'static str) {
    let mut g = w.lock();
    gen::sched(&mut g);
    let n = g.tape.range(172, 190);
    let fresh = g.tape.choose(3);
    let is_async = g.tape.choose(2) == 1;
    let mut outs = vec![vec![], vec![]];
    let mut socks = vec![vec![], vec![]];
    for k in 0..2 {
        for _ in 0..n {
            let (s, i, o) = SimSock::raw_in(&mut g, w);
            g.do_fin(i);
            socks[k].push(s);
            outs[k].push(o);
        }
    }
    let desc = format!("keys: {} {} connects, {}", n, if is_async { "asynchronous" } else { "synchronous" }, ["one builder", "clones", "new builders"][fresh as usize]);
    g.describe(desc.clone());
    drop(g);
    for ss in socks {
        w.spawn("client", move || {
            let mut b = ClientBuilder::new("ws://sim.example/").unwrap();
            for s in ss {
                match fresh {
                    1 => b = b.clone(),
                    2 => b = ClientBuilder::new("ws://sim.example/").unwrap(),
                    _ => {}
                }
                if is_async {
                    s.set_mode(Mode::Async);
                    let _ = exec::block_on(b.clone().async_connect_on(s).map_drop());
                } else {
                    let _ = b.connect_on(s);
                }
            }
        });
    }
    let ok = w.run();
    let mut g = w.lock();
    let pan: Vec<String> = g.nodes.iter().filter_map(|n| n.panic.clone()).collect();
    if let Some(p) = pan.first() {
        let p = p.clone();
        g.viol(&["W19", "W08", "W14"], "panic", format!("connect panicked: {} [{}]", p, desc));
        return;
    }
    if !ok || g.nodes.iter().any(|n| n.state != crate::world::NState::Done) {
        g.viol(&["W08", "W19", "W15"], "hang", format!("a connect to a server that closed at once does not end [{}]", desc));
        return;
    }
    let mut all: Vec<u128> = vec![];
    for k in 0..2 {
        let mut mine = vec![];
        for (i, &o) in outs[k].iter().enumerate() {
            let b = g.dirs[o].sent.clone();
            let key = match parse_head(&b) {
                Ok(Some(h)) => h.headers.iter().filter(|x| x.0.eq_ignore_ascii_case("sec-websocket-key")).map(|x| x.1.clone()).collect::<Vec<_>>(),
                _ => vec![],
            };
            match key.first().and_then(|s| unb64(s)) {
                Some(v) if v.len() == 16 && key.len() == 1 => mine.push(u128::from_be_bytes(v.try_into().unwrap())),
                _ => {
                    g.viol(&["W19", "W20"], "key", format!("request {} carries keys {:?} [{}]", i, key, desc));
                    return;
                }
            }
        }
        let d: Vec<u128> = mine[1..].iter().map(|x| x ^ mine[0]).collect();
        let r = gf2_rank(&d);
        if r < 128 {
            g.viol(&["W19"], "weak-key", format!("{} handshake keys span only {} of 128 bits [{}]", mine.len(), r, desc));
            return;
        }
        let mut steps: Vec<u128> = mine.windows(2).map(|x| x[1].wrapping_sub(x[0])).collect();
        steps.sort_unstable();
        if steps.windows(2).any(|x| x[0] == x[1]) {
            g.viol(&["W19"], "predictable-key", format!("handshake keys follow each other by a fixed step [{}]", desc));
            return;
        }
        if let Some(how) = foreseeable(&mine, 128).or_else(|| foreseeable(&mine.iter().map(|k| k.swap_bytes()).collect::<Vec<_>>(), 128)) {
            g.viol(&["W19"], "predictable-key", format!("each handshake key follows from those before it {} [{}]", how, desc));
            return;
        }
        all.extend(mine);
    }
    g.probe("handshake_key_rank_checked");
    all.sort_unstable();
    if all.windows(2).any(|x| x[0] == x[1]) {
        g.viol(&["W19"], "repeated-key", format!("two connects carry the same key [{}]", desc));
    }
}

trait MapDrop: futures::Future + Sized {
    fn map_drop(self) -> futures::future::Then<Self, Result<(), ()>, fn(Result<Self::Item, Self::Error>) -> Result<(), ()>> {
        use futures::Future;
        self.then(|_| Ok(()))
    }
}
impl<F: futures::Future> MapDrop for F {}
