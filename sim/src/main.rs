//! Deterministic simulation of rust-websocket with fault injection.
#![feature(alloc_error_hook)]
#![allow(clippy::all)]
mod alloc;
mod ep;
mod exec;
mod gen;
mod http_gen;
mod kernel;
mod refws;
mod runner;
mod s_client;
mod s_duplex;
mod s_frames;
mod s_halves;
mod s_keys;
mod s_handover;
mod s_http;
mod s_relay;
mod s_send;
mod s_serve;
mod s_server;
mod tape;
mod tls;
mod world;

use runner::Prop;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const FRAMES: (&str, runner::Scenario, u32) = ("frames", s_frames::frames, 10);
const DUPLEX: (&str, runner::Scenario, u32) = ("duplex", s_duplex::duplex, 10);
const SEND: (&str, runner::Scenario, u32) = ("send", s_send::send, 10);
const KEYS: (&str, runner::Scenario, u32) = ("keys", s_keys::keys, 1);
const SERVER: (&str, runner::Scenario, u32) = ("server_hs", s_server::server_hs, 10);
const CLIENT: (&str, runner::Scenario, u32) = ("client_hs", s_client::client_hs, 10);
const HALVES: (&str, runner::Scenario, u32) = ("halves", s_halves::halves, 10);
const SERVE: (&str, runner::Scenario, u32) = ("serve", s_serve::serve, 10);

const HANDOVER: (&str, runner::Scenario, u32) = ("handover", s_handover::handover, 10);
const HTTP: (&str, runner::Scenario, u32) = ("http", s_http::http, 10);
const RELAY: (&str, runner::Scenario, u32) = ("relay", s_relay::relay, 10);

const fn wt(s: (&'static str, runner::Scenario, u32), w: u32) -> (&'static str, runner::Scenario, u32) {
    (s.0, s.1, w)
}

/// How each scenario makes its runs, and which of them count as non-trivial.
pub fn scenario_rule(name: &str) -> &'static str {
    match name {
        "frames" => "frames: one endpoint (either role, every receive API, handshaken or direct) reads a generated frame stream with fragmentation, control frames, violations, hostile bytes, limits and cuts, under random segmentation, delays, interruptions, timeouts and polls; non-trivial: more than one frame, a violation or a cut",
        "duplex" => "duplex: a real client and a real server of this library (sync whole, sync split over threads, async) exchange random messages both ways over a random transport with back-pressure, short reads and writes, interruptions, resets and cuts; non-trivial: more than one message",
        "send" => "send: one endpoint sends random legal and illegal messages and dataframes through every send API into a transport with short, interrupted, blocked and failing writes; the bytes written are compared with a strict decoder; non-trivial: more than one item",
        "keys" => "keys: key and masking key bytes of many connections made with different entropy seeds are compared for repeats; non-trivial: all",
        "server_hs" => "server_hs: every upgrade path reads a generated (valid, mutated, truncated) request with pipelined data and then accepts, rejects or drops over a random, possibly failing transport; non-trivial: all",
        "client_hs" => "client_hs: builders with random histories of configure, clone, connect and fail run, over a given stream or by connecting through simulated system calls (direct and boxed, plain and TLS, sync and async; TLS servers with good, expired, forged, rogue or foreign certificates, junk, silence, damaged or cut records), against generated (valid, mutated, stale, truncated) replies with pipelined data over a random, possibly failing transport; non-trivial: all",
        "serve" => "serve: the real sync or async Server, plain or TLS, over simulated system calls serves a random crowd of valid, invalid, partial, silent, clogged and resetting connections, with accept failures; non-trivial: more than one connection",
        "halves" => "halves: connections over simulated TCP sockets are split over threads, read and written concurrently, and shut down in random order against a raw peer; non-trivial: all",
        "handover" => "handover: one connection, received from and sent to, keeps changing its form in between (client taken apart and rebuilt, read and written past the client, split, message and data frame codecs with unsent and unread bytes in their buffers, sync to async and back), against a raw peer over random segmentation, interruptions, pipelining and cuts; non-trivial: a message and a change",
        "http" => "http: a client and a server speak HTTP through the library's HTTP codecs alone (both of them, or one against a raw peer): several requests and replies, pipelined or one at a time, malformed ones, and perhaps a switch to WebSocket messages by exchanging the codec, over random segmentation, back-pressure, polls and cuts; non-trivial: more than one request, or a switch",
        "relay" => "relay: one to three hops, each a server of the library on one side and a client on the other (sync over threads, async; over streams or simulated TCP), forward a generated request and its reply, and generated messages both ways, in randomly chosen representations (owned, borrowed, data frames, gathered fragments, payloads, serialized memory), to a raw far end or an echo server, over random, possibly cut links; non-trivial: any message",
        _ => "",
    }
}

static PROPS: &[Prop] = &[
    Prop { id: "W01", scenarios: &[wt(DUPLEX, 24), wt(SEND, 2), wt(RELAY, 4), wt(HALVES, 3), wt(HANDOVER, 2), wt(CLIENT, 2), wt(SERVER, 2), wt(SERVE, 1)] },
    Prop { id: "W02", scenarios: &[wt(FRAMES, 20), wt(HANDOVER, 3), wt(SERVER, 2), wt(CLIENT, 2), wt(DUPLEX, 1)] },
    Prop { id: "W03", scenarios: &[FRAMES, wt(DUPLEX, 3), wt(HALVES, 1)] },
    Prop { id: "W04", scenarios: &[FRAMES, wt(DUPLEX, 2)] },
    Prop { id: "W05", scenarios: &[wt(FRAMES, 20), wt(SERVER, 1), wt(CLIENT, 1)] },
    Prop { id: "W06", scenarios: &[SEND, FRAMES, DUPLEX, wt(HALVES, 3), wt(CLIENT, 2), wt(HANDOVER, 1)] },
    Prop { id: "W07", scenarios: &[wt(FRAMES, 14), wt(DUPLEX, 3), wt(SERVER, 5), wt(CLIENT, 8), wt(HALVES, 1)] },
    Prop { id: "W08", scenarios: &[wt(CLIENT, 24), wt(DUPLEX, 1), wt(RELAY, 1)] },
    Prop { id: "W09", scenarios: &[wt(SERVER, 24), wt(SERVE, 2), wt(DUPLEX, 1), wt(RELAY, 1)] },
    Prop { id: "W10", scenarios: &[SERVER, CLIENT, wt(FRAMES, 2), wt(HANDOVER, 2), wt(HALVES, 2), wt(SERVE, 1)] },
    Prop { id: "W11", scenarios: &[SERVER, CLIENT, wt(RELAY, 4)] },
    Prop { id: "W12", scenarios: &[SEND, DUPLEX, wt(SERVER, 4), wt(CLIENT, 4), wt(HALVES, 3), wt(HANDOVER, 3)] },
    Prop { id: "W13", scenarios: &[FRAMES, wt(DUPLEX, 5), wt(SERVER, 2), wt(CLIENT, 2), wt(RELAY, 1), wt(HANDOVER, 1), wt(HALVES, 1)] },
    Prop { id: "W14", scenarios: &[FRAMES, wt(SERVER, 6), wt(CLIENT, 6), wt(DUPLEX, 2), wt(SERVE, 2), wt(HANDOVER, 1), wt(HTTP, 1)] },
    Prop { id: "W15", scenarios: &[FRAMES, wt(DUPLEX, 8), wt(SERVER, 5), wt(CLIENT, 5), wt(SEND, 3), wt(SERVE, 3), wt(HALVES, 3), wt(RELAY, 2), wt(HANDOVER, 1), wt(HTTP, 2)] },
    Prop { id: "W16", scenarios: &[HALVES, DUPLEX, wt(CLIENT, 1), wt(SERVER, 1), wt(FRAMES, 1)] },
    Prop { id: "W17", scenarios: &[SERVE] },
    Prop { id: "W18", scenarios: &[SERVER] },
    Prop { id: "W19", scenarios: &[wt(CLIENT, 400), KEYS] },
    Prop { id: "W20", scenarios: &[SEND, DUPLEX, SERVER, CLIENT, wt(HALVES, 2), wt(RELAY, 2), wt(HANDOVER, 1), wt(HTTP, 2)] },
    Prop { id: "W21", scenarios: &[CLIENT, SERVE] },
    Prop { id: "W22", scenarios: &[RELAY] },
    Prop { id: "W23", scenarios: &[HANDOVER, wt(HTTP, 1)] },
    Prop { id: "W24", scenarios: &[HTTP] },
];

fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// Findings listed in /verif/known_findings.txt: lines `finding: property=<id> match=<text>`.
fn known(root: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(format!("{}/known_findings.txt", root))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (id, rest) = r.split_once(' ')?;
            Some((id.to_string(), rest.trim().strip_prefix("match=")?.to_string()))
        })
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    alloc::install_hook();
    world::install_panic_hook();
    rand_os::set_thread_seed(1);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string());
    tls::install(&root);
    let prop = || find(a.get(1).map(|s| s.as_str()).unwrap_or("")).unwrap_or_else(|| {
        eprintln!("unknown property");
        std::process::exit(2)
    });
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => runner::check(prop(), &root, &known(&root)),
        Some("worker") => runner::worker(prop(), &a[2..]),
        Some("min") => runner::min_cmd(prop(), &a[2..]),
        Some("one") => runner::one_cmd(prop(), &a[2..]),
        Some("replay") => runner::replay_cmd(&find, &a[1]),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: wsim check ID | replay FILE | one ID SEED IDX.. | list");
            2
        }
    };
    std::process::exit(code);
}
