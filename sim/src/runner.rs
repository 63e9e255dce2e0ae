//! Runs, workers, minimisation, replay, evidence.
use crate::tape::{hash_str, mix, Tape};
use crate::world::{Inner, Violation, World, K, KNAMES, W};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type Scenario = fn(&W, &'static str);

pub struct Prop {
    pub id: &'static str,
    pub scenarios: &'static [(&'static str, Scenario, u32)],
}

pub struct Outcome {
    pub scenario: &'static str,
    pub seed: u64,
    pub tape: Vec<u32>,
    pub hash: u64,
    pub shape: u64,
    pub steps: u64,
    pub now: u64,
    pub stats: [u64; K::COUNT as usize],
    pub viols: Vec<Violation>,
    pub harness: Option<String>,
    pub desc: String,
    pub nontrivial: bool,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub nodes: Vec<String>,
}

pub fn seed_for(base: u64, id: &str, idx: u64) -> u64 {
    mix(mix(base ^ 0x5EED).wrapping_add(hash_str(id)) ^ mix(idx.wrapping_add(1)))
}

pub fn run_tape(p: &Prop, tape: Tape, seed: u64, trace: bool) -> Outcome {
    let mut tape = tape;
    let ws: Vec<u32> = p.scenarios.iter().map(|s| s.2).collect();
    let k = tape.weighted(&ws);
    let (scenario, f, _) = p.scenarios[k];
    let w = World::new(tape, trace, mix(seed ^ 0xE17));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&w, p.id)));
    w.finish();
    let mut g = w.lock();
    let mut harness = match r {
        Ok(()) => None,
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Some(format!("driver panicked: {}", s))
        }
    };
    for n in &g.nodes {
        if n.harness_panic {
            harness = Some(format!("node {}: {}", n.name, n.panic.clone().unwrap_or_default()));
        }
    }
    let g: &mut Inner = &mut g;
    let fp = g.viols.iter().fold(g.hash, |h, v| mix(h ^ hash_str(&v.class) ^ hash_str(&v.msg)));
    Outcome {
        scenario,
        seed,
        tape: std::mem::take(&mut g.tape.rec),
        hash: fp,
        shape: mix(g.shape ^ hash_str(scenario)),
        steps: g.steps,
        now: g.now,
        stats: g.stats,
        viols: std::mem::take(&mut g.viols),
        harness,
        desc: std::mem::take(&mut g.desc),
        nontrivial: g.nontrivial,
        probes: std::mem::take(&mut g.probes),
        trace: if trace { render(g) } else { vec![] },
        nodes: g.nodes.iter().map(|n| n.name.clone()).collect(),
    }
}

fn render(g: &Inner) -> Vec<String> {
    g.trace
        .iter()
        .map(|e| {
            let who = if e.node == 255 { "world".to_string() } else { g.nodes.get(e.node as usize).map(|n| n.name.clone()).unwrap_or_default() };
            if e.k == K::Note {
                format!("t={}us {}", e.t, g.notes[e.a as usize])
            } else {
                format!("t={}us {} {} a={} b={}", e.t, who, KNAMES[e.k as usize], e.a, e.b)
            }
        })
        .collect()
}

fn hit<'a>(o: &'a Outcome, id: &str) -> Option<&'a Violation> {
    o.viols.iter().find(|v| v.props.iter().any(|p| *p == id))
}

// ---------------------------------------------------------------- worker

pub struct Agg {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub stats: [u64; K::COUNT as usize],
    pub runs_with: [u64; K::COUNT as usize],
    pub scen: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub other: BTreeMap<String, u64>,
}

/// worker ID BASE START STRIDE COUNT SECONDS DIR N
pub fn worker(p: &Prop, a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, start, stride, count, secs) = (n(0), n(1), n(2), n(3), n(4));
    let dir = &a[5];
    let me = &a[6];
    let t0 = Instant::now();
    let status = fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/status{}", dir, me)).unwrap();
    use std::os::unix::fs::FileExt;
    let mut agg = Agg { runs: 0, nontrivial: 0, steps: 0, sim_us: 0, stats: [0; K::COUNT as usize], runs_with: [0; K::COUNT as usize], scen: BTreeMap::new(), probes: BTreeMap::new(), other: BTreeMap::new() };
    let mut shapes: Vec<u64> = vec![];
    let mut hashes: Vec<(u64, u64)> = vec![];
    let mut viols = vec![];
    let mut harness = vec![];
    let mut samples = vec![];
    let mut idx = start;
    let mut done = 0;
    while done < count && t0.elapsed().as_secs() < secs {
        let _ = status.write_all_at(&idx.to_le_bytes(), 0);
        let seed = seed_for(base, p.id, idx);
        let o = run_tape(p, Tape::random(seed), seed, false);
        agg.runs += 1;
        agg.steps += o.steps;
        agg.sim_us += o.now;
        if o.nontrivial {
            agg.nontrivial += 1;
            shapes.push(o.shape);
        }
        for i in 0..K::COUNT as usize {
            agg.stats[i] += o.stats[i];
            agg.runs_with[i] += (o.stats[i] > 0) as u64;
        }
        *agg.scen.entry(o.scenario.to_string()).or_insert(0) += 1;
        for (k, v) in &o.probes {
            let e = agg.probes.entry(k.to_string()).or_insert(0);
            if k.starts_with("peak") || k.ends_with("_max") {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        if done < 3 || hashes.len() < 40 {
            hashes.push((idx, o.hash));
        }
        if samples.len() < 2 && o.nontrivial {
            samples.push(json!({"run": idx, "seed": seed, "what": o.desc.clone(), "steps": o.steps, "simulated_us": o.now}));
        }
        if let Some(h) = &o.harness {
            harness.push(json!({"idx": idx, "what": h, "desc": o.desc.clone()}));
            if harness.len() > 3 {
                break;
            }
        } else if let Some(v) = hit(&o, p.id) {
            viols.push(json!({"idx": idx, "seed": seed, "class": v.class, "msg": v.msg, "tape_len": o.tape.len(), "scenario": o.scenario}));
            if viols.len() >= 3 {
                break;
            }
        } else if let Some(v) = o.viols.first() {
            *agg.other.entry(format!("{:?}/{}", v.props, v.class)).or_insert(0) += 1;
        }
        idx += stride;
        done += 1;
    }
    shapes.sort_unstable();
    shapes.dedup();
    let mut sb = Vec::with_capacity(shapes.len() * 8);
    for s in &shapes {
        sb.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(format!("{}/shapes{}", dir, me), sb).unwrap();
    let out = json!({
        "runs": agg.runs, "nontrivial": agg.nontrivial, "steps": agg.steps, "sim_us": agg.sim_us,
        "stats": agg.stats.to_vec(), "runs_with": agg.runs_with.to_vec(), "scen": agg.scen, "probes": agg.probes, "other": agg.other,
        "hashes": hashes, "viols": viols, "harness": harness, "samples": samples, "next": idx,
    });
    fs::write(format!("{}/out{}.tmp", dir, me), out.to_string()).unwrap();
    fs::rename(format!("{}/out{}.tmp", dir, me), format!("{}/out{}", dir, me)).unwrap();
    0
}

// ---------------------------------------------------------------- minimisation and replay

/// Shrinks a failing tape while the same class of violation of the same property persists.
pub fn minimise(p: &Prop, seed: u64, tape: Vec<u32>, class: &str, budget: Duration) -> Vec<u32> {
    let t0 = Instant::now();
    let fails = |t: &Vec<u32>| -> Option<Vec<u32>> {
        let o = run_tape(p, Tape::replay(t.clone()), seed, false);
        if o.harness.is_some() {
            return None;
        }
        let ok = o.viols.iter().any(|v| v.class == class && v.props.iter().any(|q| *q == p.id));
        if ok {
            let mut r = o.tape;
            while r.last() == Some(&0) {
                r.pop();
            }
            Some(r)
        } else {
            None
        }
    };
    let better = |a: &Vec<u32>, b: &Vec<u32>| (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>());
    let mut cur = match fails(&tape) {
        Some(t) => t,
        None => return tape,
    };
    loop {
        let before = cur.clone();
        // delete blocks
        let mut len = (cur.len() / 2).max(1);
        while len >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < budget {
                let mut c = cur.clone();
                c.drain(i..(i + len).min(c.len()));
                match fails(&c) {
                    Some(t) if better(&t, &cur) => cur = t,
                    _ => i += len,
                }
            }
            if len == 1 {
                break;
            }
            len /= 2;
        }
        // zero blocks, then lower single values
        let mut len = (cur.len() / 2).max(1);
        while t0.elapsed() < budget {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < budget {
                let e = (i + len).min(cur.len());
                if cur[i..e].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    if let Some(t) = fails(&c) {
                        if better(&t, &cur) {
                            cur = t;
                        }
                    }
                }
                i += len;
            }
            if len == 1 {
                break;
            }
            len /= 2;
        }
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let mut lo = 0;
            let mut hi = cur[i];
            while lo < hi && t0.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                match fails(&c) {
                    Some(t) if better(&t, &cur) => {
                        let same = t.len() == c.len();
                        cur = t;
                        hi = mid;
                        if !same {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if cur == before || t0.elapsed() >= budget {
            return cur;
        }
    }
}

/// min ID BASE IDX OUT
pub fn min_cmd(p: &Prop, a: &[String]) -> i32 {
    let base: u64 = a[0].parse().unwrap();
    let idx: u64 = a[1].parse().unwrap();
    let secs: u64 = std::env::var("WSIM_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    let seed = seed_for(base, p.id, idx);
    let o = run_tape(p, Tape::random(seed), seed, false);
    let v = match hit(&o, p.id) {
        Some(v) => v.clone(),
        None => return 3,
    };
    let t = minimise(p, seed, o.tape.clone(), &v.class, Duration::from_secs(secs));
    write_replay(p, seed, idx, t, &v.class, o.tape.len(), &a[2]);
    0
}

fn write_replay(p: &Prop, seed: u64, idx: u64, tape: Vec<u32>, class: &str, orig: usize, out: &str) {
    let o = run_tape(p, Tape::replay(tape.clone()), seed, true);
    let v = o.viols.iter().find(|v| v.class == class && v.props.iter().any(|q| *q == p.id));
    let tr: Vec<String> = if o.trace.len() > 600 { o.trace[..300].iter().cloned().chain(std::iter::once("...".to_string())).chain(o.trace[o.trace.len() - 300..].iter().cloned()).collect() } else { o.trace.clone() };
    let j = json!({
        "property": p.id, "kind": "run", "scenario": o.scenario, "seed": seed.to_string(), "run": idx, "class": class,
        "message": v.map(|v| v.msg.clone()), "what": o.desc, "original_tape_len": orig, "tape": tape, "hash": o.hash.to_string(), "trace": tr,
    });
    fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

pub fn replay_cmd(find: &dyn Fn(&str) -> Option<&'static Prop>, file: &str) -> i32 {
    let j: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let p = find(j["property"].as_str().unwrap_or("")).expect("property");
    let seed: u64 = j["seed"].as_str().unwrap().parse().unwrap();
    let tape: Vec<u32> = j["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default();
    let random = j["kind"] == "process";
    let o = run_tape(p, if random { Tape::random(seed) } else { Tape::replay(tape) }, seed, true);
    for l in &o.trace {
        println!("{}", l);
    }
    println!("scenario {}: {}", o.scenario, o.desc);
    for v in &o.viols {
        println!("violated {:?} class={} {}", v.props, v.class, v.msg);
    }
    let class = j["class"].as_str().unwrap_or("");
    let same = o.hash.to_string() == j["hash"].as_str().unwrap_or("");
    match o.viols.iter().find(|v| v.class == class && v.props.iter().any(|q| *q == p.id)) {
        Some(_) => {
            println!("REPRODUCED property={} class={} identical_trace={}", p.id, class, same);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// one ID BASE IDX: run one index and print its trace hash
pub fn one_cmd(p: &Prop, a: &[String]) -> i32 {
    let base: u64 = a[0].parse().unwrap();
    let verbose = std::env::var("WSIM_TRACE").is_ok();
    for idx in &a[1..] {
        let idx: u64 = idx.parse().unwrap();
        let seed = seed_for(base, p.id, idx);
        let o = run_tape(p, Tape::random(seed), seed, verbose);
        if verbose {
            for l in &o.trace {
                println!("{}", l);
            }
            println!("{}", o.desc);
            for v in &o.viols {
                println!("violated {:?} class={} {}", v.props, v.class, v.msg);
            }
            println!("harness: {:?} steps {}", o.harness, o.steps);
        }
        println!("HASH {} {}", idx, o.hash);
    }
    0
}

// ---------------------------------------------------------------- the check

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

pub fn check(p: &'static Prop, root: &str, known: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let secs = env("WSIM_SECS").unwrap_or(if tier == "thorough" { 420 } else if matches!(p.id, "W01" | "W17" | "W19" | "W21" | "W22") { 80 } else { 60 });
    let workers = env("WSIM_WORKERS").unwrap_or(8);
    let runs = env("WSIM_RUNS").unwrap_or(if tier == "thorough" { u64::MAX / 2 } else { 500_000 });
    println!("seed={} property={} tier={}", base, p.id, tier);
    let dir = format!("{}/target/run-{}-{}", root, p.id, std::process::id());
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let _ = fs::create_dir_all(format!("{}/replays", root));
    let mut kids: Vec<(u64, Option<Child>)> = (0..workers)
        .map(|i| {
            let c = Command::new(exe())
                .args(["worker", p.id, &base.to_string(), &i.to_string(), &workers.to_string(), &(runs / workers + 1).to_string(), &secs.to_string(), &dir, &i.to_string()])
                .stdout(Stdio::null())
                .stderr(fs::File::create(format!("{}/err{}", dir, i)).unwrap())
                .spawn()
                .expect("spawn worker");
            (i, Some(c))
        })
        .collect();
    // watch: a worker that stays on the same run too long hangs; one that dies crashed
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); workers as usize];
    let mut suspects: Vec<(u64, &'static str)> = vec![];
    loop {
        let mut alive = false;
        for (i, k) in kids.iter_mut() {
            let iu = *i as usize;
            let idx = fs::read(format!("{}/status{}", dir, i)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(u64::MAX);
            if let Some(c) = k {
                match c.try_wait() {
                    Ok(Some(st)) => {
                        if !st.success() {
                            suspects.push((idx, "crash"));
                        }
                        *k = None;
                    }
                    _ => {
                        alive = true;
                        if last[iu].0 != idx {
                            last[iu] = (idx, Instant::now());
                        } else if last[iu].1.elapsed() > Duration::from_secs(60) {
                            let _ = c.kill();
                            let _ = c.wait();
                            suspects.push((idx, "hang"));
                            *k = None;
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    let explore_s = t0.elapsed().as_secs_f64();
    // ---------------------------------------------------------------- collect
    let mut runs = 0;
    let mut nontrivial = 0;
    let mut steps = 0;
    let mut sim_us = 0u64;
    let mut stats = vec![0u64; K::COUNT as usize];
    let mut runs_with = vec![0u64; K::COUNT as usize];
    let mut scen: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: Vec<Value> = vec![];
    let mut harness: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut hashes: Vec<(u64, u64)> = vec![];
    let mut shapes: HashSet<u64> = HashSet::new();
    for i in 0..workers {
        if let Ok(b) = fs::read(format!("{}/shapes{}", dir, i)) {
            for c in b.chunks(8) {
                shapes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let Ok(s) = fs::read_to_string(format!("{}/out{}", dir, i)) else { continue };
        let j: Value = serde_json::from_str(&s).unwrap();
        runs += j["runs"].as_u64().unwrap();
        nontrivial += j["nontrivial"].as_u64().unwrap();
        steps += j["steps"].as_u64().unwrap();
        sim_us += j["sim_us"].as_u64().unwrap();
        for k in 0..K::COUNT as usize {
            stats[k] += j["stats"][k].as_u64().unwrap();
            runs_with[k] += j["runs_with"][k].as_u64().unwrap();
        }
        let add = |m: &mut BTreeMap<String, u64>, v: &Value| {
            for (k, v) in v.as_object().unwrap() {
                let e = m.entry(k.clone()).or_insert(0);
                let v = v.as_u64().unwrap();
                if k.starts_with("peak") || k.ends_with("_max") { *e = (*e).max(v) } else { *e += v }
            }
        };
        add(&mut scen, &j["scen"]);
        add(&mut probes, &j["probes"]);
        add(&mut other, &j["other"]);
        viols.extend(j["viols"].as_array().unwrap().iter().cloned());
        harness.extend(j["harness"].as_array().unwrap().iter().cloned());
        samples.extend(j["samples"].as_array().unwrap().iter().cloned());
        for h in j["hashes"].as_array().unwrap() {
            hashes.push((h[0].as_u64().unwrap(), h[1].as_u64().unwrap()));
        }
    }
    let mut errors: Vec<String> = harness.iter().map(|h| format!("harness error in run {}: {}", h["idx"], h["what"])).collect();
    // ---------------------------------------------------------------- crashes and hangs of a whole process
    for (idx, kind) in suspects {
        if idx == u64::MAX {
            errors.push(format!("a worker died before its first run ({})", kind));
            continue;
        }
        let mut c = Command::new(exe()).args(["one", p.id, &base.to_string(), &idx.to_string()]).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap();
        let st = wait_timeout(&mut c, Duration::from_secs(60));
        let confirmed = match st {
            None => true,
            Some(s) => !s.success(),
        };
        if confirmed {
            let class = if st.is_none() { "process-hang" } else { "process-crash" };
            viols.push(json!({"idx": idx, "seed": seed_for(base, p.id, idx), "class": class, "msg": format!("the whole process {} in this run", if st.is_none() { "hangs" } else { "crashes" }), "process": true}));
        } else {
            errors.push(format!("run {} {}ed a worker once but not when repeated", idx, kind));
        }
    }
    viols.sort_by_key(|v| v["idx"].as_u64().unwrap());
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    viols.retain(|v| {
        let key = format!("{} {}", v["class"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
        for (pid, pat) in known {
            if pid == p.id && key.contains(pat) {
                *known_hit.entry(pat.clone()).or_insert(0) += 1;
                return false;
            }
        }
        true
    });
    for (k, n) in &known_hit {
        println!("KNOWN-FINDING: property={} {} ({} runs)", p.id, k, n);
    }
    // ---------------------------------------------------------------- determinism sample: fresh process, other worker layout
    hashes.sort_unstable();
    let sample: Vec<(u64, u64)> = {
        let st = (hashes.len() / 40).max(1);
        hashes.iter().step_by(st).take(40).copied().collect()
    };
    let mut det_ok = 0;
    let mut det_bad = vec![];
    if viols.is_empty() && errors.is_empty() {
        for ch in sample.chunks(20) {
            let mut args = vec!["one".to_string(), p.id.to_string(), base.to_string()];
            args.extend(ch.iter().map(|(i, _)| i.to_string()));
            if let Ok(o) = Command::new(exe()).args(&args).output() {
                let txt = String::from_utf8_lossy(&o.stdout).to_string();
                for (i, h) in ch {
                    if txt.lines().any(|l| l == format!("HASH {} {}", i, h)) {
                        det_ok += 1
                    } else {
                        det_bad.push(*i)
                    }
                }
            }
        }
    }
    // ---------------------------------------------------------------- report
    let mut code = 0;
    let mut nviol = 0;
    if let Some(v) = viols.first() {
        let idx = v["idx"].as_u64().unwrap();
        let class = v["class"].as_str().unwrap().to_string();
        let path = format!("{}/replays/{}-{}-{}.json", root, p.id, base, idx);
        let seed = seed_for(base, p.id, idx);
        nviol = viols.len();
        let mut ok = false;
        if v["process"].as_bool() != Some(true) {
            let mut c = Command::new(exe()).args(["min", p.id, &base.to_string(), &idx.to_string(), &path]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            ok = wait_timeout(&mut c, Duration::from_secs(150)).map_or(false, |s| s.success());
            if !ok {
                // minimisation itself ran into a hang or crash: the unminimised run is the replay
                let o = run_tape(p, Tape::random(seed), seed, false);
                if hit(&o, p.id).is_some() {
                    write_replay(p, seed, idx, o.tape.clone(), &class, o.tape.len(), &path);
                    ok = true;
                }
            }
            let r = Command::new(exe()).args(["replay", &path]).output();
            let txt = r.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
            if !txt.contains("REPRODUCED") {
                errors.push(format!("run {} ({}) does not replay", idx, class));
                ok = false;
            }
        } else {
            let j = json!({"property": p.id, "kind": "process", "seed": seed.to_string(), "run": idx, "class": class, "tape": [], "message": v["msg"]});
            fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            ok = true || ok;
        }
        if ok {
            println!("violation class={} run={} seed={}: {}", class, idx, seed, v["msg"].as_str().unwrap_or(""));
            if let Ok(j) = fs::read_to_string(&path).map(|s| serde_json::from_str::<Value>(&s).unwrap()) {
                println!("minimised to {} choices: {}", j["tape"].as_array().map_or(0, |a| a.len()), j["message"].as_str().unwrap_or(""));
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            code = 1;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut faults = Map::new();
    for (i, n) in KNAMES.iter().enumerate() {
        if stats[i] > 0 && !matches!(i, x if x == K::Run as usize || x == K::Note as usize) {
            faults.insert(n.to_string(), json!({"times": stats[i], "runs": runs_with[i]}));
        }
    }
    samples.truncate(6);
    let ev = json!({
        "property": p.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": shapes.len(),
            "rule": p.scenarios.iter().map(|s| crate::scenario_rule(s.0)).collect::<Vec<_>>().join("; "),
            "samples": samples,
            "simulated_runs": runs, "seeds_per_hour": (runs as f64 / explore_s * 3600.0) as u64,
            "nontrivial_runs": nontrivial,
            "simulated_seconds": sim_us as f64 / 1e6, "scheduler_steps": steps,
            "events_and_faults": faults,
            "scenarios": scen, "probes": probes,
            "distinct_interleavings": shapes.len(),
            "interleaving_measure": "hash of the ordered sequence (node, kind of I/O event or fault), without times and sizes, per non-trivial run",
            "determinism_reruns_identical": det_ok, "determinism_reruns_different": det_bad.len(),
            "real_components": "all of websocket and websocket-base, hyper 0.10 parsing and headers, tokio-codec, tokio-io, futures 0.1 (and, in the scenarios over simulated sockets, tokio-tcp, tokio-reactor, mio and std::net)",
            "stubbed_components": "transport (simulated byte pipes; in the scenarios over simulated sockets the socket, epoll and clock system calls), operating-system entropy (rand_os), thread scheduling, task executor, clock",
            "known_findings_seen": known_hit,
            "violations_of_other_properties_seen": other,
        },
        "assumptions": ["exploration is sampling: a clean batch is evidence, not proof"],
        "wall_s": wall, "violations": nviol,
    });
    let _ = fs::create_dir_all(format!("{}/evidence", root));
    fs::write(format!("{}/evidence/{}.json", root, p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs ({} distinct interleavings) in {:.1}s; {} steps; {:.1} simulated s; determinism {}/{}; {} violations",
        runs, shapes.len(), wall, steps, sim_us as f64 / 1e6, det_ok, det_ok + det_bad.len(), nviol
    );
    if !det_bad.is_empty() {
        println!("WARNING runs that differ when repeated: {:?}", det_bad);
    }
    if std::env::var("WSIM_KEEP").is_err() {
        let _ = fs::remove_dir_all(&dir);
    }
    if code == 0 && !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e);
        }
        let _ = std::io::stdout().flush();
        return 2;
    }
    if !other.is_empty() {
        println!("also seen (reported by their own checks): {:?}", other);
    }
    let _ = std::io::stdout().flush();
    code
}
