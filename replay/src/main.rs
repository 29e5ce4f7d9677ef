//! Runs scenarios against the real crate and holds it against the model: the bounded stand-in and the
//! search for a failing input of the contract checks.
mod fresh;
mod gen;
mod model;
mod refer;
mod wiped;
mod world;
mod x25519;

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::*;

#[global_allocator]
static WATCH: wiped::Watch = wiped::Watch;

fn once(s: &Setup, ops: &[Op]) -> (Check, u32) {
    match catch_unwind(AssertUnwindSafe(|| {
        let mut w = match World::new(s.clone()) {
            Ok(w) => w,
            Err(v) => return (Err(v), 0),
        };
        let mut r = w.run(ops);
        if let Err(v) = &mut r {
            // would it have gone well without the messages that were refused before?
            let skip: Vec<(usize, bool)> = w.refused_ops.iter().copied().filter(|(i, _)| *i < v.step).collect();
            if !skip.is_empty() && !v.props.contains(&"HARNESS") {
                let mut w2 = match World::new(s.clone()) {
                    Ok(w) => w,
                    Err(v) => return (Err(v), 0),
                };
                w2.skip = skip.iter().map(|x| x.0).collect();
                if w2.run(&ops[..ops.len().min(v.step + 1)]).is_ok() {
                    if skip.iter().any(|x| x.1) {
                        v.props.push("C09");
                    }
                    if skip.iter().any(|x| !x.1) {
                        v.props.push("C15");
                    }
                    v.what += " (not so without the messages refused before)";
                }
            }
        }
        (r, w.reached)
    })) {
        Ok(x) => x,
        Err(_) => (Err(Violation { props: vec!["HARNESS"], kind: "harness".into(), what: "the harness itself panicked".into(), step: 0 }), 0),
    }
}
fn shrink(s: &Setup, ops: &[Op], prop: &str, kind: &str, until: Instant) -> (Vec<Op>, Violation) {
    let hit = |o: &[Op]| -> Option<Violation> {
        match once(s, o).0 {
            Err(v) if v.props.contains(&prop) && v.kind == kind => Some(v),
            _ => None,
        }
    };
    let mut cur = ops.to_vec();
    let mut best = match hit(&cur) {
        Some(v) => v,
        None => return (cur, Violation { props: vec![], kind: "unstable".into(), what: String::new(), step: 0 }),
    };
    if best.step + 1 < cur.len() {
        let c = cur[..best.step + 1].to_vec();
        if let Some(v) = hit(&c) {
            cur = c;
            best = v;
        }
    }
    let mut i = 0;
    while i < cur.len() && Instant::now() < until {
        let mut c = cur.clone();
        c.remove(i);
        match hit(&c) {
            Some(v) => {
                cur = c;
                best = v;
            }
            None => i += 1,
        }
    }
    (cur, best)
}
/// C20: are two different user messages of one session encrypted under the same key and nonce?
fn nonce_reuse() -> Option<serde_json::Value> {
    let s = Setup { mode: Mode::Minimal, expect: 0, level: 3, min_size: 100, fmt: 4, peer_level: 3, peer_fmt: 4, seed: 7 };
    let mut w = World::new(s).ok()?;
    let (m, y) = (W::Mem, Mutn::None);
    let ops = vec![
        Op::Connect(Pay::Absent, m),
        Op::Feed(Msg::C { signer: 0, announce: 0, epk: Epk::Peer, p: Pay::Absent, m: y, sealed: false }),
        Op::Ack(Pay::Absent, m),
        Op::Feed(Msg::A { signer: 0, ch: Chal::Right, p: Pay::Absent, m: y, sealed: false }),
        Op::Write(Pay::Len(5, 1), m),
        Op::Write(Pay::Len(5, 2), m),
    ];
    w.run(&ops).ok()?;
    let k = w.model().key.clone()?;
    let own = w.own_messages();
    let n = own.len();
    let (a, b) = (own.get(n.checked_sub(2)?)?, own.get(n - 1)?);
    let (x, y) = (refer::unseal(&k, a)?, refer::unseal(&k, b)?);
    if x == y {
        return None;
    }
    // the same key stream: the two ciphertexts differ exactly where the plaintexts do
    let same = x.len() == y.len() && (0..x.len()).all(|i| a[i] ^ b[i] == x[i] ^ y[i]);
    if !same {
        return None;
    }
    Some(serde_json::json!({"kind": "one-nonce-per-session",
        "what": "the first two user messages written in a session both decrypt under the one nonce of the session; the exclusive or of the ciphertexts equals that of the plaintexts",
        "first": hex(a), "second": hex(b), "plain_first": hex(&x), "plain_second": hex(&y)}))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop: String = get("--property").unwrap_or_else(|| "ALL".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10);
    let out = get("--out");
    let verbose = a.iter().any(|x| x == "--verbose");
    let mut lits: Vec<u64> = vec![];
    let mut novel: Vec<u64> = vec![];
    if let Some(h) = get("--hints") {
        if let Ok(t) = std::fs::read_to_string(h) {
            if let Ok(j) = serde_json::from_str::<serde_json::Value>(&t) {
                if let Some(v) = j["literals"].as_array() {
                    lits = v.iter().filter_map(|x| x.as_u64()).collect();
                }
                if let Some(v) = j["novel"].as_array() {
                    novel = v.iter().filter_map(|x| x.as_u64()).collect();
                }
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    *wiped::REPORT.lock().unwrap() = (prop.clone(), out.clone());

    let t0 = Instant::now();
    if prop == "C20" {
        let v = nonce_reuse();
        let viol: Vec<_> = v.into_iter().collect();
        if let (Some(o), Some(v)) = (&out, viol.first()) {
            let _ = std::fs::write(o, serde_json::to_string_pretty(&serde_json::json!({"property": "C20", "violation": v})).unwrap());
        }
        let st = serde_json::json!({"runs": 1, "operations": 6, "distinct": 1, "rule": "one complete negotiation with the reference peer, then two different user messages",
            "samples": ["negotiation, write 5 bytes, write 5 other bytes, decrypt both with the session nonce"], "secs": t0.elapsed().as_secs_f64(), "violations": viol});
        println!("{}", st);
        return;
    }
    if prop == "C21" {
        let (viol, runs, layers) = wiped::search(seed, secs);
        if let (Some(o), false) = (&out, viol.is_empty()) {
            let _ = std::fs::write(o, serde_json::to_string_pretty(&serde_json::json!({"property": "C21", "seed": seed, "violations": viol})).unwrap());
        }
        println!("{}", serde_json::json!({"runs": runs, "operations": layers, "distinct": layers, "rule": "layers holding a session key that the reference peer knows, dropped and looked for it",
            "samples": [], "secs": t0.elapsed().as_secs_f64(), "violations": viol}));
        return;
    }
    if prop == "C22" {
        let (viol, n) = fresh::search(seed);
        if let (Some(o), false) = (&out, viol.is_empty()) {
            let _ = std::fs::write(o, serde_json::to_string_pretty(&serde_json::json!({"property": "C22", "seed": seed, "how": "replay/src/fresh.rs: layers and seeds created through the public operations", "violations": viol})).unwrap());
        }
        println!("{}", serde_json::json!({"runs": n, "operations": n, "distinct": n, "rule": "seeds and layers created, their keys compared", "samples": [], "secs": t0.elapsed().as_secs_f64(), "violations": viol}));
        return;
    }
    let deadline = t0 + Duration::from_secs(secs);
    let stop = AtomicBool::new(false);
    let runs = AtomicU64::new(0);
    let nops = AtomicU64::new(0);
    let dist: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let found: Mutex<Vec<(Setup, Vec<Op>, Violation)>> = Mutex::new(vec![]);
    let other: Mutex<Vec<String>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let mut long = gen::Gen::new(seed, &prop, &lits, &novel).long();
    if secs < 5 {
        long.clear();
    }
    let long = Mutex::new(long);
    std::thread::scope(|sc| {
        for t in 0..8u64 {
            let (stop, runs, nops, dist, found, other, samples, harness, prop, lits, novel) = (&stop, &runs, &nops, &dist, &found, &other, &samples, &harness, &prop, &lits, &novel);
            let long = &long;
            sc.spawn(move || {
                let mut g = gen::Gen::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (t + 1), prop, lits, novel);
                while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                    let next = long.lock().unwrap().pop();
                    let (s, ops) = next.unwrap_or_else(|| g.scenario());
                    wiped::running(&s, &ops);
                    let (r, reached) = once(&s, &ops);
                    runs.fetch_add(1, Ordering::Relaxed);
                    nops.fetch_add(ops.len() as u64, Ordering::Relaxed);
                    if reached & 3 == 3 {
                        let mut h = DefaultHasher::new();
                        format!("{:?}{:?}", s, ops).hash(&mut h);
                        let mut d = dist.lock().unwrap();
                        if d.len() < 2_000_000 {
                            d.insert(h.finish());
                        }
                        let mut sm = samples.lock().unwrap();
                        if sm.len() < 3 && ops.len() < 14 {
                            sm.push(format!("{:?}: {:?}", s.mode, ops).chars().take(600).collect());
                        }
                    }
                    if let Err(v) = r {
                        if v.props.contains(&"HARNESS") {
                            *harness.lock().unwrap() = Some(format!("{:?} {:?}", s, ops).chars().take(800).collect());
                            stop.store(true, Ordering::Relaxed);
                        } else if prop == "ALL" || v.props.contains(&prop.as_str()) {
                            let mut f = found.lock().unwrap();
                            f.push((s, ops, v));
                            if f.len() >= 8 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        } else {
                            let mut o = other.lock().unwrap();
                            let k = format!("{} {:?}", v.kind, v.props);
                            if o.len() < 20 && !o.contains(&k) {
                                o.push(k);
                            }
                        }
                    }
                }
            });
        }
    });
    let mut viols: Vec<serde_json::Value> = vec![];
    let mut f = found.into_inner().unwrap();
    f.sort_by_key(|(_, o, v)| (v.kind.clone(), o.len()));
    let until = Instant::now() + Duration::from_secs(20);
    let mut kinds: HashSet<String> = HashSet::new();
    for (s, ops, v) in f {
        if !kinds.insert(v.kind.clone()) {
            continue;
        }
        let p = if prop == "ALL" { v.props[0] } else { prop.as_str() };
        let (o2, v2) = shrink(&s, &ops, p, &v.kind, until);
        let v2 = if v2.kind == "unstable" { v.clone() } else { v2 };
        viols.push(serde_json::json!({
            "kind": v2.kind, "what": v2.what, "properties": v2.props, "step": v2.step,
            "setup": format!("{:?}", s),
            "operations": o2.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>(),
        }));
    }
    if let (Some(o), false) = (&out, viols.is_empty()) {
        let j = serde_json::json!({"property": prop, "seed": seed,
            "how": "operations on one real layer (crate at /repo); Feed hands it a message built by the reference peer (replay/src/refer.rs); the last operation shows the violation",
            "violations": viols});
        let _ = std::fs::write(o, serde_json::to_string_pretty(&j).unwrap());
    }
    if verbose {
        for v in &viols {
            eprintln!("{}", serde_json::to_string_pretty(v).unwrap());
        }
        eprintln!("other: {:#?}", other.lock().unwrap());
    }
    let err = harness.into_inner().unwrap();
    let mut st = serde_json::json!({"runs": runs.load(Ordering::Relaxed), "operations": nops.load(Ordering::Relaxed), "distinct": dist.lock().unwrap().len(),
        "rule": "distinct operation sequences in which the layer accepted the peer's CONNECT and ACK",
        "samples": *samples.lock().unwrap(), "secs": t0.elapsed().as_secs_f64(), "violations": viols});
    if let Some(e) = err {
        st["error"] = serde_json::Value::String(e);
    }
    println!("{}", st);
}
