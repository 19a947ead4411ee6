mod case;
mod gen;
mod nat;
mod run;

use case::Case;
use run::{Finding, Kind};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Does this kind of failure contradict this property?
fn relevant(prop: &str, kind: Kind) -> bool {
    match prop {
        "C10" => matches!(kind, Kind::Canon),
        "C15" => matches!(kind, Kind::Form | Kind::Mutated),
        "C17" => matches!(kind, Kind::Panic | Kind::Hang),
        "C16" => matches!(kind, Kind::Value | Kind::Panic | Kind::Hang),
        "C14" => matches!(kind, Kind::Value | Kind::Panic | Kind::NoPanic | Kind::Hang | Kind::Canon),
        "C06" => matches!(kind, Kind::Value | Kind::NoPanic | Kind::Mutated | Kind::Hang | Kind::Panic),
        "ALL" => true,
        _ => matches!(kind, Kind::Value | Kind::Panic | Kind::NoPanic | Kind::Hang),
    }
}

fn failing(prop: &str, c: &Case) -> Option<Finding> {
    run::check(c).into_iter().find(|f| relevant(prop, f.kind))
}

fn shrink(prop: &str, c: &Case, deadline: Instant) -> Case {
    let mut best = c.clone();
    let size = |c: &Case| -> (usize, u128, usize) { (c.a.len() + c.b.len() + c.s.len(), c.n as u128 + c.a.iter().chain(&c.b).map(|&x| x as u128).sum::<u128>(), 0) };
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        let mut cands: Vec<Case> = vec![];
        for w in 0..2 {
            let v = if w == 0 { &best.a } else { &best.b };
            let n = v.len();
            let mut k = n / 2;
            while k >= 1 {
                for start in [0, n - k, n / 2 - n.min(k) / 2] {
                    if start + k <= n {
                        let mut x = v.clone();
                        x.drain(start..start + k);
                        if best.op != "new" { x = gen::trim(x); }
                        let mut c2 = best.clone();
                        if w == 0 { c2.a = x } else { c2.b = x }
                        cands.push(c2);
                    }
                }
                k /= 2;
            }
            for i in 0..n {
                for d in [0u64, 1] {
                    if v[i] > d && !(d == 0 && i + 1 == n) {
                        let mut c2 = best.clone();
                        if w == 0 { c2.a[i] = d } else { c2.b[i] = d }
                        cands.push(c2);
                    }
                }
            }
        }
        if best.op != "hist" {
            for n in [0, 1, best.n / 2, best.n.saturating_sub(1)] { if n < best.n { let mut c2 = best.clone(); c2.n = n; cands.push(c2); } }
        }
        let by = best.s.as_bytes();
        for i in 0..by.len() {
            if best.s.is_ascii() { let mut s = best.s.clone(); s.remove(i); let mut c2 = best.clone(); c2.s = s; cands.push(c2); }
        }
        for c2 in cands {
            if Instant::now() > deadline { break; }
            let op = c2.op.as_str();
            if (op.starts_with("div") || op.starts_with("rem") || op.starts_with("x_div") || op.starts_with("x_rem")) && c2.n == 0 && c2.b.is_empty() && op != "divzero" { continue; }
            if size(&c2) < size(&best) && failing(prop, &c2).is_some() { best = c2; progress = true; break; }
        }
    }
    best
}

#[derive(Default)]
struct Stats {
    evals: u64,
    per_op: BTreeMap<String, u64>,
    seen: HashSet<u64>,
    samples: Vec<String>,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; }
    h
}

fn nontrivial(c: &Case) -> bool {
    c.a.len() + c.b.len() >= 2 || c.s.len() >= 2 || c.n >= 2
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() { match ch { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if std::env::var("SHOW_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    if let Some(f) = get("--replay") {
        // re-run the cases of a replay file against the crate as built now
        let prop = get("--prop").unwrap_or("ALL".into());
        let text = std::fs::read_to_string(&f).expect("replay file");
        let mut bad = 0;
        let mut seen = 0;
        for line in text.lines() {
            if let Some(t) = line.strip_prefix("CASE ") {
                let c = Case::parse(t).expect("case");
                seen += 1;
                // a hang is a failure: give up after a while
                let done = Arc::new(AtomicBool::new(false));
                let d2 = done.clone();
                let t2 = t.to_string();
                std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(60)); if !d2.load(Ordering::SeqCst) { println!("FAIL Hang {}", t2); std::process::exit(1); } });
                let p = prop.clone();
                let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || (run::check(&c).into_iter().filter(|f| relevant(&p, f.kind)).collect::<Vec<_>>(), c)).unwrap().join().unwrap();
                done.store(true, Ordering::SeqCst);
                for f in r.0 { bad += 1; println!("FAIL {:?} {}\n  {}", f.kind, f.msg, r.1.text()); }
            }
        }
        println!("replayed {} cases, {} findings", seen, bad);
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let budget = Duration::from_millis(get("--ms").map(|s| s.parse().unwrap()).unwrap_or(10_000));
    let max_cases: u64 = get("--cases").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let crashdir = get("--crashdir").unwrap_or("/tmp".into());
    let all = args.iter().any(|a| a == "--keep-going");
    let mut plan: Vec<(&'static str, u64)> = gen::plan(&prop);
    if prop == "ALL" { plan = gen::plan("C17"); }
    if let Some(ops) = get("--ops") {
        let l: Vec<&str> = ops.split(',').collect();
        plan = gen::plan("C17").into_iter().chain(gen::plan("C16")).chain([("divzero", 1), ("consts", 1)]).filter(|p| l.contains(&p.0)).map(|p| (p.0, 1)).collect();
    }
    assert!(!plan.is_empty(), "unknown property");
    let known: Vec<Case> = get("--known").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().filter_map(|l| l.strip_prefix("CASE ").and_then(Case::parse)).collect()).unwrap_or_default();
    let known = Arc::new(known);
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<(Case, Finding)>>> = Arc::new(Mutex::new(vec![]));
    let total = Arc::new(AtomicU64::new(0));
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<Mutex<String>>> = Arc::new((0..threads).map(|_| Mutex::new(String::new())).collect());
    let wsum: u64 = plan.iter().map(|p| p.1).sum();
    let mut hs = vec![];
    for t in 0..threads {
        let (prop, plan, stop, found, total, started, current, known) = (prop.clone(), plan.clone(), stop.clone(), found.clone(), total.clone(), started.clone(), current.clone(), known.clone());
        let crash = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/current.{}", crashdir, t)).expect("crashdir");
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut st = Stats::default();
            let mut rng = gen::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t as u64).wrapping_add(hash(&prop)));
            while !stop.load(Ordering::Relaxed) {
                let mut w = rng.below(wsum);
                let mut op = plan[0].0;
                for p in &plan { if w < p.1 { op = p.0; break; } w -= p.1; }
                let c = gen::gen(&mut rng, op);
                let text = c.text();
                let line = format!("CASE {}\n", text);
                let _ = crash.set_len(line.len() as u64);
                let _ = crash.write_at(line.as_bytes(), 0);
                *current[t].lock().unwrap() = text.clone();
                started[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let f = failing(&prop, &c);
                started[t].store(0, Ordering::SeqCst);
                st.evals += 1;
                *st.per_op.entry(op.to_string()).or_insert(0) += 1;
                if nontrivial(&c) && st.seen.len() < 3_000_000 { st.seen.insert(hash(&text)); }
                if st.samples.len() < 2 && nontrivial(&c) && text.len() < 300 { st.samples.push(text); }
                if let Some(f) = f {
                    if !known.contains(&c) {
                        found.lock().unwrap().push((c, f));
                        if !all { stop.store(true, Ordering::SeqCst); }
                    }
                }
                if total.fetch_add(1, Ordering::Relaxed) + 1 >= max_cases || start.elapsed() > budget { break; }
            }
            let _ = crash.set_len(0);
            st
        }).unwrap());
    }
    // watchdog
    let hang_ms = 30_000u64;
    let mut hung = None;
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(20));
        let now = start.elapsed().as_millis() as u64;
        for t in 0..threads {
            let s = started[t].load(Ordering::SeqCst);
            if s > 0 && now > s + hang_ms { hung = Some(current[t].lock().unwrap().clone()); }
        }
        if hung.is_some() { break; }
    }
    let mut st = Stats::default();
    if hung.is_none() {
        for h in hs {
            let s = h.join().unwrap();
            st.evals += s.evals;
            for (k, v) in s.per_op { *st.per_op.entry(k).or_insert(0) += v; }
            st.seen.extend(s.seen);
            if st.samples.len() < 5 { st.samples.extend(s.samples); }
        }
    }
    let mut fails: Vec<(Case, Finding)> = found.lock().unwrap().clone();
    if let Some(h) = hung {
        if let Some(c) = Case::parse(&h) {
            if relevant(&prop, Kind::Hang) { fails.insert(0, (c, Finding { kind: Kind::Hang, msg: format!("did not finish within {} ms", hang_ms) })); }
        }
    }
    let mut shown = vec![];
    for (c, f) in fails.iter().take(if all { 40 } else { 1 }) {
        let (c, f) = if f.kind == Kind::Hang { (c.clone(), f.clone()) } else {
            let s = shrink(&prop, c, Instant::now() + Duration::from_secs(3));
            let f2 = failing(&prop, &s).unwrap_or_else(|| f.clone());
            (s, f2)
        };
        println!("FOUND {:?} {}\nCASE {}", f.kind, f.msg, c.text());
        shown.push((c, f));
    }
    if let Some(o) = get("--out") {
        let mut j = String::from("{");
        j += &format!("\"property\":\"{}\",\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_ms\":{},", prop, seed, st.evals, st.seen.len(), start.elapsed().as_millis());
        j += "\"per_op\":{";
        j += &st.per_op.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
        j += "},\"samples\":[";
        j += &st.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
        j += "],\"failures\":[";
        j += &shown.iter().map(|(c, f)| format!("{{\"kind\":\"{:?}\",\"msg\":\"{}\",\"case\":\"{}\"}}", f.kind, esc(&f.msg), esc(&c.text()))).collect::<Vec<_>>().join(",");
        j += "]}\n";
        std::fs::File::create(o).unwrap().write_all(j.as_bytes()).unwrap();
    }
    println!("evaluations {} distinct {} in {} ms, failures {}", st.evals, st.seen.len(), start.elapsed().as_millis(), fails.len());
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
