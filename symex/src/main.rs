//! symex: path-complete symbolic execution of whole-program LLVM IR with Z3 deciding
//! every symbolic branch, address and assertion.
mod exec;
mod expr;
mod ll;
mod lower;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Scn {
    id: u32,
    name: String,
    tier: String,
    bounds: String,
}

#[derive(Default)]
struct ScnStat {
    paths: u64,
    done: u64,
    assume: u64,
    checks: u64,
    reached: u64,
    maxsym: u32,
    maxlen: usize,
    maxsteps: u64,
    tags: BTreeMap<u32, u64>,
    samples: Vec<(Vec<u8>, Vec<u64>)>,
    errors: BTreeMap<String, u64>,
    error_vals: Vec<Vec<u64>>,
    cut: u64,
}

struct Work {
    queues: Vec<Vec<Item>>,
    active: Vec<u32>,
    next: usize,
    pending: usize,
    nactive: usize,
}

struct Args {
    m: HashMap<String, String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.m.get(k).map(|s| s.as_str())
    }
    fn req(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| die(&format!("missing --{}", k)))
    }
}

fn die(s: &str) -> ! {
    eprintln!("symex: error: {}", s);
    std::process::exit(2)
}

fn esc(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn hexvals(v: &[u64]) -> String {
    v.iter().map(|x| format!("{:02x}", x & 0xff)).collect()
}

/// Native run of one assignment in its own process.
#[derive(Debug, Clone, PartialEq)]
enum Nres {
    Pass(u64),
    Fail(String),
    Panic(String),
    Crash(String),
    Hang,
    Assume,
    Err(String),
}
fn native_one(bin: &str, scn: u32, vals: &[u64], timeout: Duration) -> Nres {
    let mut ch = match Command::new(bin)
        .arg("one")
        .arg(scn.to_string())
        .arg(format!("x{}", hexvals(vals)))
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Nres::Err(e.to_string()),
    };
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                use std::io::Read;
                let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
                let line = s.lines().last().unwrap_or("").to_string();
                return parse_nres(&line).unwrap_or_else(|| Nres::Crash(format!("{}", st)));
            }
            Ok(None) => {
                if t.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Nres::Hang;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(e) => return Nres::Err(e.to_string()),
        }
    }
}
fn parse_nres(l: &str) -> Option<Nres> {
    let mut it = l.splitn(3, ' ');
    let k = it.next()?;
    Some(match k {
        "PASS" => Nres::Pass(u64::from_str_radix(it.next()?, 16).ok()?),
        "FAIL" => Nres::Fail(it.next()?.to_string() + " " + it.next().unwrap_or("")),
        "PANIC" => Nres::Panic(l[6..].to_string()),
        "ASSUME" => Nres::Assume,
        _ => return None,
    })
}
fn native_batch(bin: &str, items: &[(u32, Vec<u64>)]) -> Result<Vec<Nres>, String> {
    let mut ch = Command::new(bin)
        .arg("batch")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut text = String::new();
    for (s, v) in items {
        text.push_str(&format!("{} x{}\n", s, hexvals(v)));
    }
    let mut stdin = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let out = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = w.join();
    let s = String::from_utf8_lossy(&out.stdout).into_owned();
    let r: Vec<Nres> = s.lines().filter_map(parse_nres).collect();
    if r.len() != items.len() {
        return Err(format!("native batch answered {} of {}", r.len(), items.len()));
    }
    Ok(r)
}

struct Known {
    prop: String,
    scenario: String,
    what: String,
    text: String,
}

fn read_known(p: Option<&str>) -> Vec<Known> {
    let mut v = vec![];
    if let Some(p) = p {
        if let Ok(s) = std::fs::read_to_string(p) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: ") {
                    let mut k = Known { prop: String::new(), scenario: String::new(), what: String::new(), text: String::new() };
                    let (head, text) = match r.split_once(" -- ") {
                        Some(x) => x,
                        None => (r, ""),
                    };
                    k.text = text.to_string();
                    for w in head.split_whitespace() {
                        if let Some(x) = w.strip_prefix("property=") {
                            k.prop = x.into()
                        } else if let Some(x) = w.strip_prefix("scenario=") {
                            k.scenario = x.into()
                        } else if let Some(x) = w.strip_prefix("what=") {
                            k.what = x.into()
                        }
                    }
                    v.push(k);
                }
            }
        }
    }
    v
}

fn main() {
    let mut m = HashMap::new();
    let av: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < av.len() {
        m.insert(av[i].trim_start_matches("--").to_string(), av[i + 1].clone());
        i += 2;
    }
    let a = Args { m };
    let t0 = Instant::now();
    let src = std::fs::read_to_string(a.req("ll")).unwrap_or_else(|e| die(&format!("read ll: {}", e)));
    let mut module = ll::parse_module(&src).unwrap_or_else(|e| die(&format!("parse ll: {}", e)));
    drop(src);
    let prog = Arc::new(lower::lower(&mut module).unwrap_or_else(|e| die(&format!("lower: {}", e))));
    drop(module);
    let t_load = t0.elapsed().as_secs_f64();
    let replay = a.req("replay").to_string();
    let prop = a.req("prop").to_string();
    let tier = a.get("tier").unwrap_or("quick").to_string();
    let seed: u64 = a.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = Duration::from_secs_f64(a.get("budget").and_then(|s| s.parse().ok()).unwrap_or(60.0));
    let jobs: usize = a.get("jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = a.get("scn").map(|s| s.to_string());
    let verbose = a.get("verbose").is_some();
    let cap: u64 = a.get("cap").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let known = read_known(a.get("known"));
    let outdir = a.get("outdir").unwrap_or("out").to_string();
    let _ = std::fs::create_dir_all(&outdir);

    // scenarios
    let lst = Command::new(&replay).arg("list").output().unwrap_or_else(|e| die(&format!("replay list: {}", e)));
    let mut scns: Vec<Scn> = vec![];
    for l in String::from_utf8_lossy(&lst.stdout).lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 5 {
            continue;
        }
        if f[1] != prop {
            continue;
        }
        if f[3] == "t" && tier != "thorough" {
            continue;
        }
        if let Some(o) = &only {
            if !f[2].contains(o.as_str()) {
                continue;
            }
        }
        scns.push(Scn {
            id: f[0].parse().unwrap(),
            name: f[2].to_string(),
            tier: f[3].to_string(),
            bounds: f[4].to_string(),
        });
    }
    if scns.is_empty() {
        die(&format!("no scenarios for property {}", prop));
    }
    let entry = *prog.by_name.get("h_main").unwrap_or_else(|| die("no h_main"));

    let ns = scns.len();
    let work = Arc::new((
        Mutex::new(Work {
            queues: scns.iter().map(|s| vec![Item { scn: s.id, vals: vec![], dec: vec![], hash: 0 }]).collect(),
            active: vec![0; ns],
            next: 0,
            pending: ns,
            nactive: 0,
        }),
        Condvar::new(),
    ));
    let idx_of: HashMap<u32, usize> = scns.iter().enumerate().map(|(k, s)| (s.id, k)).collect();
    let stats: Arc<Mutex<Vec<ScnStat>>> = Arc::new(Mutex::new((0..ns).map(|_| ScnStat::default()).collect()));
    let stop = Arc::new(AtomicBool::new(false));
    let timed_out = Arc::new(AtomicBool::new(false));
    let violations: Arc<Mutex<Vec<(u32, String, Vec<u64>, String)>>> = Arc::new(Mutex::new(vec![]));
    let knownhits: Arc<Mutex<BTreeSet<String>>> = Arc::new(Mutex::new(BTreeSet::new()));
    let unconfirmed: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let validated = Arc::new(AtomicU64::new(0));
    let validate_every: u64 = a.get("validate-every").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 8 } else { 4 });
    let shared = Arc::new(Shared::new(t0 + budget + Duration::from_secs(5)));
    let agg: Arc<Mutex<(Stats, Vec<u64>, BTreeMap<String, u64>)>> =
        Arc::new(Mutex::new((Stats::default(), vec![0; prog.funcs.len()], BTreeMap::new())));
    let seen_cand: Arc<Mutex<HashMap<String, u32>>> = Arc::new(Mutex::new(HashMap::new()));
    let scn_counts: Arc<Vec<AtomicU64>> = Arc::new((0..ns).map(|_| AtomicU64::new(0)).collect());

    let mut hs = vec![];
    for j in 0..jobs {
        let (work, stats, stop, timed_out, prog, shared, agg, replay, prop) = (
            work.clone(),
            stats.clone(),
            stop.clone(),
            timed_out.clone(),
            prog.clone(),
            shared.clone(),
            agg.clone(),
            replay.clone(),
            prop.clone(),
        );
        let (violations, knownhits, unconfirmed, validated, seen_cand, scn_counts) = (
            violations.clone(),
            knownhits.clone(),
            unconfirmed.clone(),
            validated.clone(),
            seen_cand.clone(),
            scn_counts.clone(),
        );
        let idx_of = idx_of.clone();
        let scns = scns.clone();
        let known: Vec<(String, String, String, String)> =
            known.iter().map(|k| (k.prop.clone(), k.scenario.clone(), k.what.clone(), k.text.clone())).collect();
        let tier = tier.clone();
        let b = std::thread::Builder::new().stack_size(256 << 20);
        hs.push(
            b.spawn(move || {
                let mut mc = Machine::new(prog.clone(), shared, if tier == "quick" { 5000 } else { 30000 });
                if prop == "S03" {
                    mc.step_limit = 30_000_000;
                }
                let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (j as u64 + 1).wrapping_mul(0xD1B54A32D192ED03);
                let mut rnd = move || {
                    rng ^= rng << 13;
                    rng ^= rng >> 7;
                    rng ^= rng << 17;
                    rng
                };
                let mut vbatch: Vec<(u32, Vec<u64>, u64, Vec<u8>)> = vec![];
                let flush = |vb: &mut Vec<(u32, Vec<u64>, u64, Vec<u8>)>| {
                    if vb.is_empty() {
                        return;
                    }
                    let items: Vec<(u32, Vec<u64>)> = vb.iter().map(|x| (x.0, x.1.clone())).collect();
                    match native_batch(&replay, &items) {
                        Ok(rs) => {
                            for (r, x) in rs.iter().zip(vb.iter()) {
                                if *r == Nres::Pass(x.2) {
                                    validated.fetch_add(1, Ordering::Relaxed);
                                } else {
                                    unconfirmed.lock().unwrap().push(format!(
                                        "encoding disagrees with native run: scn {} vals {} input {:?}: native {:?}, symbolic digest {:x}",
                                        x.0,
                                        hexvals(&x.1),
                                        String::from_utf8_lossy(&x.3),
                                        r,
                                        x.2
                                    ));
                                }
                            }
                        }
                        Err(e) => unconfirmed.lock().unwrap().push(e),
                    }
                    vb.clear();
                };
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed() > budget {
                        timed_out.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                        work.1.notify_all();
                        break;
                    }
                    let item = {
                        let mut w = work.0.lock().unwrap();
                        loop {
                            if w.pending > 0 {
                                break;
                            }
                            if w.nactive == 0 || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let (g, _) = work.1.wait_timeout(w, Duration::from_millis(50)).unwrap();
                            w = g;
                        }
                        if w.pending == 0 || stop.load(Ordering::Relaxed) {
                            work.1.notify_all();
                            None
                        } else {
                            let n = w.queues.len();
                            let mut k = w.next % n;
                            while w.queues[k].is_empty() {
                                k = (k + 1) % n;
                            }
                            w.next = k + 1;
                            let q = &mut w.queues[k];
                            let l = q.len();
                            let p = if l > 100_000 { l - 1 } else { (rnd() % l as u64) as usize };
                            let it = q.swap_remove(p);
                            w.pending -= 1;
                            w.nactive += 1;
                            w.active[k] += 1;
                            Some((k, it))
                        }
                    };
                    let (k, it) = match item {
                        Some(x) => x,
                        None => break,
                    };
                    let over = scn_counts[k].fetch_add(1, Ordering::Relaxed) >= cap;
                    if over {
                        let mut w = work.0.lock().unwrap();
                        w.nactive -= 1;
                        w.active[k] -= 1;
                        drop(w);
                        stats.lock().unwrap()[k].cut += 1;
                        continue;
                    }
                    let (r, out, cand) = mc.run(&it, entry);
                    {
                        let mut w = work.0.lock().unwrap();
                        w.pending += out.len();
                        for x in out {
                            let k = idx_of[&x.scn];
                            w.queues[k].push(x);
                        }
                        w.nactive -= 1;
                        w.active[k] -= 1;
                        work.1.notify_all();
                    }
                    let do_val;
                    {
                        let mut st = stats.lock().unwrap();
                        let s = &mut st[k];
                        s.paths += 1;
                        match &r.outcome {
                            Outcome::Done => s.done += 1,
                            Outcome::Assume => s.assume += 1,
                            Outcome::Error(e) => {
                                *s.errors.entry(e.clone()).or_default() += 1;
                            }
                            _ => {}
                        }
                        s.checks += r.checks as u64;
                        if r.checks > 0 {
                            s.reached += 1;
                        }
                        s.maxsym = s.maxsym.max(r.nsym);
                        s.maxlen = s.maxlen.max(r.input.len());
                        s.maxsteps = s.maxsteps.max(r.steps);
                        for t in &r.tags {
                            *s.tags.entry(*t).or_default() += 1;
                        }
                        do_val = r.outcome == Outcome::Done && r.checks > 0 && (s.done <= 32 || s.done % validate_every == 0);
                        if r.outcome == Outcome::Done && r.checks > 0 && s.samples.len() < 4 && (s.done % 7 == 1) {
                            s.samples.push((r.input.clone(), r.vals.clone()));
                        }
                    }
                    if do_val {
                        vbatch.push((it.scn, r.vals.clone(), r.digest, r.input.clone()));
                        if vbatch.len() >= 256 {
                            flush(&mut vbatch);
                        }
                    }
                    for (o, vals) in cand {
                        let key = format!("{}:{:?}", it.scn, o);
                        let n = {
                            let mut g = seen_cand.lock().unwrap();
                            let e = g.entry(key.clone()).or_insert(0);
                            *e += 1;
                            *e
                        };
                        let isknown = |what: &str| {
                            known
                                .iter()
                                .find(|x| x.0 == prop && x.1 == scns[k].name && what.contains(&x.2))
                                .map(|x| x.3.clone())
                        };
                        if n > 12 {
                            // already examined often enough with the same symptom
                            continue;
                        }
                        let nr = native_one(&replay, it.scn, &vals, Duration::from_secs(20));
                        let what = match &nr {
                            // there the number of executed instructions is what is claimed
                            Nres::Pass(_) if prop == "S03" && matches!(o, Outcome::Limit("steps")) => {
                                "effort: too many executed instructions for the length of the text".to_string()
                            }
                            Nres::Fail(l) => format!("fail:{}", l),
                            Nres::Panic(l) => format!("panic:{}", l),
                            Nres::Crash(l) => format!("crash:{}", l),
                            Nres::Hang => "hang".to_string(),
                            _ => String::new(),
                        };
                        if !what.is_empty() {
                            if let Some(t) = isknown(&what) {
                                knownhits.lock().unwrap().insert(t);
                                continue;
                            }
                            violations.lock().unwrap().push((it.scn, what, vals, format!("{:?}", o)));
                            stop.store(true, Ordering::Relaxed);
                            work.1.notify_all();
                        } else {
                            match &o {
                                Outcome::Error(_) => {}
                                Outcome::Limit(_) => {
                                    let mut g = agg.lock().unwrap();
                                    *g.2.entry(format!("{:?} not reproduced natively", o)).or_default() += 1;
                                }
                                _ => unconfirmed
                                    .lock()
                                    .unwrap()
                                    .push(format!("candidate {} vals {} not reproduced: {:?}", key, hexvals(&vals), nr)),
                            }
                        }
                    }
                    if unconfirmed.lock().unwrap().len() > 20 {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                flush(&mut vbatch);
                let mut g = agg.lock().unwrap();
                let s = &mc.stats;
                g.0.queries += s.queries;
                g.0.z3_queries += s.z3_queries;
                g.0.z3_sat += s.z3_sat;
                g.0.z3_unsat += s.z3_unsat;
                g.0.z3_unknown += s.z3_unknown;
                g.0.z3_time += s.z3_time;
                g.0.l1 += s.l1;
                g.0.l2 += s.l2;
                g.0.asserts_proved += s.asserts_proved;
                g.0.asserts_const += s.asserts_const;
                g.0.steps += s.steps;
                g.0.sym_branches += s.sym_branches;
                g.0.concretised += s.concretised;
                for (k, c) in mc.called.iter().enumerate() {
                    g.1[k] += c;
                }
                for (k, c) in &mc.incomplete {
                    *g.2.entry(k.clone()).or_default() += c;
                }
            })
            .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let st = stats.lock().unwrap();
    let g = agg.lock().unwrap();
    let viol = violations.lock().unwrap();
    let unc = unconfirmed.lock().unwrap();
    let left: Vec<usize> = work.0.lock().unwrap().queues.iter().map(|q| q.len()).collect();
    let mut incomplete: BTreeMap<String, u64> = g.2.clone();
    if timed_out.load(Ordering::Relaxed) {
        incomplete.insert("time budget exhausted; unexplored path prefixes".into(), left.iter().sum::<usize>() as u64);
    }
    let mut vac = vec![];
    let (mut paths, mut checks) = (0u64, 0u64);
    for (k, s) in st.iter().enumerate() {
        paths += s.paths;
        checks += s.checks;
        if s.reached == 0 && left[k] == 0 && s.errors.is_empty() && !known.iter().any(|f| f.prop == prop && f.scenario == scns[k].name) {
            vac.push(scns[k].name.clone());
        }
        for (e, n) in &s.errors {
            *incomplete.entry(format!("path not encodable (replayed natively only): {}", e.chars().take(160).collect::<String>())).or_default() += n;
        }
        if s.cut > 0 {
            *incomplete.entry(format!("path cap in {}", scns[k].name)).or_default() += s.cut;
        }
        if verbose || ns <= 60 {
            println!(
                "  {:<28} paths {:>7} done {:>7} assume {:>5} checks {:>7} maxsym {:>3} maxlen {:>3} maxsteps {:>8} left {}{}",
                scns[k].name, s.paths, s.done, s.assume, s.checks, s.maxsym, s.maxlen, s.maxsteps, left[k],
                if verbose { format!(" tags {:?}", s.tags) } else { String::new() }
            );
        }
        if verbose {
            for (i, v) in s.samples.iter().take(3) {
                println!("      sample {:?} {}", String::from_utf8_lossy(i), hexvals(v));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    println!(
        "{}: {} paths, {} assertions, {} branch queries ({} z3: {} sat {} unsat {} unknown, {:.1}s z3 cpu; cache {}+{}), {} sym branches, {:.1}M instructions, load {:.1}s, wall {:.1}s, validated {}",
        prop, paths, checks, g.0.queries, g.0.z3_queries, g.0.z3_sat, g.0.z3_unsat, g.0.z3_unknown, g.0.z3_time, g.0.l1, g.0.l2,
        g.0.sym_branches, g.0.steps as f64 / 1e6, t_load, wall, validated.load(Ordering::Relaxed)
    );
    for (k, n) in &incomplete {
        println!("  incomplete: {} x{}", k, n);
    }
    // functions
    let mut funcs: Vec<String> = vec![];
    let mut all_called = 0;
    for (k, c) in g.1.iter().enumerate() {
        if *c > 0 {
            all_called += 1;
            if prog.funcs[k].name.contains("10nom_sparql") {
                funcs.push(short_name(&prog.funcs[k].name));
            }
        }
    }
    funcs.sort();
    funcs.dedup();
    // evidence
    if let Some(ev) = a.get("evidence") {
        let mut samples = vec![];
        for (k, s) in st.iter().enumerate() {
            for (i, v) in s.samples.iter().take(2) {
                samples.push(format!(
                    "{{\"scenario\":\"{}\",\"input\":\"{}\",\"assignment\":\"{}\",\"verdict\":\"assertions hold\"}}",
                    scns[k].name, esc(i), hexvals(v)
                ));
            }
        }
        for v in viol.iter().take(3) {
            samples.push(format!(
                "{{\"scenario_id\":{},\"assignment\":\"{}\",\"verdict\":\"{}\"}}",
                v.0, hexvals(&v.2), esc(v.1.as_bytes())
            ));
        }
        let scj: Vec<String> = scns
            .iter()
            .enumerate()
            .map(|(k, s)| {
                format!(
                    "{{\"name\":\"{}\",\"bounds\":\"{}\",\"paths\":{},\"assertions_reached\":{},\"max_symbolic_vars\":{},\"max_input_bytes\":{},\"exhausted\":{}}}",
                    s.name, esc(s.bounds.as_bytes()), st[k].paths, st[k].checks, st[k].maxsym, st[k].maxlen, left[k] == 0 && st[k].cut == 0 && st[k].errors.is_empty()
                )
            })
            .collect();
        let _ = &scns[0].tier;
        let inc: Vec<String> = incomplete.iter().map(|(k, n)| format!("\"{} (x{})\"", esc(k.as_bytes()), n)).collect();
        let fj: Vec<String> = funcs.iter().map(|f| format!("\"{}\"", esc(f.as_bytes()))).collect();
        let json = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"assertions_decided\": {},\n  \"assertions_discharged_by_solver\": {},\n  \"feasibility_queries\": {},\n  \"solver_calls\": {},\n  \"solver_unsat\": {},\n  \"solver_sat\": {},\n  \"solver_unknown\": {},\n  \"solver_seconds\": {:.3},\n  \"solver\": \"z3 {}\",\n  \"instructions_executed\": {},\n  \"functions_encoded_total\": {},\n  \"functions_encoded_nom_sparql\": [{}],\n  \"exhaustive\": {},\n  \"incomplete\": [{}],\n  \"scenarios\": [{}],\n  \"known_findings_hit\": {},\n  \"samples\": [{}],\n  \"explanation\": \"states = complete execution paths of the compiled parser explored symbolically; transitions = symbolic branch/switch decisions taken; every branch feasibility and every assertion over symbolic data is decided by z3 for all values within the stated bounds; traces_validated = path models re-run natively with identical observable digest\"\n }},\n \"assumptions\": [\"rustc/LLVM IR (opt-level 2, overflow checks on) of /repo's working tree is what is executed; z3 and the IR executor are trusted, the latter cross-checked by native replay\", \"claims hold only inside the scenario bounds listed under coverage.scenarios\", \"allocation never fails\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            prop, tier, seed, paths, g.0.sym_branches, validated.load(Ordering::Relaxed), checks, g.0.asserts_proved, g.0.queries, g.0.z3_queries,
            g.0.z3_unsat, g.0.z3_sat, g.0.z3_unknown, g.0.z3_time, z3::version(), g.0.steps, all_called, fj.join(","), incomplete.is_empty(),
            inc.join(","), scj.join(","), knownhits.lock().unwrap().len(), samples.join(","), wall, viol.len()
        );
        if let Err(e) = std::fs::write(ev, json) {
            die(&format!("write evidence: {}", e));
        }
    }
    for k in knownhits.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    if let Some((scn, what, vals, sym)) = viol.first() {
        let name = scns.iter().find(|s| s.id == *scn).map(|s| s.name.clone()).unwrap_or_default();
        let p = format!("{}/{}-{}.txt", outdir, prop, name);
        // what it shows may not end, where the violation is that
        let show = Command::new("timeout").arg("10").arg(&replay).arg("show").arg(scn.to_string()).arg(format!("x{}", hexvals(vals))).output();
        let text = show.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        let _ = std::fs::write(
            &p,
            format!(
                "property {}\nscenario {} ({})\nobserved natively: {}\nsymbolic verdict: {}\nassignment: x{}\nrerun: <verif>/check.sh --replay {} x{}\n\n{}\n",
                prop, name, scn, what, sym, hexvals(vals), scn, hexvals(vals), text
            ),
        );
        println!("{}", text.lines().take(12).collect::<Vec<_>>().join("\n"));
        println!("scenario {}: {}", name, what);
        println!("VIOLATION property={} replay={}", prop, p);
        std::process::exit(1);
    }
    if !unc.is_empty() {
        for u in unc.iter().take(10) {
            eprintln!("symex: {}", u);
        }
        die("some candidates or traces disagree with the native program (encoding problem)");
    }
    if !vac.is_empty() {
        die(&format!("vacuous scenarios (no assertion reached): {:?}", vac));
    }
    std::process::exit(0);
}
