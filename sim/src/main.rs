//! kami under deterministic simulation. See DESIGN.md in the parent directory.
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

mod choice;
mod docs;
mod effects;
mod env_sim;
mod fold_sim;
mod geom;
mod graph_sim;
mod replica_sim;
mod run;
mod sched;
mod script;
mod seams;
mod thread_sim;
mod vfs;

use choice::{mix, Choices};
use run::Violation;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write as _;
use std::time::Instant;

#[global_allocator]
static ALLOC: seams::SimAlloc = seams::SimAlloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn personality(p: u64) -> i32;
}

// ---------------------------------------------------------------- shared memory

const RESULT_CAP: usize = 6 << 20;
#[repr(C)]
pub struct Shared {
    log_len: u32,
    log: [u32; choice::MAX_CHOICES],
    res_len: u32,
    res: [u8; RESULT_CAP],
}
const BITS: usize = 1 << 27;
#[repr(C)]
struct Global {
    stop: u32,
    states: [u8; BITS / 8],
    schedules: [u8; BITS / 8],
    cases: [u8; BITS / 8],
    cov: [u8; 1 << 20],
}
unsafe fn share<T>() -> *mut T {
    let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
    assert!(p as isize != -1);
    p as *mut T
}
static mut SH: *mut Shared = std::ptr::null_mut();
static mut GL: *mut Global = std::ptr::null_mut();
fn mark(map: &mut [u8], h: u64) {
    let i = (choice::mix(h, 77) % BITS as u64) as usize;
    // lost updates between workers only under-count
    map[i / 8] |= 1 << (i % 8);
}
fn popcount(map: &[u8]) -> u64 {
    map.iter().map(|b| b.count_ones() as u64).sum()
}

pub fn mirror_choice(i: usize, v: u32) {
    unsafe {
        if !SH.is_null() {
            (*SH).log[i] = v;
            (*SH).log_len = i as u32 + 1;
        }
    }
}

// ---------------------------------------------------------------- end of a run, inside the child

fn finish(kind: &str) -> ! {
    unsafe {
        if SH.is_null() {
            sched::raw6(231, 3, 0, 0, 0, 0, 0);
        }
        let c = run::ctx();
        let mut trace_len = 0;
        let mut from = c.trace.len();
        while from > 0 && trace_len + c.trace[from - 1].len() + 8 < RESULT_CAP / 3 {
            from -= 1;
            trace_len += c.trace[from].len() + 8;
        }
        let v = json!({
            "kind": kind,
            "digest": format!("{:016x}", c.digest),
            "violation": c.violation.as_ref().map(|v| json!({"class": v.class, "message": v.message})),
            "counters": c.counters,
            "faults": c.faults,
            "sim_time_us": c.sim_time_us,
            "blocks": c.steps_blocks,
            "effective": c.effective,
            "trace": &c.trace[from..],
        });
        let t = v.to_string();
        let t = t.as_bytes();
        assert!(t.len() <= RESULT_CAP);
        (&mut (*SH).res)[..t.len()].copy_from_slice(t);
        (*SH).res_len = t.len() as u32;
        if !GL.is_null() && !c.verbose {
            for &h in &c.states {
                mark(&mut (*GL).states, h);
            }
            mark(&mut (*GL).schedules, c.schedule_hash);
            if c.effective > 0 {
                mark(&mut (*GL).cases, c.digest);
            }
            for i in 0..(sched::guards() as usize + 1).min(1 << 20) {
                if sched::KSIM_COV[i] != 0 {
                    (*GL).cov[i] = 1;
                }
            }
        }
        sched::raw6(231, 0, 0, 0, 0, 0, 0); // exit_group
        unreachable!()
    }
}

/// In a process split off from a run: report nothing.
pub fn detach() {
    unsafe {
        SH = std::ptr::null_mut();
        GL = std::ptr::null_mut();
    }
}

/// The run cannot go on (deadlock, no progress): a violation of whatever is being checked.
pub fn fatal(class: &str, msg: &str) -> ! {
    unsafe { sched::KSIM_IN_LIB = 0 };
    let p = run::prop();
    run::violate(p, class, msg.to_string());
    finish("done")
}
/// The run ends here, with nothing to report.
pub fn give_up() -> ! {
    unsafe { sched::KSIM_IN_LIB = 0 };
    finish("done")
}
pub fn harness_error(msg: &str) -> ! {
    unsafe { sched::KSIM_IN_LIB = 0 };
    let msg = &run::cut(msg.to_string());
    ev!("HARNESS ERROR {}", msg);
    unsafe { run::ctx().violation = Some(Violation { class: "harness".into(), message: msg.to_string() }) };
    finish("harness")
}

pub const PROPS: [&str; 20] = [
    "G01", "G02", "G03", "G04", "G05", "G06", "G07", "G08", "G09", "F01", "F02", "F03", "F04", "F05", "F06", "S01",
    "T01", "E01", "R01", "X01",
];

fn simulate(prop: &str) {
    match prop {
        "G01" | "G02" | "G03" | "G04" | "G05" | "G06" | "G08" => graph_sim::run(),
        "G07" => replica_sim::run_replicas(),
        "G09" => replica_sim::run_copies(),
        "F01" | "F02" | "F03" | "F04" | "F05" | "F06" => fold_sim::run(),
        "S01" => script::run_stdout(),
        "E01" => env_sim::run_surroundings(),
        "R01" => env_sim::run_for_ever(),
        "X01" => effects::run_effects(),
        "T01" => thread_sim::run(),
        _ => harness_error("unknown property"),
    }
}

// ---------------------------------------------------------------- running one simulation in a forked child

#[derive(Clone, Debug, Default)]
struct Outcome {
    class: Option<String>,
    message: String,
    harness: bool,
    digest: String,
    log: Vec<u32>,
    value: Value,
}

enum Input<'a> {
    Seed(u64),
    Log(&'a [u32]),
}

fn run_child(prop: &str, input: Input, verbose: bool) -> Outcome {
    unsafe {
        if SH.is_null() {
            SH = share::<Shared>();
        }
        (*SH).log_len = 0;
        (*SH).res_len = 0;
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            setrlimit(0, &[60, 70]); // CPU seconds
            setrlimit(9, &[6 << 30, 6 << 30]); // address space
            setrlimit(4, &[0, 0]); // no core files
            let ch = match input {
                Input::Seed(s) => Choices::from_seed(s),
                Input::Log(l) => Choices::from_log(l.to_vec()),
            };
            run::begin(ch, prop, verbose);
            sched::reset_clock();
            vfs::reset();
            *seams::out() = seams::Out::default();
            seams::seed_entropy(1 + choice::choose(1 << 16) as u64);
            seams::SWALLOW = true;
            simulate(prop);
            finish("done");
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let mut o = Outcome { log: (&(*SH).log)[..(*SH).log_len as usize].to_vec(), ..Default::default() };
        if st != 0 {
            let sig = st & 0x7f;
            o.class = Some(if sig == 24 || sig == 9 { "hang".into() } else { "crash".into() });
            o.message = match sig {
                24 => "the run used more than 60 s of processor time".to_string(),
                0 => format!("the process exited with status {}", st >> 8),
                11 | 6 => format!("the process died of signal {} (stack overflow, abort or memory fault)", sig),
                _ => format!("the process died of signal {}", sig),
            };
            o.digest = format!("signal{}", sig);
            return o;
        }
        let v: Value = match serde_json::from_slice(&(&(*SH).res)[..(*SH).res_len as usize]) {
            Ok(v) => v,
            Err(e) => {
                o.harness = true;
                o.message = format!("no result from the run: {}", e);
                return o;
            }
        };
        o.harness = v["kind"] != "done";
        o.digest = v["digest"].as_str().unwrap_or("").to_string();
        if let Some(x) = v.get("violation").filter(|x| !x.is_null()) {
            o.class = Some(x["class"].as_str().unwrap_or("").to_string());
            o.message = x["message"].as_str().unwrap_or("").to_string();
        }
        o.value = v;
        o
    }
}

// ---------------------------------------------------------------- campaign

#[derive(Default)]
struct Tally {
    runs: u64,
    counters: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    sim_time_us: u64,
    blocks: u64,
    effective: u64,
    nontrivial: u64,
    choices: u64,
    rerun: u64,
    mismatch: u64,
}

fn add_map(into: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(m) = v.as_object() {
        for (k, x) in m {
            *into.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
    }
}

fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, prop.bytes().fold(0, |a, b| a * 257 + b as u64)), i)
}

fn worker(prop: &str, base: u64, first: u64, stride: u64, total: u64, deadline: f64, file: &str) -> ! {
    let t0 = Instant::now();
    let mut t = Tally::default();
    let mut found = Value::Null;
    let mut i = first;
    unsafe {
        SH = share::<Shared>();
        while i < total && (*GL).stop == 0 && t0.elapsed().as_secs_f64() < deadline {
            let seed = run_seed(base, prop, i);
            let o = run_child(prop, Input::Seed(seed), false);
            t.runs += 1;
            if o.class.is_some() || o.harness {
                found = json!({"index": i, "seed": seed.to_string(), "class": o.class, "message": o.message,
                    "harness": o.harness, "log": o.log});
                (*GL).stop = 1;
                break;
            }
            add_map(&mut t.counters, &o.value["counters"]);
            add_map(&mut t.faults, &o.value["faults"]);
            t.sim_time_us += o.value["sim_time_us"].as_u64().unwrap_or(0);
            t.blocks += o.value["blocks"].as_u64().unwrap_or(0);
            let e = o.value["effective"].as_u64().unwrap_or(0);
            t.effective += e;
            t.nontrivial += (e > 0) as u64;
            t.choices += o.log.len() as u64;
            if i % 64 == first % 64 && i / stride % 8 == 0 {
                // the same seed again, and the recorded choices again: all three must agree
                let a = run_child(prop, Input::Seed(seed), true);
                let b = run_child(prop, Input::Log(&o.log), false);
                t.rerun += 2;
                if a.digest != o.digest || b.digest != o.digest || a.log != o.log || b.log != o.log {
                    t.mismatch += 1;
                }
            }
            i += stride;
        }
    }
    let v = json!({"runs": t.runs, "counters": t.counters, "faults": t.faults, "sim_time_us": t.sim_time_us,
        "blocks": t.blocks, "effective": t.effective, "nontrivial": t.nontrivial, "choices": t.choices, "rerun": t.rerun,
        "mismatch": t.mismatch, "found": found});
    std::fs::write(file, v.to_string()).unwrap();
    unsafe { sched::raw6(231, 0, 0, 0, 0, 0, 0) };
    unreachable!()
}

fn minimise(prop: &str, class: &str, log: Vec<u32>, budget_s: f64) -> (Vec<u32>, u64) {
    let t0 = Instant::now();
    let tries = std::cell::Cell::new(0u64);
    let attempt = |cand: &[u32]| -> Option<Vec<u32>> {
        if t0.elapsed().as_secs_f64() > budget_s {
            return None;
        }
        tries.set(tries.get() + 1);
        let o = run_child(prop, Input::Log(cand), false);
        if !o.harness && o.class.as_deref() == Some(class) {
            // keep what was actually consumed, without trailing zeroes (absent choices read as zero)
            let mut l = o.log;
            l.truncate(l.len().min(cand.len()));
            while l.last() == Some(&0) {
                l.pop();
            }
            Some(l)
        } else {
            None
        }
    };
    let mut best = log;
    if let Some(l) = attempt(&best) {
        best = l;
    }
    let cost = |l: &[u32]| (l.len(), l.iter().filter(|&&x| x != 0).count(), l.iter().map(|&x| x as u64).sum::<u64>());
    loop {
        let before = cost(&best);
        // cut the tail
        let mut k = best.len() / 2;
        while k > 0 {
            if best.len() > k {
                let c = best[..best.len() - k].to_vec();
                if let Some(l) = attempt(&c).filter(|l| cost(l) < cost(&best)) {
                    best = l;
                    continue;
                }
            }
            k /= 2;
        }
        // delete and zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let j = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[j..]);
                if let Some(l) = attempt(&c).filter(|l| cost(l) < cost(&best)) {
                    best = l;
                    continue;
                }
                if best[i..j].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..j].iter_mut().for_each(|x| *x = 0);
                    if let Some(l) = attempt(&c).filter(|l| cost(l) < cost(&best)) {
                        best = l;
                    }
                }
                i = j;
            }
            if size == 1 {
                break;
            }
            size = if size > 24 { size / 2 } else { size - 1 };
        }
        // lower single choices
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for w in [v / 2, v.saturating_sub(1)] {
                if w < v && w > 0 && i < best.len() && best[i] == v {
                    let mut c = best.clone();
                    c[i] = w;
                    if let Some(l) = attempt(&c).filter(|l| cost(l) < cost(&best)) {
                        best = l;
                    }
                }
            }
            i += 1;
        }
        if cost(&best) >= before || t0.elapsed().as_secs_f64() > budget_s {
            return (best, tries.get());
        }
    }
}

fn root() -> String {
    std::env::var("KSIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn known(prop: &str) -> Vec<(String, String)> {
    // "KNOWN property=<id> class=<class> match=<text>" lines; "fixed:" lines suppress nothing
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("property={} ", prop))?;
            let (m, what) = rest.split_once(" :: ")?;
            Some((m.to_string(), what.to_string()))
        })
        .collect()
}

fn campaign(prop: &str, tier: &str) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let (quick_runs, rule, real, stub) = describe(prop);
    let runs: u64 = std::env::var("KSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough {
        quick_runs * 40
    } else {
        quick_runs
    });
    let cap: f64 = std::env::var("KSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 700.0 } else { 240.0 });
    let workers: u64 = std::env::var("KSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)
    });
    println!("kami-sim property={} tier={} VERIF_SEED={} runs={} workers={}", prop, tier, base, runs, workers);
    for (m, what) in known(prop) {
        println!("KNOWN-FINDING: property={} {} ({})", prop, what, m);
    }
    let t0 = Instant::now();
    let dir = format!("{}/replays/.tmp-{}", root(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    std::io::stdout().flush().unwrap();
    unsafe { GL = share::<Global>() };
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { fork() };
        if pid == 0 {
            worker(prop, base, w, workers, runs, cap, &format!("{}/{}", dir, w));
        }
        pids.push(pid);
    }
    let mut t = Tally::default();
    let mut found: Option<Value> = None;
    let mut bad = String::new();
    for (w, pid) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe { while waitpid(*pid, &mut st, 0) < 0 {} };
        let v: Value = match std::fs::read(format!("{}/{}", dir, w)).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => {
                bad = format!("worker {} ended with status {:#x} without a report", w, st);
                unsafe { (*GL).stop = 1 };
                continue;
            }
        };
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        t.runs += n("runs");
        t.sim_time_us += n("sim_time_us");
        t.blocks += n("blocks");
        t.effective += n("effective");
        t.nontrivial += n("nontrivial");
        t.choices += n("choices");
        t.rerun += n("rerun");
        t.mismatch += n("mismatch");
        add_map(&mut t.counters, &v["counters"]);
        add_map(&mut t.faults, &v["faults"]);
        if !v["found"].is_null() {
            let f = v["found"].clone();
            let key = |x: &Value| (x["harness"] == true, x["index"].as_u64().unwrap_or(0));
            if found.as_ref().map_or(true, |g| key(&f) < key(g)) {
                found = Some(f);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_dir(format!("{}/replays", root()));
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let mut minimised = Value::Null;
    if let Some(f) = &found {
        if f["harness"] == true {
            bad = format!("run {} (seed {}): {}", f["index"], f["seed"], f["message"]);
        } else {
            let class = f["class"].as_str().unwrap().to_string();
            let log: Vec<u32> = f["log"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let seed: u64 = f["seed"].as_str().unwrap().parse().unwrap();
            let n0 = log.len();
            let (small, tries) = minimise(prop, &class, log.clone(), if thorough { 90.0 } else { 25.0 });
            let mut o = run_child(prop, Input::Log(&small), true);
            let mut chosen = small;
            if o.class.as_deref() != Some(&class) {
                o = run_child(prop, Input::Log(&log), true);
                chosen = log;
            }
            std::fs::create_dir_all(format!("{}/replays", root())).unwrap();
            let path = format!("{}/replays/{}-{:016x}.json", root(), prop, seed);
            let doc = json!({"property": prop, "verif_seed": base, "run_index": f["index"], "seed": seed.to_string(),
                "class": class, "message": o.message, "digest": o.digest, "choices": chosen,
                "choices_before_minimising": n0, "minimising_runs": tries,
                "trace": o.value.get("trace").cloned().unwrap_or(Value::Null),
                "replay_with": format!("/verif/check.sh --replay {}", path)});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).arg("--quiet").output();
            let ok = again.map(|o| o.status.code() == Some(1)).unwrap_or(false);
            println!("first failing run: index {} seed {} ({} choices, {} after {} minimising runs); replay in a fresh process {}",
                f["index"], seed, n0, doc["choices"].as_array().unwrap().len(), tries, if ok { "reproduces it" } else { "DIFFERS" });
            if let Some(tr) = doc["trace"].as_array() {
                for l in tr.iter().rev().take(14).collect::<Vec<_>>().into_iter().rev() {
                    println!("    {}", l.as_str().unwrap_or(""));
                }
            }
            println!("{}: {}", class, o.message);
            if let Some((m, _)) = known(prop).iter().find(|(m, _)| o.message.contains(m.as_str())) {
                println!("(listed as known finding: {})", m);
            } else {
                println!("VIOLATION property={} replay={}", prop, path);
                code = 1;
            }
            violations = 1;
            minimised = json!({"file": path, "choices": chosen.len(), "reproduced_in_fresh_process": ok});
        }
    }
    if !bad.is_empty() && code == 0 {
        println!("HARNESS ERROR: {}", bad);
        code = 2;
    }
    if t.mismatch > 0 {
        println!("warning: {} of {} repeated runs differed from the first", t.mismatch, t.rerun);
    }
    let wall = t0.elapsed().as_secs_f64();
    // a few sample cases, written out
    let mut samples = vec![];
    for i in 0..3u64 {
        let o = run_child(prop, Input::Seed(run_seed(base, prop, i)), true);
        let tr = o.value["trace"].as_array().cloned().unwrap_or_default();
        samples.push(json!({"run_index": i, "seed": run_seed(base, prop, i).to_string(), "digest": o.digest,
            "choices": o.log.len(), "events": tr.len(), "trace_head": tr.into_iter().take(25).collect::<Vec<_>>() }));
    }
    let (states, schedules, cases, cov) = unsafe {
        (popcount(&(*GL).states), popcount(&(*GL).schedules), popcount(&(*GL).cases), (*GL).cov.iter().filter(|&&x| x != 0).count())
    };
    let per_hour = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": t.runs, "distinct_nontrivial": cases.min(t.nontrivial), "rule": rule, "samples": samples,
            "simulated_runs": t.runs, "runs_per_hour": per_hour(t.runs), "seeds_per_hour": per_hour(t.runs),
            "simulated_time_s": t.sim_time_us as f64 / 1e6, "random_decisions": t.choices,
            "checked_steps": t.effective, "faults_injected": t.faults, "probes": t.counters,
            "distinct_states": states, "distinct_states_measure": "hashes of the observed system state after each step, counted in a 2^27-bit map (a lower bound)",
            "distinct_interleavings": schedules, "distinct_interleavings_measure": "hashes of the sequence of (task, position in basic blocks executed) at every context switch and, in graph sessions, of (kind, party, request) at every delivery, in a 2^27-bit map (a lower bound)",
            "library_basic_blocks_executed": t.blocks, "instrumented_blocks_reached": cov, "instrumented_blocks": sched::guards(),
            "runs_repeated_for_determinism": t.rerun, "determinism_mismatches": t.mismatch,
            "components_real": real, "components_stubbed": stub, "minimised_violation": minimised,
        },
        "assumptions": assumptions(prop),
        "wall_s": wall, "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", root(), prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} runs in {:.1} s ({} non-trivial, {} distinct), {} checked steps, {} states, {} interleavings, {} of {} blocks, exit {}",
        t.runs, search_s, t.nontrivial, cases, t.effective, states, schedules, cov, sched::guards(), code);
    code
}

fn describe(prop: &str) -> (u64, &'static str, Vec<&'static str>, Vec<&'static str>) {
    let std_real = vec!["all of kami, its dependencies and the Rust standard library, as compiled from /repo's working tree"];
    match prop {
        "G01" | "G02" | "G03" | "G04" | "G05" | "G06" | "G08" => (
            24_000,
            "One case is one simulated session: several editors with stale views send add/remove/query requests to one graph over a network that delays, duplicates and reorders, views follow the change reports, standard output may fail. Non-trivial: at least one request was carried out and checked against the reference for this property; distinct by the hash of the complete event log.",
            std_real,
            vec!["network between editors, graph and views", "standard output", "clock", "hash-map seeds"],
        ),
        "G07" => (
            12_000,
            "One case is one log of edits applied by a primary and two or three replicas on threads of their own, with delayed, duplicated, reordered delivery, crashes and restarts from earlier copies. Non-trivial: at least one log position was compared between two replicas.",
            std_real,
            vec!["network", "thread schedule", "standard output", "clock", "hash-map seeds"],
        ),
        "G09" => (
            12_000,
            "One case is one branching history of edits, copies, restores and drops over up to six live copies. Non-trivial: at least one edit was made while another copy was alive.",
            std_real,
            vec!["standard output", "clock", "hash-map seeds", "order in which the copies' owners act"],
        ),
        "F01" | "F02" | "F03" | "F04" | "F05" | "F06" => (
            16_000,
            "One case is one history of documents written to and loaded from a simulated disk. Non-trivial: at least one load was judged under the faults this property is about; distinct by the hash of the event log.",
            std_real,
            vec!["file system and its system calls", "thread schedule", "clock", "other programs writing the file"],
        ),
        "S01" => (
            20_000,
            "One case is one script of operations over graphs, polygons, documents and algebra values, run once with healthy and once with faulty standard output. Non-trivial: at least one write to standard output met a fault.",
            std_real,
            vec!["standard output", "file system", "clock", "hash-map seeds"],
        ),
        "E01" => (
            8_000,
            "One case is one script of operations over graphs, polygons, documents and algebra values, run in a fresh process in plain surroundings and in a process with other work before and in between, other hash seeds, a displaced and jumping clock, environment variables, another process id and processor count, and memory blocks placed elsewhere and filled with junk. Non-trivial: at least one step was compared.",
            std_real,
            vec!["clock", "hash-map seeds", "environment variables, process id, processor count", "allocator (a wrapper around the real one)", "file system", "standard output"],
        ),
        "R01" => (
            8_000,
            "One case is one script of operations repeated 32 to 2048 times in one process, on new objects or on graphs emptied each time, in one thread or a new one each time, with or without failing storage and standard output. Non-trivial: the accounts were compared at one checkpoint at least.",
            std_real,
            vec!["allocator (accounts kept around the real one)", "file system", "standard output", "clock", "hash-map seeds"],
        ),
        "X01" => (
            16_000,
            "One case is one script of operations over graphs, polygons, documents and algebra values in seeded surroundings with failing storage and standard output; calls with effects outside the object worked on are recorded at the seams, and the process-wide state is compared, after every step. Non-trivial: at least one step was judged.",
            std_real,
            vec!["clock", "hash-map seeds", "environment variables, process id, processor count", "allocator (a wrapper around the real one)", "file system", "standard output", "processes, threads, sockets, links and other calls with effects outside (refused and recorded)"],
        ),
        _ => (
            6_000,
            "One case is one set of scripts run alone and then together on two to four real threads of which the simulator lets exactly one run at a time, switching at basic blocks, allocations, lock operations and I/O inside library calls. Non-trivial: at least one switch happened inside a library call.",
            std_real,
            vec!["thread scheduler and futexes", "standard output", "file system", "clock", "hash-map seeds"],
        ),
    }
}

fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "sampling: a clean batch is evidence, not proof",
        "the compiler, the standard library and the instrumentation pass are trusted",
    ];
    if prop == "T01" {
        v.push("executions are sequentially consistent: data races that need weak memory are out of reach");
    }
    if prop.starts_with('G') {
        v.push("requests whose geometry is neither coincident (2 ulp) nor clearly separated (256 ulp of the largest coordinate) are left out of the geometric checks");
    }
    v
}

fn replay(path: &str, quiet: bool) -> i32 {
    let v: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            println!("cannot read {}", path);
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let log: Vec<u32> = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    let o = run_child(&prop, Input::Log(&log), true);
    if !quiet {
        if let Some(t) = o.value["trace"].as_array() {
            for l in t {
                println!("{}", l.as_str().unwrap_or(""));
            }
        }
        println!("{:?}: {}", o.class, o.message);
    }
    let same = o.class.as_deref() == v["class"].as_str() && Some(o.digest.as_str()) == v["digest"].as_str();
    if same {
        println!("VIOLATION property={} replay={}", prop, path);
        1
    } else if o.class.is_some() {
        println!("a different violation: {:?} {}", o.class, o.message);
        3
    } else {
        println!("no violation: the recorded schedule no longer fails");
        0
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // a fixed address space layout, so that nothing can depend on it
    unsafe {
        if std::env::var_os("KSIM_NOASLR").is_none() && personality(0xffff_ffff) & 0x0040000 == 0 {
            if personality(0x0040000) != -1 {
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("KSIM_NOASLR", "1").exec();
            }
        }
    }
    sched::install_panic_hook();
    println!("kami-sim: {} instrumented blocks", sched::guards());
    std::io::stdout().flush().unwrap();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = arg("--prop").unwrap_or_default();
            if !PROPS.contains(&prop.as_str()) {
                println!("unknown property {:?}", prop);
                2
            } else {
                campaign(&prop, &arg("--tier").unwrap_or("quick".into()))
            }
        }
        Some("replay") => replay(&args[2], args.iter().any(|a| a == "--quiet")),
        Some("seed") => {
            let prop = arg("--prop").unwrap_or_default();
            let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let i: u64 = arg("--index").and_then(|s| s.parse().ok()).unwrap_or(0);
            let o = run_child(&prop, Input::Seed(run_seed(base, &prop, i)), true);
            for l in o.value["trace"].as_array().cloned().unwrap_or_default() {
                println!("{}", l.as_str().unwrap_or(""));
            }
            println!("digest {} choices {} {:?} {}", o.digest, o.log.len(), o.class, o.message);
            println!("faults {} counters {}", o.value["faults"], o.value["counters"]);
            o.class.is_some() as i32
        }
        Some("digests") => {
            // event-log digests of a sample of runs, for diffing between processes and settings
            let n: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
            let only = arg("--prop");
            for prop in PROPS.iter().filter(|p| only.as_deref().map_or(true, |o| o == **p)) {
                for i in 0..n {
                    let seed = run_seed(1, prop, i);
                    let o = run_child(prop, Input::Seed(seed), false);
                    // with a trace kept, and from the recorded choices
                    let (a, b) = (run_child(prop, Input::Seed(seed), true), run_child(prop, Input::Log(&o.log), false));
                    let same = a.digest == o.digest && b.digest == o.digest && a.log == o.log && b.log == o.log;
                    println!("{} {} {} {}{}", prop, i, o.digest, o.log.len(), if same { String::new() } else { format!(" DIFFERS {} {} {} {}", a.digest, b.digest, a.log == o.log, b.log == o.log) });
                }
            }
            0
        }
        _ => {
            println!("usage: kami-sim check --prop ID [--tier quick|thorough] | replay FILE | seed --prop ID --index N | digests");
            2
        }
    };
    let _ = std::io::stdout().flush();
    let _ = kill as usize;
    std::process::exit(code);
}
