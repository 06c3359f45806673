//! E01: results depend on nothing but arguments. R01: a process can go on for ever.

use crate::graph_sim::{Tag, G};
use kami::fold::fold::Fold;
use kami::geometry::polygon::Polygon;
use kami::geometry::utils;
use kami::glm::Vec2;

use crate::choice::{choose, hash_bytes, permille, pick, weighted};
use crate::ev;
use crate::run::{self, count, effective, fault, violate};
use crate::sched::{self, Config};
use crate::script::{self, same, short, Script, World};
use crate::seams;
use crate::vfs::vfs;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    /// (a method, so that closures capture the whole wrapper)
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0 }
    }
}

// ---------------------------------------------------------------- E01

/// The reference: the script in a process of its own that has done nothing before, in plain surroundings.
fn elsewhere(s: &Script) -> Option<Vec<String>> {
    const CAP: usize = 8 << 20;
    unsafe {
        let mem = mmap(std::ptr::null_mut(), CAP, 3, 0x21, -1, 0);
        assert!(mem as isize != -1);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            crate::detach();
            let mut out: Vec<String> = vec![];
            let (o, p) = (Ptr(&mut out), Ptr(s as *const Script as *mut Script));
            sched::run_one(move || {
                let (o, s) = (o.get(), p.get());
                seams::fix_entropy(1);
                let mut w = World::new(None);
                for st in &s.steps {
                    let r = w.step(st, &s.files);
                    o.push(r);
                }
            });
            let mut at = 8;
            for r in &out {
                let b = r.as_bytes();
                if at + 8 + b.len() > CAP {
                    sched::raw6(231, 4, 0, 0, 0, 0, 0);
                }
                *(mem.add(at) as *mut u64) = b.len() as u64;
                std::ptr::copy_nonoverlapping(b.as_ptr(), mem.add(at + 8), b.len());
                at += (8 + b.len() + 7) / 8 * 8;
            }
            *(mem as *mut u64) = out.len() as u64;
            sched::raw6(231, 0, 0, 0, 0, 0, 0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if st != 0 {
            return None;
        }
        let n = *(mem as *mut u64) as usize;
        let mut at = 8;
        let mut out = vec![];
        for _ in 0..n {
            let len = *(mem.add(at) as *mut u64) as usize;
            out.push(String::from_utf8_lossy(std::slice::from_raw_parts(mem.add(at + 8), len)).into_owned());
            at += (8 + len + 7) / 8 * 8;
        }
        Some(out)
    }
}

static mut ARGV: *mut *const u8 = std::ptr::null_mut();
#[used]
#[link_section = ".init_array"]
static REMEMBER: extern "C" fn(i32, *mut *const u8, *const *const u8) = remember;
extern "C" fn remember(_: i32, argv: *mut *const u8, _: *const *const u8) {
    unsafe { ARGV = argv };
}
/// The program looks as if it had been started with these arguments from now on (there are no more than there were).
fn command_line(args: &[&'static [u8]]) {
    unsafe {
        let mut k = 1;
        while !ARGV.is_null() && !(*ARGV.add(k)).is_null() {
            *ARGV.add(k) = args.get(k - 1).map_or(std::ptr::null(), |a| a.as_ptr());
            k += 1;
        }
    }
}

pub fn surroundings() -> String {
    let a = seams::surroundings();
    let m = seams::memory();
    let mut what = vec![];
    if permille(600) {
        a.clock_offset_us = pick(&[3600i64, -40 * 365 * 86400, 80 * 365 * 86400, 0]) * 1_000_000 + choose(1_000_000) as i64;
        what.push("another date");
        fault("clock_offset");
    }
    if permille(600) {
        a.jumps = pick(&[100, 600]);
        a.jump_s = pick(&[1, 100, 1_000_000]);
        what.push("a jumping clock");
    }
    if permille(600) {
        a.vars = 1 + choose(1 << 20) as u64;
        what.push("environment variables set");
        fault("environment_variables_set");
    }
    if permille(300) {
        vfs().strays = Some(pick(&[&b"1\n"[..], b"{\"file_title\": \"stray\"}", b""]).to_vec());
        what.push("other files present");
        fault("other_files_present");
    }
    if permille(300) {
        let o = seams::out();
        o.flags = pick(&[2, 0o4001, 0o4002, 0o2001]);
        o.terminal = pick(&[None, Some(80u16)]);
        what.push("standard output of another kind");
        fault("another_kind_of_stdout");
    }
    if permille(300) {
        match choose(3) {
            0 => command_line(&[]),
            1 => command_line(&[b"--verbose\0", b"--debug\0"]),
            _ => command_line(&[b"-v\0", b"7\0"]),
        }
        what.push("another command line");
        fault("another_command_line");
    }
    a.cwd = choose(4);
    a.pid = 100 + choose(30_000) as i32;
    a.cpus = 1 + choose(64);
    if permille(700) {
        m.junk = Some(pick(&[0xa5u8, 0x00, 0xff, 0x01, 0x3f]));
        what.push("memory filled with junk");
        fault("memory_filled_with_junk");
    }
    if permille(700) {
        m.pad = pick(&[1, 8, 64]);
        m.stream = choose(1 << 30) as u64;
        what.push("blocks of memory elsewhere");
        fault("memory_placed_elsewhere");
    }
    what.join(", ")
}

/// Much work of one kind, as a long-running process has behind it.
pub fn wear(kind: u32, times: u32, files: &[String]) {
    for from in (0..times).step_by(100) {
        wear_some(kind, from, (from + 100).min(times), files);
    }
}
fn wear_some(kind: u32, from: u32, to: u32, files: &[String]) {
    let _ = sched::lib(|| {
        let mut g = G::new();
        let o = Vec2::new(0.0, 0.0);
        let a = Vec2::new(1.0, 0.0);
        let square = vec![o, a, Vec2::new(1.0, 1.0), Vec2::new(0.0, 1.0)];
        for k in from..to {
            match kind {
                0 => {
                    g.add_node(&o, Tag(k));
                    g.add_node(&a, Tag(k));
                    let _ = g.add_edge(0, 1, Tag(k));
                    g.remove_edge(0);
                }
                1 => {
                    g.add_node(&o, Tag(k));
                    g.remove_node(0);
                }
                2 => {
                    if g.node_count() == 0 {
                        for p in &square {
                            g.add_node(p, Tag(k));
                        }
                        let _ = g.add_edge(0, 2, Tag(k));
                        let _ = g.add_edge(1, 3, Tag(k));
                    }
                    let c = g.clone();
                    let _ = c.has_edge_between_nodes(0, 1);
                    let _ = g.add_edge(2, 0, Tag(k));
                }
                3 => {
                    if let Ok(p) = Polygon::new(&square) {
                        let _ = p.triangulate();
                    }
                }
                4 => {
                    let _ = utils::calculate_line_segment_intersection(&square[0], &square[2], &square[1], &square[3]);
                    let _ = utils::unique_points_among(&square);
                    let _ = utils::find_closest_to(&a, &square);
                }
                _ => {
                    if let Some(f) = files.first() {
                        if k < 2000 {
                            let _ = Fold::from_file(std::path::Path::new(f));
                        }
                    }
                }
            }
        }
    });
}

pub fn run_surroundings() {
    let len = pick(&[12u32, 4, 30, 60]);
    let s = script::generate(len, 0, false);
    // other work in the same process: before, and in between
    let others = weighted(&[2, 3, 2, 1]);
    let decoys: Vec<Script> = (0..others)
        .map(|i| {
            if permille(400) {
                // much the same work on objects of its own
                let mut steps = s.steps.clone();
                let from = choose(steps.len() as u32) as usize;
                steps.rotate_left(from);
                let cut = choose(steps.len() as u32) as usize;
                steps.truncate(steps.len() - cut);
                Script { steps, files: s.files.clone() }
            } else {
                script::generate(pick(&[6u32, 20, 60]), 1 + i, false)
            }
        })
        .collect();
    let want = match elsewhere(&s) {
        Some(w) => w,
        None => {
            // it does not even end by itself: other properties say so; here there is nothing to compare
            count("scripts_that_do_not_end_by_themselves");
            return;
        }
    };
    let text = surroundings();
    let before: Vec<u32> = decoys.iter().map(|_| choose(3)).collect();
    let p_between = pick(&[0u32, 200, 700]);
    let p_move = pick(&[0u32, 300]);
    let entropy = choose(1 << 16) as u64;
    // the thread that does it
    let name = pick(&[None, Some("main"), Some("worker-7"), Some("")]);
    if name.is_some() {
        fault("in_a_thread_with_another_name");
    }
    let worn = if permille(80) { pick(&[300u32, 5000, 300, 20_000, 5000, 70_000]) } else { 0 };
    let kind = choose(6);
    if worn > 0 {
        ev!("{} times the same before (kind {})", worn, kind);
        fault("much_earlier_work");
    }
    ev!("{} steps, {} others ({:?}), {}", s.steps.len(), decoys.len(), before, text);
    let mut got: Vec<String> = vec![];
    // other threads that have come and gone
    for (d, how) in decoys.iter().zip(&before) {
        if *how == 1 {
            let p = Ptr(d as *const Script as *mut Script);
            sched::run_one(move || {
                let d = p.get();
                let mut w = World::new(None);
                for st in &d.steps {
                    w.step(st, &d.files);
                }
            });
            fault("earlier_work_in_another_thread");
        }
    }
    let all = (&s, &decoys, &before);
    type All<'a> = (&'a Script, &'a Vec<Script>, &'a Vec<u32>);
    let (o, p) = (Ptr(&mut got), Ptr(&all as *const _ as *mut All));
    sched::run_named(name, move || {
        let (out, (s, decoys, before)) = (o.get(), *p.get());
        seams::fix_entropy(2 + entropy);
        wear(kind, worn, &s.files);
        let mut beside: Vec<(World, usize, &Script)> = vec![];
        for (d, how) in decoys.iter().zip(before.iter()) {
            let mut w = World::new(None);
            let mut k = 0;
            if *how == 2 {
                fault("earlier_work_in_the_same_thread");
                while k < d.steps.len() {
                    w.step(&d.steps[k], &d.files);
                    k += 1;
                }
            } else if *how == 0 {
                beside.push((w, k, d));
            }
        }
        let mut w = Box::new(World::new(None));
        let mut keep: Vec<Box<[u8]>> = vec![];
        for (i, st) in s.steps.iter().enumerate() {
            while permille(p_between) && !beside.is_empty() {
                let j = choose(beside.len() as u32) as usize;
                let (v, k, d) = &mut beside[j];
                if *k < d.steps.len() {
                    let r = v.step(&d.steps[*k], &d.files);
                    ev!("  other {} {:?}: {}", j, d.steps[*k], short(&r));
                    *k += 1;
                    fault("work_on_other_objects_in_between");
                } else {
                    beside.swap_remove(j);
                }
            }
            if permille(p_move) {
                // the objects change their place in memory
                keep.push(vec![0u8; 8 + choose(4) as usize * 500].into_boxed_slice());
                w = Box::new(*w);
                fault("objects_moved");
            }
            let r = w.step(st, &s.files);
            ev!("step {} {:?}: {}", i, st, short(&r));
            out.push(r);
        }
    });
    run::state(hash_bytes(3, want.concat().as_bytes()));
    for i in 0..s.steps.len() {
        effective();
        if !same(&want[i], &got[i]) {
            violate(
                "E01",
                "surroundings",
                format!(
                    "step {} {:?}: {} in a fresh process, but {} ({}; other work in the process: {})",
                    i, s.steps[i], short(&want[i]), short(&got[i]), text, decoys.len()
                ),
            );
            return;
        }
    }
}

// ---------------------------------------------------------------- R01

#[derive(Clone, Copy, Debug)]
struct Use {
    blocks: i64,
    bytes: i64,
    files: i64,
    steps: u64,
}

static mut WORLD: Option<Box<World>> = None;
fn world() -> &'static mut Option<Box<World>> {
    unsafe { &mut *std::ptr::addr_of_mut!(WORLD) }
}

pub fn run_for_ever() {
    let len = pick(&[6u32, 2, 12, 25]);
    let s = script::generate(len, 0, false);
    let stay = permille(500);
    let threads = permille(250);
    let faulty = permille(500);
    let entropy = choose(1 << 16) as u64;
    let p_fault = pick(&[300u32, 50, 900]);
    ev!("{} steps again and again, {}{}{}", s.steps.len(), if stay { "the graphs emptied each time" } else { "with new objects each time" },
        if threads { ", each time in a new thread" } else { "" }, if faulty { ", with faults" } else { "" });
    let mut first: Vec<String> = vec![];
    let mut marks: Vec<(u32, Use)> = vec![];
    seams::track_from_here();
    let mut next = 8u32;
    let mut cycle = 0u32;
    let mut last = 64u32;
    let started = unsafe { run::ctx() }.steps_blocks;
    loop {
        // some rounds in one task, or each in a thread of its own
        let rounds = if threads { 1 } else { next - cycle };
        let state = (&s, &mut first);
        let p = Ptr(&state as *const _ as *mut (&Script, &mut Vec<String>));
        let base = cycle;
        let spent = std::rc::Rc::new(std::cell::Cell::new(0u64));
        let q = Ptr(&*spent as *const _ as *mut std::cell::Cell<u64>);
        sched::run_one(move || {
            let (s, first) = p.get();
            for c in base..base + rounds {
                if !stay || world().is_none() {
                    *world() = Some(Box::new(World::new(None)));
                }
                let w = world().as_mut().unwrap();
                seams::fix_entropy(entropy);
                let before = unsafe { run::ctx() }.steps_blocks;
                for (i, st) in s.steps.iter().enumerate() {
                    if faulty && permille(p_fault) {
                        trouble();
                    }
                    let r = w.step(st, &s.files);
                    if c == 0 {
                        ev!("step {} {:?}: {}", i, st, short(&r));
                        first.push(r);
                    } else if stay && !faulty && !same(&r, &first[i]) {
                        violate(
                            "R01",
                            "not-as-new",
                            format!("step {} {:?}: {} with a new graph, but {} with one emptied {} times", i, st, short(&first[i]), short(&r), c),
                        );
                        return;
                    }
                }
                q.get().set(unsafe { run::ctx() }.steps_blocks - before);
                calm();
                if stay {
                    if !w.empty() {
                        violate("R01", "cannot-empty", "a graph is not empty after removing its first node again and again".into());
                        return;
                    }
                } else {
                    *world() = None;
                }
            }
        });
        if run::violated() {
            return;
        }
        cycle += rounds;
        effective();
        if cycle < next {
            continue;
        }
        let m = seams::memory();
        let u = Use { blocks: m.live_blocks, bytes: m.live_bytes, files: vfs().open_files() as i64, steps: spent.get() };
        ev!("after {} rounds: {:?}", cycle, u);
        marks.push((cycle, u));
        let grows = |f: &dyn Fn(&Use) -> f64, by: f64| marks.windows(2).all(|w| f(&w[1].1) > f(&w[0].1) * by);
        let what = if grows(&|u| u.files as f64, 1.0) {
            "open-files"
        } else if grows(&|u| u.bytes as f64, 1.0) || grows(&|u| u.blocks as f64, 1.0) {
            "memory"
        } else if !faulty && grows(&|u| u.steps as f64, 1.05) {
            "steps"
        } else {
            ""
        };
        next *= 2;
        if cycle < last && (what != "" || cycle < 32) {
            continue;
        }
        if what == "" {
            break;
        }
        // it has grown with every doubling: go on as long as that is affordable, in case it has a bound after all
        let so_far = unsafe { run::ctx() }.steps_blocks - started;
        if last < 2048 && so_far < 40_000_000 {
            last *= 2;
            count("rounds_prolonged");
            continue;
        }
        violate(
            "R01",
            what,
            format!(
                "the same work again and again takes more and more: {}",
                marks.iter().map(|(c, u)| format!("after {} rounds {} bytes in {} blocks, {} files, {} steps a round", c, u.bytes, u.blocks, u.files, u.steps)).collect::<Vec<_>>().join("; ")
            ),
        );
        return;
    }
    run::state(hash_bytes(5, first.concat().as_bytes()));
    *world() = None;
    seams::memory().track = false;
}

fn trouble() {
    let o = seams::out();
    let f = &mut vfs().faults;
    match choose(4) {
        0 => {
            o.on = true;
            o.rate = pick(&[1000, 200]);
        }
        1 => {
            f.open_err = pick(&[0, 500]);
            f.read_err = pick(&[1000, 200]);
        }
        2 => {
            f.short = 500;
            f.short_max = 20;
            f.eintr = 200;
            f.max_eintr_row = 5;
        }
        _ => calm(),
    }
}
fn calm() {
    *seams::out() = seams::Out::default();
    vfs().faults = Default::default();
}
