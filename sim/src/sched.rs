//! Cooperative scheduler for real threads: exactly one is runnable at any time, and who runs next is a choice.
//! Preemption points are the basic blocks and allocations of the library (while `IN_LIB`), futex operations,
//! I/O calls and explicit yields.

use crate::choice::{choose, hash_bytes, permille};
use crate::run::{self, ctx};
use std::arch::{asm, global_asm};
use std::sync::atomic::{AtomicU32, Ordering};

// sancov call-back: marks coverage and counts down to the next preemption point, only inside library calls.
global_asm!(
    r#"
.globl __sanitizer_cov_trace_pc_guard
.p2align 4
__sanitizer_cov_trace_pc_guard:
    cmp byte ptr [rip + KSIM_IN_LIB], 0
    je 2f
    mov eax, dword ptr [rdi]
    and eax, 0xfffff
    lea rcx, [rip + KSIM_COV]
    mov byte ptr [rcx + rax], 1
    dec qword ptr [rip + KSIM_COUNT]
    jz ksim_block_slow
2:
    ret
"#
);

#[no_mangle]
pub static mut KSIM_IN_LIB: u8 = 0;
#[no_mangle]
pub static mut KSIM_COUNT: i64 = i64::MAX;
#[no_mangle]
pub static mut KSIM_COV: [u8; 1 << 20] = [0; 1 << 20];
static mut GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        if *a == 0 {
            GUARDS += 1;
            *a = GUARDS;
        }
        a = a.add(1);
    }
}
pub fn guards() -> u32 {
    unsafe { GUARDS }
}

/// Basic blocks one library call may execute before it counts as not terminating.
/// Bytes taken and not given back inside library calls.
pub static mut LIB_BYTES: i64 = 0;
pub const STEP_LIMIT: u64 = 60_000_000;
const CHUNK: i64 = 1 << 20;

pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

fn park(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        unsafe { raw6(202, w as *const _ as usize, 128, 0, 0, 0, 0) };
    }
}
fn unpark(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    unsafe { raw6(202, w as *const _ as usize, 129, 1, 0, 0, 0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    /// waiting on a futex word, optionally with a deadline
    Futex(usize, Option<u64>),
    Sleeping(u64),
    Done,
}

struct Task {
    st: St,
    word: Box<AtomicU32>,
    timed_out: bool,
}

struct Sched {
    tasks: Vec<Task>,
    current: Option<usize>,
    main: AtomicU32,
    ready: AtomicU32,
    preempt: bool,
    mean_shift: u32,
    countdown: i64,
    call_steps: u64,
    long_call: u32,
    memory_then: i64,
    next_is_preempt: bool,
    now_us: u64,
    blocked_forever: bool,
}

static mut S: Sched = Sched {
    tasks: Vec::new(),
    current: None,
    main: AtomicU32::new(0),
    ready: AtomicU32::new(0),
    preempt: false,
    mean_shift: 8,
    countdown: 0,
    call_steps: 0,
    long_call: 0,
    memory_then: 0,
    next_is_preempt: false,
    now_us: 0,
    blocked_forever: false,
};
unsafe fn s() -> &'static mut Sched {
    &mut *std::ptr::addr_of_mut!(S)
}

pub fn in_lib() -> bool {
    unsafe { KSIM_IN_LIB != 0 }
}
/// Is the calling code running as a simulated task (the baton is with a task)?
pub fn in_task() -> bool {
    unsafe { s().current.is_some() }
}
pub fn current() -> usize {
    unsafe { s().current.unwrap_or(usize::MAX) }
}
pub fn now_us() -> u64 {
    unsafe { s().now_us }
}
pub fn advance(us: u64) {
    unsafe {
        s().now_us += us;
        ctx().sim_time_us += us;
    }
}

/// Run `f` with the library-call flag off (harness code called from inside a library call).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let p = KSIM_IN_LIB;
        KSIM_IN_LIB = 0;
        let r = f();
        KSIM_IN_LIB = p;
        r
    }
}

static mut PANIC_MSG: String = String::new();
static mut HOOK_RAN: bool = false;
/// Is the panic hook the one installed here?
pub fn hook_is_ours() -> bool {
    unsafe {
        HOOK_RAN = false;
        let _ = std::panic::catch_unwind(|| std::panic::panic_any("probe"));
        HOOK_RAN
    }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| unsafe {
        KSIM_IN_LIB = 0;
        HOOK_RAN = true;
        let msg = if let Some(m) = info.payload().downcast_ref::<&str>() {
            m.to_string()
        } else if let Some(m) = info.payload().downcast_ref::<String>() {
            m.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!(" at {}:{}", f, l.line())
            })
            .unwrap_or_default();
        if std::env::var("KSIM_BT").is_ok() {
            let s = format!("panic: {}{}\n{}\n", msg, loc, std::backtrace::Backtrace::force_capture());
            raw6(1, 2, s.as_ptr() as usize, s.len(), 0, 0, 0);
        }
        PANIC_MSG = format!("{}{}", msg, loc);
    }));
}

/// Call into the library. A panic comes back as Err(message).
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    unsafe {
        arm();
        s().call_steps = 0;
        s().long_call = 0;
        KSIM_IN_LIB = 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        KSIM_IN_LIB = 0;
        disarm();
        r.map_err(|_| std::mem::take(&mut *std::ptr::addr_of_mut!(PANIC_MSG)))
    }
}

unsafe fn arm() {
    let q = s();
    if q.preempt && q.countdown <= CHUNK {
        q.next_is_preempt = true;
        KSIM_COUNT = q.countdown.max(1);
    } else {
        q.next_is_preempt = false;
        KSIM_COUNT = CHUNK;
    }
    ARMED = KSIM_COUNT;
}
static mut ARMED: i64 = 0;
unsafe fn account() {
    let used = (ARMED - KSIM_COUNT).max(0);
    ARMED = KSIM_COUNT;
    let q = s();
    q.call_steps += used as u64;
    ctx().steps_blocks += used as u64;
    if q.preempt {
        q.countdown -= used;
    }
}
unsafe fn disarm() {
    account();
}

fn draw_distance() -> i64 {
    // log-uniform distances: sometimes dense, sometimes rare preemption
    unsafe {
        // (when all choices are used up, or a call works on and on, only a few)
        if s().long_call != 0 || ctx().ch.log.len() >= crate::choice::MAX_CHOICES {
            return 1 << 20;
        }
        let sh = 1 + choose(s().mean_shift);
        (1 + choose(1 << sh)) as i64
    }
}

/// Called from the assembly above when the countdown reaches zero, and from the allocator.
#[no_mangle]
pub unsafe extern "C" fn ksim_block_slow() {
    KSIM_IN_LIB = 0;
    account();
    let q = s();
    if q.call_steps > STEP_LIMIT {
        // A graph of edges which all but coincide can grow with every request, and the work with it. So look where
        // a call that takes long is going: a call that is stuck keeps nothing, or heaps up memory without end.
        if q.long_call == 0 {
            q.long_call = 1;
            q.memory_then = LIB_BYTES;
        }
        let more = LIB_BYTES - q.memory_then;
        if q.call_steps > 10 * STEP_LIMIT || more > 100 << 20 {
            if (64 << 10..100 << 20).contains(&more) {
                run::count("runs_given_up_as_the_graph_outgrew_them");
                crate::give_up();
            }
            crate::fatal(
                "no-progress",
                &format!("a library call executed more than {} basic blocks without returning", STEP_LIMIT),
            );
        }
    }
    if q.next_is_preempt && q.preempt && q.current.is_some() {
        let steps = q.call_steps;
        let long = (q.long_call, q.memory_then);
        q.countdown = draw_distance();
        let c = ctx().counters.get("context_switches").copied();
        reschedule("preempt");
        if ctx().counters.get("context_switches").copied() != c {
            PREEMPTIONS += 1;
            run::count("switches_inside_library_calls");
        }
        s().call_steps = steps;
        (s().long_call, s().memory_then) = long;
    }
    arm();
    KSIM_IN_LIB = 1;
}

/// Allocation inside a library call: a preemption point of its own.
#[inline]
pub fn alloc_point() {
    unsafe {
        if KSIM_IN_LIB != 0 && s().preempt {
            KSIM_COUNT -= 1;
            if KSIM_COUNT <= 0 {
                ksim_block_slow();
            }
        }
    }
}

static mut PREEMPTIONS: u64 = 0;
/// Switches that happened inside library calls so far in this run.
pub fn preemptions() -> u64 {
    unsafe { PREEMPTIONS }
}

fn note_switch(to: usize, why: &str) {
    unsafe {
        let c = ctx();
        c.schedule_hash = hash_bytes(c.schedule_hash, &[to as u8]);
        c.schedule_hash = hash_bytes(c.schedule_hash, &c.steps_blocks.to_le_bytes());
        run::count("context_switches");
        crate::ev!("  [sched] -> task {} ({}, block {})", to, why, c.steps_blocks);
    }
}

/// A scheduling point: maybe let another runnable task go first. Call with IN_LIB off.
pub fn reschedule(why: &'static str) {
    unsafe {
        let q = s();
        let cur = match q.current {
            Some(c) => c,
            None => return,
        };
        let others: Vec<usize> =
            (0..q.tasks.len()).filter(|&i| i != cur && q.tasks[i].st == St::Runnable).collect();
        if others.is_empty() {
            return;
        }
        let k = choose(others.len() as u32 + 1) as usize;
        if k > 0 {
            switch_to(others[k - 1], why);
        }
    }
}

unsafe fn switch_to(t: usize, why: &'static str) {
    let q = s();
    let me = q.current.unwrap();
    note_switch(t, why);
    let long = (q.long_call, q.memory_then);
    let (steps, armed, cnt, flag, pend) = (q.call_steps, ARMED, KSIM_COUNT, KSIM_IN_LIB, q.next_is_preempt);
    KSIM_IN_LIB = 0;
    q.current = Some(t);
    unpark(&q.tasks[t].word);
    park(&q.tasks[me].word);
    let q = s();
    q.call_steps = steps;
    (q.long_call, q.memory_then) = long;
    ARMED = armed;
    KSIM_COUNT = cnt;
    KSIM_IN_LIB = flag;
    q.next_is_preempt = pend;
}

/// Pick a runnable task other than the (blocked or finished) current one; advance time if all sleep.
unsafe fn pick_next() -> Option<usize> {
    loop {
        let q = s();
        let r: Vec<usize> = (0..q.tasks.len()).filter(|&i| q.tasks[i].st == St::Runnable).collect();
        if !r.is_empty() {
            return Some(r[choose(r.len() as u32) as usize]);
        }
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in q.tasks.iter().enumerate() {
            let dl = match t.st {
                St::Sleeping(d) => Some(d),
                St::Futex(_, Some(d)) => Some(d),
                _ => None,
            };
            if let Some(d) = dl {
                if best.map_or(true, |b| (d, i) < b) {
                    best = Some((d, i));
                }
            }
        }
        match best {
            None => return None,
            Some((d, i)) => {
                if d > q.now_us {
                    let by = d - q.now_us;
                    advance(by);
                }
                let q = s();
                if let St::Futex(..) = q.tasks[i].st {
                    q.tasks[i].timed_out = true;
                }
                q.tasks[i].st = St::Runnable;
            }
        }
    }
}

unsafe fn block(why: &'static str) {
    let q = s();
    let me = q.current.unwrap();
    match pick_next() {
        None => {
            let w: Vec<String> =
                s().tasks.iter().enumerate().map(|(i, t)| format!("task {} {:?}", i, kind(t.st))).collect();
            s().blocked_forever = true;
            crate::fatal("deadlock", &format!("no task can run: {}", w.join(", ")));
        }
        Some(t) if t == me => {}
        Some(t) => switch_to(t, why),
    }
}
fn kind(s: St) -> &'static str {
    match s {
        St::Runnable => "runnable",
        St::Futex(..) => "waits for a lock",
        St::Sleeping(_) => "sleeps",
        St::Done => "finished",
    }
}

/// Let the current task sleep in simulated time. Call with IN_LIB off.
pub fn sleep_us(us: u64) {
    unsafe {
        if s().current.is_none() {
            return;
        }
        let me = s().current.unwrap();
        let until = s().now_us + us;
        s().tasks[me].st = St::Sleeping(until);
        block("sleep");
    }
}

/// FUTEX_WAIT by a task. Returns 0, -EAGAIN or -ETIMEDOUT.
pub unsafe fn futex_wait(addr: usize, val: u32, timeout_us: Option<u64>) -> isize {
    if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
        return -11;
    }
    let q = s();
    let me = q.current.unwrap();
    let dl = timeout_us.map(|t| q.now_us + t);
    q.tasks[me].st = St::Futex(addr, dl);
    q.tasks[me].timed_out = false;
    run::count("lock_waits");
    block("lock");
    if s().tasks[me].timed_out {
        -110
    } else {
        0
    }
}
pub unsafe fn futex_wake(addr: usize, n: u32) -> isize {
    let mut woken = 0;
    loop {
        let q = s();
        let w: Vec<usize> = (0..q.tasks.len())
            .filter(|&i| matches!(q.tasks[i].st, St::Futex(a, _) if a == addr))
            .collect();
        if w.is_empty() || woken >= n {
            return woken as isize;
        }
        let k = w[choose(w.len() as u32) as usize];
        s().tasks[k].st = St::Runnable;
        woken += 1;
    }
}

pub struct Config {
    /// preempt inside library calls
    pub preempt: bool,
    /// distances between preemptions are below 2^(1+mean_shift)
    pub mean_shift: u32,
    /// the threads' name
    pub name: Option<&'static str>,
}

/// Run the tasks to completion under the scheduler. A panic escaping a task is a harness error.
pub fn run_tasks(cfg: Config, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        let q = s();
        q.tasks.clear();
        for _ in 0..bodies.len() {
            q.tasks.push(Task { st: St::Runnable, word: Box::new(AtomicU32::new(0)), timed_out: false });
        }
        q.preempt = cfg.preempt;
        q.mean_shift = cfg.mean_shift;
        q.call_steps = 0;
        q.long_call = 0;
        q.countdown = if cfg.preempt { draw_distance() } else { 0 };
        q.ready.store(0, Ordering::SeqCst);
        q.main.store(0, Ordering::SeqCst);
        q.current = None;
        let mut handles = Vec::new();
        for (i, b) in bodies.into_iter().enumerate() {
            let word: &'static AtomicU32 = &*(&*q.tasks[i].word as *const AtomicU32);
            let mut thread = std::thread::Builder::new().stack_size(4 << 20);
            if let Some(name) = cfg.name {
                thread = thread.name(name.to_string());
            }
            handles.push(Some(
                thread
                    .spawn(move || {
                        unpark(&s().ready);
                        park(word);
                        b();
                        let q = s();
                        q.tasks[i].st = St::Done;
                        q.current = None;
                        unpark(&q.main);
                    })
                    .unwrap(),
            ));
            // threads start one after another, so that start-up code never runs beside a task
            park(&s().ready);
        }
        loop {
            let next = pick_next();
            match next {
                Some(t) => {
                    note_switch(t, "start");
                    s().current = Some(t);
                    unpark(&s().tasks[t].word);
                    park(&s().main);
                    // join whoever finished, so that thread exit code never runs beside a task either
                    for i in 0..s().tasks.len() {
                        if s().tasks[i].st == St::Done {
                            if let Some(h) = handles[i].take() {
                                if h.join().is_err() {
                                    crate::harness_error("a simulated task panicked outside the library");
                                }
                            }
                        }
                    }
                }
                None => {
                    if s().tasks.iter().all(|t| t.st == St::Done) {
                        break;
                    }
                    crate::fatal("deadlock", "some task never becomes runnable again");
                }
            }
        }
        s().tasks.clear();
        s().preempt = false;
    }
}

/// Run one body as a task on a fresh thread.
pub fn run_one(body: impl FnOnce() + Send + 'static) {
    run_named(None, body);
}
pub fn run_named(name: Option<&'static str>, body: impl FnOnce() + Send + 'static) {
    run_tasks(Config { preempt: false, mean_shift: 8, name }, vec![Box::new(body)]);
}

pub fn reset_clock() {
    unsafe { s().now_us = 1_600_000_000_000_000 };
}

#[allow(dead_code)]
pub fn maybe_yield(p: u32) {
    if permille(p) {
        reschedule("yield");
    }
}
