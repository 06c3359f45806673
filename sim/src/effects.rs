//! X01: nothing is touched but the object worked on, the file that is loaded, and standard output.
//! More link-time seams: calls with effects outside the object worked on are recorded, and refused, when the library
//! makes them; and a picture of the process-wide state that can be compared before and after a call.

use crate::choice::{choose, hash_bytes, permille, pick};
use crate::ev;
use crate::run::{self, count, effective, fault, violate};
use crate::sched::{self, raw6};
use crate::script::{self, short, Script, Step, World};
use crate::seams;
use crate::vfs::{self, vfs};
use std::ffi::CStr;

static mut EFFECTS: Vec<String> = Vec::new();
pub fn effects() -> &'static mut Vec<String> {
    unsafe { &mut *std::ptr::addr_of_mut!(EFFECTS) }
}
/// Remember that the library did this. True if it is the library that calls.
pub fn noted(what: impl FnOnce() -> String) -> bool {
    if !sched::in_lib() {
        return false;
    }
    sched::outside(|| {
        let w = what();
        ev!("  [outside] {}", w);
        count("calls_with_effects_outside");
        effects().push(w);
    });
    true
}
unsafe fn text<'a>(p: *const i8) -> &'a str {
    if p.is_null() {
        "(none)"
    } else {
        CStr::from_ptr(p).to_str().unwrap_or("(not text)")
    }
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
unsafe fn refuse(e: i32) -> i32 {
    *__errno_location() = e;
    -1
}
unsafe fn kernel(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> isize {
    let r = raw6(nr, a, b, c, d, e, 0);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// one kind of call each: (symbol, system call number, how to describe it, errno when the library calls)
macro_rules! refused {
    ($($name:ident $nr:literal $words:literal;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize) -> isize {
            if noted(|| $words.into()) {
                if $words.contains("file") {
                    vfs().rec().modifications.push($words.into());
                }
                return refuse(vfs::EPERM) as isize;
            }
            kernel($nr, a, b, c, d, e)
        }
    )*};
}
refused! {
    dup2 33 "replaces a descriptor";
    dup3 292 "replaces a descriptor";
    socket 41 "opens a socket";
    connect 42 "connects a socket";
    bind 49 "binds a socket";
    socketpair 53 "opens a pair of sockets";
    pipe 22 "opens a pipe";
    pipe2 293 "opens a pipe";
    kill 62 "sends a signal";
    setpriority 141 "changes its priority";
    umask 95 "changes the umask";
    setitimer 38 "sets a timer";
    alarm 37 "sets an alarm";
    memfd_create 319 "makes an anonymous place in memory";
    eventfd 290 "makes an event descriptor";
    inotify_init1 294 "watches storage";
    epoll_create1 291 "makes a poll descriptor";
    fchmod 91 "changes a file's mode";
    fchown 93 "changes a file's owner";
    fchdir 81 "changes the current directory";

    copy_file_range 326 "copies a file's content";
    sendfile64 40 "copies a file's content";
    sched_setaffinity 203 "changes the processors it may run on";
    mlockall 151 "locks memory";
    setsid 112 "starts a session";
    setpgid 109 "changes its process group";
    setuid 105 "changes its user";
    setgid 106 "changes its group";
}
macro_rules! refused_path {
    ($($name:ident $nr:literal $words:literal;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: *const i8, b: usize, c: usize, d: usize) -> i32 {
            if noted(|| format!("{} {}", $words, text(a))) {
                vfs().rec().modifications.push(format!("{} {}", $words, text(a)));
                return refuse(vfs::EACCES);
            }
            kernel($nr, a as usize, b, c, d, 0) as i32
        }
    )*};
}
refused_path! {
    truncate64 76 "cuts off";
    symlink 88 "makes a symbolic link to";
    link 86 "makes a link to";
    chown 92 "changes the owner of";
    lchown 94 "changes the owner of";
    chroot 161 "changes the root directory to";
    mknod 133 "makes a device";
}
#[no_mangle]
pub unsafe extern "C" fn chdir(a: *const i8) -> i32 {
    if noted(|| format!("changes the current directory to {}", text(a))) {
        return refuse(vfs::EACCES);
    }
    kernel(80, a as usize, 0, 0, 0, 0) as i32
}
macro_rules! refused_at {
    ($($name:ident $nr:literal $words:literal;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(dir: i32, a: *const i8, b: usize, c: usize, d: usize) -> i32 {
            if noted(|| format!("{} {}", $words, text(a))) {
                vfs().rec().modifications.push(format!("{} {}", $words, text(a)));
                return refuse(vfs::EACCES);
            }
            kernel($nr, dir as usize, a as usize, b, c, d) as i32
        }
    )*};
}
refused_at! {
    unlinkat 263 "deletes";
    mkdirat 258 "makes a directory";
    linkat 265 "makes a link to";
    renameat 264 "renames";
    renameat2 316 "renames";
    fchmodat 268 "changes the mode of";
    fchownat 260 "changes the owner of";
    utimensat 280 "changes the times of";
    mkfifoat 259 "makes a pipe";
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(to: *const i8, dir: i32, a: *const i8) -> i32 {
    if noted(|| format!("makes a symbolic link {}", text(a))) {
        vfs().rec().modifications.push(format!("symlink {}", text(a)));
        return refuse(vfs::EACCES);
    }
    kernel(266, to as usize, dir as usize, a as usize, 0, 0) as i32
}

// the C library's own functions, when it is not the library under test that calls
macro_rules! next {
    ($name:literal, $t:ty) => {{
        static mut F: usize = 0;
        if F == 0 {
            F = dlsym(usize::MAX as *mut u8, concat!($name, "\0").as_ptr()) as usize;
        }
        std::mem::transmute::<usize, $t>(F)
    }};
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u8, a: *const u8, f: usize, x: *mut u8) -> i32 {
    if noted(|| "starts a thread".into()) {
        return vfs::EAGAIN;
    }
    let f0: unsafe extern "C" fn(*mut u8, *const u8, usize, *mut u8) -> i32 =
        next!("pthread_create", unsafe extern "C" fn(*mut u8, *const u8, usize, *mut u8) -> i32);
    f0(t, a, f, x)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(n: *const i8, v: *const i8, o: i32) -> i32 {
    if noted(|| format!("sets the environment variable {}", text(n))) {
        return 0;
    }
    next!("setenv", unsafe extern "C" fn(*const i8, *const i8, i32) -> i32)(n, v, o)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(n: *const i8) -> i32 {
    if noted(|| format!("removes the environment variable {}", text(n))) {
        return 0;
    }
    next!("unsetenv", unsafe extern "C" fn(*const i8) -> i32)(n)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(a: *const i8) -> *mut u8 {
    if noted(|| format!("lists the directory {}", text(a))) {
        refuse(vfs::EACCES);
        return std::ptr::null_mut();
    }
    next!("opendir", unsafe extern "C" fn(*const i8) -> *mut u8)(a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(a: usize, p: *const i8, c: usize, d: usize, e: usize, f: usize) -> i32 {
    if noted(|| format!("starts the program {}", text(p))) {
        return vfs::EAGAIN;
    }
    next!("posix_spawnp", unsafe extern "C" fn(usize, *const i8, usize, usize, usize, usize) -> i32)(a, p, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(a: *const i8, b: usize, c: usize, d: usize) -> i32 {
    if noted(|| format!("looks up the host {}", text(a))) {
        return -4;
    }
    next!("getaddrinfo", unsafe extern "C" fn(*const i8, usize, usize, usize) -> i32)(a, b, c, d)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> i32 {
    if noted(|| "starts a process".into()) {
        return refuse(vfs::EAGAIN);
    }
    next!("fork", unsafe extern "C" fn() -> i32)()
}
#[no_mangle]
pub unsafe extern "C" fn signal(s: i32, h: usize) -> usize {
    noted(|| format!("changes the handling of signal {}", s));
    next!("signal", unsafe extern "C" fn(i32, usize) -> usize)(s, h)
}
/// A system call made by number.
pub fn by_number(n: i64) {
    const KNOWN: [i64; 30] = [
        0, 1, 3, 5, 8, 9, 10, 11, 12, 13, 14, 16, 20, 24, 25, 28, 35, 39, 63, 72, 79, 96, 102, 186, 201, 202, 204, 228, 318, 332,
    ];
    if !KNOWN.contains(&n) {
        noted(|| format!("system call {}", n));
    }
}

// ---------------------------------------------------------------- the process

extern "C" {
    static environ: *const *const i8;
}

/// Everything about the process that one of its parts can change for the others.
fn process() -> Vec<(&'static str, String)> {
    unsafe {
        let mut out = vec![];
        let mut h = 5;
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            h = hash_bytes(h, CStr::from_ptr(*p).to_bytes());
            p = p.add(1);
        }
        out.push(("environment", format!("{:x}", h)));
        let mut b = [0u8; 512];
        let n = raw6(79, b.as_mut_ptr() as usize, b.len(), 0, 0, 0, 0);
        out.push(("current directory", format!("{} {:x}", n, hash_bytes(1, &b))));
        let m = raw6(95, 0o22, 0, 0, 0, 0, 0);
        raw6(95, m as usize, 0, 0, 0, 0, 0);
        out.push(("umask", format!("{:o}", m)));
        let mut h = 7;
        for s in 1..=64usize {
            let mut a = [0u8; 32];
            raw6(13, s, 0, a.as_mut_ptr() as usize, 8, 0, 0);
            h = hash_bytes(h, &a);
        }
        out.push(("signal handlers", format!("{:x}", h)));
        let mut mask = 0u64;
        raw6(14, 0, 0, &mut mask as *mut u64 as usize, 8, 0, 0);
        out.push(("signal mask", format!("{:x}", mask)));
        let mut h = 9;
        for r in 0..16usize {
            let mut l = [0u64; 2];
            raw6(302, 0, r, 0, l.as_mut_ptr() as usize, 0, 0);
            h = hash_bytes(h, format!("{:?}", l).as_bytes());
        }
        out.push(("limits", format!("{:x}", h)));
        for w in 0..3usize {
            let mut t = [0u64; 4];
            raw6(36, w, t.as_mut_ptr() as usize, 0, 0, 0, 0);
            out.push(("timers", format!("{}", t != [0; 4])));
        }
        for fd in 0..24usize {
            out.push(("descriptors", format!("{} {}", raw6(72, fd, 1, 0, 0, 0, 0), raw6(72, fd, 3, 0, 0, 0, 0))));
        }
        out.push(("priority", format!("{}", raw6(140, 0, 0, 0, 0, 0, 0))));
        out.push(("dumpable", format!("{}", raw6(157, 3, 0, 0, 0, 0, 0))));
        let mut name = [0u8; 16];
        raw6(157, 16, name.as_mut_ptr() as usize, 0, 0, 0, 0);
        out.push(("thread name", format!("{:?}", name)));
        let mut csr = 0u32;
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut csr);
        // (the low six bits only say what has happened)
        out.push(("floating-point mode", format!("{:x}", csr & !0x3f)));
        out.push(("panic hook", format!("{}", sched::hook_is_ours())));
        out
    }
}

// ---------------------------------------------------------------- X01

struct Ptr<T>(*mut T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0 }
    }
}

pub fn run_effects() {
    let len = pick(&[12u32, 4, 30, 60]);
    let s = script::generate(len, 0, false);
    let text = crate::env_sim::surroundings();
    let p_out = pick(&[0u32, 200, 600]);
    let p_disk = pick(&[0u32, 300]);
    let worn = if permille(40) { pick(&[300u32, 3000, 20_000]) } else { 0 };
    let kind = choose(6);
    ev!("{} steps, {}", s.steps.len(), text);
    let mut found: Option<(String, String)> = None;
    let (o, p) = (Ptr(&mut found), Ptr(&s as *const Script as *mut Script));
    sched::run_one(move || {
        let (found, s) = (o.get(), p.get());
        seams::fix_entropy(1 + choose(1 << 16) as u64);
        effects().clear();
        let mut w = World::new(None);
        let mut at = process();
        if worn > 0 {
            ev!("{} times the same before (kind {})", worn, kind);
            fault("much_earlier_work");
            crate::env_sim::wear(kind, worn, &s.files);
            if let Some(x) = touched(s.files.first().map(|f| f.as_str()), &at) {
                *found = Some(("earlier work".into(), x));
                return;
            }
            at = process();
        }
        for (i, st) in s.steps.iter().enumerate() {
            if permille(p_out) {
                let k = choose(7);
                script::shake(k);
                fault("stdout_state_changed");
            }
            if p_disk > 0 {
                let f = &mut vfs().faults;
                let on = permille(p_disk);
                f.open_err = if on { 300 } else { 0 };
                f.read_err = if on { 300 } else { 0 };
                f.short = if on { 300 } else { 0 };
                f.short_max = 40;
                f.eintr = if on { 200 } else { 0 };
                f.max_eintr_row = 3;
                f.meta_err = if on { 200 } else { 0 };
            }
            vfs().recs.clear();
            vfs().opened.clear();
            let r = w.step(st, &s.files);
            ev!("step {} {:?}: {}", i, st, short(&r));
            effective();
            let file = match st {
                Step::Load(k) => Some(s.files[*k].as_str()),
                _ => None,
            };
            if let Some(x) = touched(file, &at) {
                *found = Some((format!("step {} {:?} ({})", i, st, short(&r)), x));
                return;
            }
            run::state(hash_bytes(13, r.as_bytes()));
        }
    });
    *seams::out() = seams::Out::default();
    if let Some((step, what)) = found {
        violate("X01", "effect", format!("{}: {} (surroundings: {})", step, what, text));
    }
}

/// What, if anything, has been touched that should not have been.
fn touched(file: Option<&str>, before: &[(&'static str, String)]) -> Option<String> {
    if let Some(e) = effects().first() {
        return Some(e.clone());
    }
    let v = vfs();
    for r in v.recs.values() {
        if let Some(m) = r.modifications.first() {
            return Some(m.clone());
        }
    }
    for o in &v.opened {
        let other = match file {
            Some(f) => {
                let plain: Vec<&str> = o.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
                let want: Vec<&str> = f.split('/').filter(|c| !c.is_empty()).collect();
                plain != want
            }
            None => true,
        };
        if other && !["/proc/", "/sys/"].iter().any(|p| o.starts_with(p)) {
            return Some(format!("opens {}", o));
        }
    }
    let now = process();
    for (a, b) in before.iter().zip(&now) {
        if a != b {
            return Some(format!("changes the {} of the process ({} -> {})", a.0, a.1, b.1));
        }
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: i32, t: usize) -> i32 {
    if noted(|| "changes a file's times".into()) {
        vfs().rec().modifications.push("changes a file's times".into());
        return refuse(vfs::EPERM);
    }
    kernel(280, fd as usize, 0, t, 0, 0) as i32
}
