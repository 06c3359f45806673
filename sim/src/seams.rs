//! Link-time seams: these definitions take the place of libc's for the whole executable, the library under test
//! included. Outside a simulated library call they pass straight through to the kernel.

use crate::choice::{choose, permille, Rng};
use crate::run::{count, fault};
use crate::sched::{self, raw6};
use crate::vfs;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CStr;

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- standard output

#[derive(Clone, Default)]
pub struct Out {
    pub on: bool,
    /// permille of writes that meet a fault
    pub rate: u32,
    /// after this many writes stdout stays broken with `sticky_errno`
    pub break_after: Option<u32>,
    pub sticky_errno: i32,
    pub writes: u32,
    pub failed: u32,
    pub eintr_row: u32,
    /// permille of writes that take long (without failing)
    pub stall: u32,
    /// failures since something was last written
    pub row: u32,
    /// it is a terminal, this wide
    pub terminal: Option<u16>,
    /// how it was opened
    pub flags: i32,
}
static mut OUT: Out =
    Out { on: false, rate: 0, break_after: None, sticky_errno: 5, writes: 0, failed: 0, eintr_row: 0, stall: 0, row: 0, terminal: None, flags: 1 };
pub fn out() -> &'static mut Out {
    unsafe { &mut *std::ptr::addr_of_mut!(OUT) }
}
/// Worker processes never let anything reach the real stdout.
pub static mut SWALLOW: bool = false;

fn std_write(fd: i32, n: usize) -> isize {
    let r = std_write_inner(fd, n);
    let o = out();
    o.row = if r > 0 { 0 } else { o.row + 1 };
    if o.row > 20_000 {
        crate::fatal("no-progress", "a library call keeps writing to a standard output that keeps failing");
    }
    r
}
fn std_write_inner(fd: i32, n: usize) -> isize {
    let o = out();
    o.writes += 1;
    count("stdout_writes");
    if permille(o.stall) {
        fault("stdout_stalled");
        let us = 1 + choose(1_000_000) as u64;
        sched::sleep_us(us);
        return n as isize;
    }
    // (the diagnostics of panics that are caught go to standard error, which stays as it is)
    if !o.on || fd == 2 {
        return n as isize;
    }
    if let Some(k) = o.break_after {
        if o.writes > k {
            o.failed += 1;
            fault(match o.sticky_errno {
                vfs::EPIPE => "stdout_broken_pipe",
                vfs::ENOSPC => "stdout_full",
                vfs::EBADF => "stdout_closed",
                vfs::EAGAIN => "stdout_not_ready",
                _ => "stdout_EIO",
            });
            crate::ev!("  [out] write fd {} {} bytes -> errno {} (stays broken)", fd, n, o.sticky_errno);
            return -(o.sticky_errno as isize);
        }
    }
    if !permille(o.rate) {
        return n as isize;
    }
    let (r, what): (isize, &'static str) = match choose(9) {
        0 => (1 + choose(n.max(1) as u32) as isize, "stdout_short_write"),
        1 if o.eintr_row < 20 => (-(vfs::EINTR as isize), "stdout_EINTR"),
        2 => (-(vfs::EAGAIN as isize), "stdout_not_ready"),
        3 => (-(vfs::EIO as isize), "stdout_EIO"),
        4 => (-(vfs::ENOSPC as isize), "stdout_full"),
        5 => (-(vfs::EPIPE as isize), "stdout_broken_pipe"),
        6 => (-(vfs::EBADF as isize), "stdout_closed"),
        7 => (0, "stdout_wrote_nothing"),
        _ => {
            fault("stdout_stalled");
            let us = 1 + choose(1_000_000) as u64;
            sched::sleep_us(us);
            return n as isize;
        }
    };
    if r == -(vfs::EINTR as isize) {
        o.eintr_row += 1
    } else {
        o.eintr_row = 0
    }
    let r = r.min(n as isize);
    if r <= 0 {
        o.failed += 1;
    }
    fault(what);
    crate::ev!("  [out] write fd {} {} bytes -> {} ({})", fd, n, r, what);
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 1 || fd == 2 {
        if sched::in_lib() {
            return ret(sched::outside(|| {
                sched::reschedule("stdout");
                std_write(fd, n)
            }));
        }
        if fd == 1 && SWALLOW {
            return n as isize;
        }
    } else if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| vfs::write(fd, std::slice::from_raw_parts(buf, n))));
    }
    if crate::effects::noted(|| format!("writes to descriptor {}", fd)) {
        return n as isize;
    }
    ret(raw6(1, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if sched::in_lib() && (0..3).contains(&fd) {
        return sched::outside(|| {
            count("terminal_asked");
            match out().terminal {
                Some(_) => 1,
                None => {
                    *__errno_location() = 25;
                    0
                }
            }
        });
    }
    (raw6(16, fd as usize, 0x5401, [0u32; 32].as_mut_ptr() as usize, 0, 0, 0) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: i32, req: u64, arg: usize) -> i32 {
    if sched::in_lib() && (0..3).contains(&fd) {
        return sched::outside(|| match (req, out().terminal) {
            (0x5401, Some(_)) => 0,
            (0x5413, Some(w)) => {
                count("terminal_asked");
                *(arg as *mut [u16; 4]) = [24, w, 0, 0];
                0
            }
            _ => {
                *__errno_location() = 25;
                -1
            }
        });
    }
    ret(raw6(16, fd as usize, req as usize, arg, 0, 0, 0)) as i32
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, n: i32) -> isize {
    if fd == 1 || fd == 2 || fd >= vfs::FD_BASE {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len == 0 {
                continue;
            }
            let r = write(fd, v.base, v.len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.len {
                break;
            }
        }
        return total;
    }
    ret(raw6(20, fd as usize, iov as usize, n as usize, 0, 0, 0))
}

// ---------------------------------------------------------------- files

unsafe fn simulated<'a>(path: *const i8) -> Option<&'a str> {
    let s = CStr::from_ptr(path).to_str().ok()?;
    // whatever the library itself opens or touches, wherever it is, stays inside the simulation
    if s.starts_with(vfs::ROOT) || sched::in_lib() {
        Some(s)
    } else {
        None
    }
}

unsafe fn open_impl(path: *const i8, flags: i32, mode: u32) -> i32 {
    if let Some(s) = simulated(path) {
        return ret(sched::outside(|| vfs::open(s, flags))) as i32;
    }
    ret(raw6(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_impl(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    if simulated(path).is_some() {
        return open_impl(path, flags, mode);
    }
    ret(raw6(257, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| {
            vfs::read_at(fd, n, None, &mut |c| std::ptr::copy_nonoverlapping(c.as_ptr(), buf, c.len()))
        }));
    }
    if crate::effects::noted(|| format!("reads from descriptor {}", fd)) {
        return 0;
    }
    ret(raw6(0, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| {
            vfs::read_at(fd, n, Some(off as usize), &mut |c| {
                std::ptr::copy_nonoverlapping(c.as_ptr(), buf, c.len())
            })
        }));
    }
    ret(raw6(17, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, n: i32) -> isize {
    if fd >= vfs::FD_BASE {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return read(fd, v.base, v.len);
            }
        }
        return 0;
    }
    ret(raw6(19, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| vfs::close(fd))) as i32;
    }
    if crate::effects::noted(|| format!("closes descriptor {}", fd)) {
        return 0;
    }
    ret(raw6(3, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| vfs::seek(fd, off, whence))) as i64;
    }
    ret(raw6(8, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}

/// struct stat of x86-64 Linux
unsafe fn fill_stat(b: *mut u8, s: &vfs::Stat) {
    std::ptr::write_bytes(b, 0, 144);
    *(b as *mut u64) = 77; // st_dev
    *(b.add(8) as *mut u64) = s.ino;
    *(b.add(16) as *mut u64) = 1;
    *(b.add(24) as *mut u32) = 0o100644;
    *(b.add(48) as *mut u64) = s.size;
    *(b.add(56) as *mut u64) = 4096;
    *(b.add(64) as *mut u64) = (s.size + 511) / 512;
    *(b.add(88) as *mut i64) = s.mtime;
}
unsafe fn do_stat(w: vfs::Which, b: *mut u8) -> i32 {
    match sched::outside(|| vfs::stat(w)) {
        Ok(s) => {
            fill_stat(b, &s);
            0
        }
        Err(e) => ret(-(e as isize)) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
    if fd >= vfs::FD_BASE {
        return do_stat(vfs::Which::Fd(fd), b);
    }
    ret(raw6(5, fd as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, b: *mut u8) -> i32 {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const i8, b: *mut u8) -> i32 {
    if let Some(s) = simulated(path) {
        return do_stat(vfs::Which::Path(s), b);
    }
    ret(raw6(4, path as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const i8, b: *mut u8) -> i32 {
    stat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const i8, b: *mut u8) -> i32 {
    if let Some(s) = simulated(path) {
        return do_stat(vfs::Which::Path(s), b);
    }
    ret(raw6(6, path as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, b: *mut u8) -> i32 {
    let w = if !path.is_null() && *path != 0 {
        simulated(path).map(vfs::Which::Path)
    } else if dir >= vfs::FD_BASE {
        Some(vfs::Which::Fd(dir))
    } else {
        None
    };
    if let Some(w) = w {
        return match sched::outside(|| vfs::stat(w)) {
            Ok(s) => {
                std::ptr::write_bytes(b, 0, 256);
                *(b as *mut u32) = 0x7ff; // stx_mask
                *(b.add(4) as *mut u32) = 4096;
                *(b.add(16) as *mut u32) = 1; // nlink
                *(b.add(28) as *mut u16) = 0o100644;
                *(b.add(32) as *mut u64) = s.ino;
                *(b.add(40) as *mut u64) = s.size;
                *(b.add(48) as *mut u64) = (s.size + 511) / 512;
                *(b.add(112) as *mut i64) = s.mtime;
                0
            }
            Err(e) => ret(-(e as isize)) as i32,
        };
    }
    ret(raw6(332, dir as usize, path as usize, flags as usize, mask as usize, b as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd >= vfs::FD_BASE {
        return match cmd {
            0 | 1030 => ret(sched::outside(|| vfs::dup(fd))) as i32,
            _ => 0,
        };
    }
    if (cmd == 3 || cmd == 4) && (0..3).contains(&fd) && sched::in_lib() {
        let o = out();
        if cmd == 3 {
            return o.flags;
        }
        if arg as i32 != o.flags {
            crate::effects::noted(|| format!("changes the flags of descriptor {} from {:o} to {:o}", fd, o.flags, arg));
            o.flags = arg as i32;
        }
        return 0;
    }
    if cmd != 1 && cmd != 3 && crate::effects::noted(|| format!("changes descriptor {} (fcntl {})", fd, cmd)) {
        return ret(-(vfs::EPERM as isize)) as i32;
    }
    ret(raw6(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as i32
}
unsafe fn path_mod(nr: i64, what: &'static str, path: *const i8, a: usize) -> i32 {
    if let Some(s) = simulated(path) {
        return ret(sched::outside(|| vfs::modify(what, s))) as i32;
    }
    ret(raw6(nr, path as usize, a, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const i8) -> i32 {
    path_mod(87, "unlink", path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const i8) -> i32 {
    path_mod(84, "rmdir", path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const i8, mode: u32) -> i32 {
    path_mod(83, "mkdir", path, mode as usize)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const i8, mode: u32) -> i32 {
    path_mod(90, "chmod", path, mode as usize)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    if let (Some(x), Some(y)) = (simulated(a), simulated(b)) {
        return ret(sched::outside(|| vfs::rename(x, y))) as i32;
    }
    ret(raw6(82, a as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if fd >= vfs::FD_BASE {
        return sched::outside(|| {
            vfs::modify("ftruncate", "");
            0
        });
    }
    ret(raw6(77, fd as usize, n as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| vfs::fsync(fd))) as i32;
    }
    ret(raw6(74, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const i8, mode: i32) -> i32 {
    if let Some(s) = simulated(path) {
        return match sched::outside(|| vfs::stat(vfs::Which::Path(s))) {
            Ok(_) => 0,
            Err(e) => ret(-(e as isize)) as i32,
        };
    }
    ret(raw6(21, path as usize, mode as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: i32) -> i32 {
    if fd >= vfs::FD_BASE {
        return ret(sched::outside(|| vfs::dup(fd))) as i32;
    }
    if crate::effects::noted(|| format!("duplicates descriptor {}", fd)) {
        return ret(-(vfs::EMFILE as isize)) as i32;
    }
    ret(raw6(32, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if fd >= vfs::FD_BASE {
        return 0;
    }
    ret(raw6(73, fd as usize, op as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(_fd: i32, _off: i64, _len: i64, _advice: i32) -> i32 {
    0
}
extern "C" {
    fn strdup(s: *const i8) -> *mut i8;
    fn strcpy(to: *mut i8, from: *const i8) -> *mut i8;
}
/// Only the standard library's canonicalize calls this here; real paths are returned as they are, too.
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const i8, out: *mut i8) -> *mut i8 {
    if let Some(s) = simulated(path) {
        if let Err(e) = sched::outside(|| vfs::stat(vfs::Which::Path(s))) {
            ret(-(e as isize));
            return std::ptr::null_mut();
        }
    }
    if out.is_null() {
        strdup(path)
    } else {
        strcpy(out, path)
    }
}

// ---------------------------------------------------------------- randomness, clocks, locks

static mut ENTROPY: Rng = Rng(0);
pub fn seed_entropy(x: u64) {
    unsafe { ENTROPY = Rng(x) }
}
static mut CLOCK_READS: u64 = 0;
pub fn clock_reads() -> u64 {
    unsafe { CLOCK_READS }
}
static mut FIXED: [Option<Rng>; 16] = [const { None }; 16];
/// From here on the calling task draws its hash seeds from a stream of its own, the same whatever others do.
pub fn fix_entropy(x: u64) {
    unsafe { (*std::ptr::addr_of_mut!(FIXED))[sched::current()] = Some(Rng(x)) }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if sched::in_task() {
        let r = match &mut (*std::ptr::addr_of_mut!(FIXED))[sched::current()] {
            Some(r) => r,
            None => &mut *std::ptr::addr_of_mut!(ENTROPY),
        };
        for i in 0..n {
            *p.add(i) = (r.next() >> 32) as u8;
        }
        return n as isize;
    }
    ret(raw6(318, p as usize, n, flags as usize, 0, 0, 0))
}
/// What the process can learn about its surroundings, apart from files: the same for every run unless changed.
pub struct Surroundings {
    /// where the clock stands, relative to the scheduler's
    pub clock_offset_us: i64,
    /// permille of clock readings at which it jumps, by up to this many seconds
    pub jumps: u32,
    pub jump_s: i64,
    /// 0: no variables; else every variable the library asks for has a value drawn from this stream
    pub vars: u64,
    pub pid: i32,
    /// which current directory there is
    pub cwd: u32,
    pub cpus: u32,
    pub asked: u32,
}
static mut AROUND: Surroundings =
    Surroundings { cwd: 0, clock_offset_us: 0, jumps: 0, jump_s: 0, vars: 0, pid: 4711, cpus: 4, asked: 0 };
static mut JUMPED_US: [i64; 2] = [0, 0];
pub fn surroundings() -> &'static mut Surroundings {
    unsafe { &mut *std::ptr::addr_of_mut!(AROUND) }
}
extern "C" {
    static environ: *const *const u8;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const u8 {
    let n = CStr::from_ptr(name).to_bytes();
    if sched::in_lib() {
        let a = surroundings();
        // what the standard library itself asks for when a thread panics or starts stays as it is
        if n.starts_with(b"RUST_") {
            return std::ptr::null();
        }
        a.asked += 1;
        return sched::outside(|| {
            count("environment_variables_asked");
            if a.vars == 0 {
                return std::ptr::null();
            }
            const V: [&[u8]; 8] = [b"1\0", b"0\0", b"true\0", b"C\0", b"de_DE.UTF-8\0", b"10\0", b"/tmp\0", b"0.001\0"];
            let h = crate::choice::hash_bytes(a.vars, n);
            V[(h >> 20) as usize % V.len()].as_ptr()
        });
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        let mut i = 0;
        while i < n.len() && *e.add(i) == n[i] {
            i += 1;
        }
        if i == n.len() && *e.add(i) == b'=' {
            return e.add(i + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sched::in_lib() {
        surroundings().asked += 1;
        return surroundings().pid;
    }
    raw6(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if sched::in_lib() && !buf.is_null() {
        surroundings().asked += 1;
        let d: &[u8] = [&b"/\0"[..], b"/home/someone/patterns\0", b"/tmp\0", b"/0.001/1/true\0"][surroundings().cwd as usize % 4];
        if d.len() <= n {
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len());
            return buf;
        }
    }
    let r = raw6(79, buf as usize, n, 0, 0, 0, 0);
    if r < 0 {
        ret(r);
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if sched::in_lib() {
        surroundings().asked += 1;
        std::ptr::write_bytes(set, 0, n);
        for k in 0..surroundings().cpus as usize {
            if k / 8 < n {
                *set.add(k / 8) |= 1 << (k % 8);
            }
        }
        return 0;
    }
    let r = raw6(204, pid as usize, n, set as usize, 0, 0, 0);
    if r >= 0 {
        std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize);
        return 0;
    }
    ret(r) as i32
}

fn monotonic_us() -> u64 {
    (sched::now_us() as i64 + surroundings().clock_offset_us + unsafe { JUMPED_US[1] }).max(0) as u64
}

#[repr(C)]
pub struct Ts {
    s: i64,
    ns: i64,
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut Ts) -> i32 {
    if sched::in_lib() {
        return sched::outside(|| {
            count("clock_reads");
            CLOCK_READS += 1;
            // clock skew and jumps: every reading may be any amount later, or (realtime) earlier
            sched::advance(choose(1000) as u64);
            let a = surroundings();
            let mono = (clk == 1 || clk == 4 || clk == 6 || clk == 7) as usize;
            if a.jump_s > 0 && permille(a.jumps) {
                crate::run::fault("clock_jumped");
                let by = choose(a.jump_s as u32 + 1) as i64 * 1_000_000;
                // only the wall clock can be set back
                JUMPED_US[mono] += if mono == 0 && permille(400) { -by } else { by };
            }
            let now = sched::now_us() as i64 + a.clock_offset_us + JUMPED_US[mono];
            let now = now.max(0);
            (*t).s = now / 1_000_000;
            (*t).ns = now % 1_000_000 * 1000;
            0
        });
    }
    ret(raw6(228, clk as usize, t as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> i32 {
    if sched::in_lib() {
        let us = (*req).s as u64 * 1_000_000 + (*req).ns as u64 / 1000;
        sched::outside(|| sched::sleep_us(us));
        return 0;
    }
    ret(raw6(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if sched::in_lib() {
        let mut us = (*req).s as u64 * 1_000_000 + (*req).ns as u64 / 1000;
        if flags & 1 != 0 {
            us = us.saturating_sub(monotonic_us());
        }
        sched::outside(|| sched::sleep_us(us));
        return 0;
    }
    -(raw6(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::in_lib() {
        sched::outside(|| sched::reschedule("sched_yield"));
        return 0;
    }
    ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 && sched::in_lib() {
        // futex: std's Mutex, RwLock, Condvar, Once, thread parking
        let op = b & 0x7f;
        return ret(sched::outside(|| match op {
            0 | 9 => {
                let to = if d == 0 {
                    None
                } else {
                    let t = &*(d as *const Ts);
                    let us = t.s as u64 * 1_000_000 + t.ns as u64 / 1000;
                    Some(if op == 9 { us.saturating_sub(monotonic_us()) } else { us })
                };
                sched::futex_wait(a, c as u32, to)
            }
            1 | 10 => {
                let r = sched::futex_wake(a, c as u32);
                sched::reschedule("unlock");
                r
            }
            _ => raw6(n, a, b, c, d, e, f),
        })) as i64;
    }
    if n == 318 && sched::in_task() {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    if n == 332 {
        return statx(a as i32, b as *const i8, c as i32, d as u32, e as *mut u8) as i64;
    }
    crate::effects::by_number(n);
    ret(raw6(n, a, b, c, d, e, f)) as i64
}

// ---------------------------------------------------------------- allocation

/// How memory the library asks for is handed out.
pub struct Memory {
    /// fill new and freed memory with this, and move blocks that grow
    pub junk: Option<u8>,
    /// up to this many extra units of 16 bytes per block, so that blocks land elsewhere
    pub pad: u64,
    pub stream: u64,
    /// keep account of blocks the library asked for and nobody has given back
    pub track: bool,
    pub live_blocks: i64,
    pub live_bytes: i64,
}
static mut MEMORY: Memory = Memory { junk: None, pad: 0, stream: 1, track: false, live_blocks: 0, live_bytes: 0 };
pub fn memory() -> &'static mut Memory {
    unsafe { &mut *std::ptr::addr_of_mut!(MEMORY) }
}
const SLOTS: usize = 1 << 16;
/// (address, size) of tracked blocks, open addressing
static mut BLOCKS: [(usize, usize); SLOTS] = [(0, 0); SLOTS];
fn slot(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e3779b97f4a7c15)  >> 48
}
unsafe fn track_new(p: usize, size: usize) {
    let m = memory();
    m.live_blocks += 1;
    m.live_bytes += size as i64;
    if m.live_blocks as usize > SLOTS / 2 {
        // (the caller sees from the count that there is too much)
        return;
    }
    let mut i = slot(p);
    while BLOCKS[i].0 != 0 {
        i = (i + 1) % SLOTS;
    }
    BLOCKS[i] = (p, size);
}
unsafe fn track_gone(p: usize) {
    let mut i = slot(p);
    while BLOCKS[i].0 != p {
        if BLOCKS[i].0 == 0 {
            return;
        }
        i = (i + 1) % SLOTS;
    }
    let m = memory();
    m.live_blocks -= 1;
    m.live_bytes -= BLOCKS[i].1 as i64;
    // close the gap
    let mut j = i;
    loop {
        BLOCKS[i] = (0, 0);
        loop {
            j = (j + 1) % SLOTS;
            if BLOCKS[j].0 == 0 {
                return;
            }
            let home = slot(BLOCKS[j].0);
            let stays = if i <= j { i < home && home <= j } else { i < home || home <= j };
            if !stays {
                break;
            }
        }
        BLOCKS[i] = BLOCKS[j];
        i = j;
    }
}
/// Forget all tracked blocks.
pub fn track_from_here() {
    unsafe {
        for b in BLOCKS.iter_mut() {
            *b = (0, 0);
        }
        let m = memory();
        m.live_blocks = 0;
        m.live_bytes = 0;
        m.track = true;
    }
}
#[inline]
unsafe fn obtain(l: Layout) -> *mut u8 {
    let m = memory();
    let lib = sched::in_lib();
    let p = if lib && m.pad > 0 {
        m.stream = m.stream.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let extra = ((m.stream >> 33) % (m.pad + 1)) as usize * 16;
        match l.size().checked_add(extra).and_then(|n| Layout::from_size_align(n, l.align()).ok()) {
            Some(x) => System.alloc(x),
            None => System.alloc(l),
        }
    } else {
        System.alloc(l)
    };
    if lib && !p.is_null() {
        sched::LIB_BYTES += l.size() as i64;
        if let Some(j) = m.junk {
            std::ptr::write_bytes(p, j, l.size().min(1 << 16));
        }
        if m.track {
            sched::outside(|| track_new(p as usize, l.size()));
        }
    }
    p
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::alloc_point();
        obtain(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let m = memory();
        if sched::in_lib() {
            sched::LIB_BYTES -= l.size() as i64;
        }
        if m.track {
            sched::outside(|| track_gone(p as usize));
        }
        if let (Some(j), true) = (m.junk, sched::in_lib()) {
            std::ptr::write_bytes(p, !j, l.size().min(1 << 16));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sched::alloc_point();
        let m = memory();
        if sched::in_lib() && (m.junk.is_some() || m.pad > 0) {
            let q = obtain(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                if m.track {
                    sched::outside(|| track_gone(p as usize));
                }
                System.dealloc(p, l);
                sched::LIB_BYTES -= l.size() as i64;
            }
            return q;
        }
        let q = System.realloc(p, l, n);
        if sched::in_lib() && !q.is_null() {
            sched::LIB_BYTES += n as i64 - l.size() as i64;
        }
        if m.track && !q.is_null() {
            sched::outside(|| track_gone(p as usize));
            if sched::in_lib() {
                sched::outside(|| track_new(q as usize, n));
            }
        }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sched::alloc_point();
        let p = System.alloc_zeroed(l);
        if sched::in_lib() && !p.is_null() {
            sched::LIB_BYTES += l.size() as i64;
        }
        if memory().track && sched::in_lib() && !p.is_null() {
            sched::outside(|| track_new(p as usize, l.size()));
        }
        p
    }
}
