//! Simulated disk: inodes, directory entries, descriptors, a durable image, and fault injection on every call.
//! Paths below `ROOT` live here; everything else goes to the real system.

use crate::choice::{choose, permille};
use crate::run::{count, fault};
use crate::sched;
use std::collections::BTreeMap;

pub const ROOT: &str = "/kamisim/";
pub const FD_BASE: i32 = 1_000_000;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ESPIPE: i32 = 29;
pub const EPIPE: i32 = 32;
pub const ELOOP: i32 = 40;
pub const ENAMETOOLONG: i32 = 36;
pub const ETIMEDOUT: i32 = 110;
pub const ESTALE: i32 = 116;

#[derive(Clone, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub mtime_s: i64,
    pub ino: u64,
}

struct Fd {
    inode: usize,
    /// index into `offsets` (duplicated descriptors share their position)
    off: usize,
    path: String,
    task: usize,
    delivered: Vec<u8>,
}

#[derive(Clone, Default)]
pub struct Faults {
    /// permille per call
    pub short: u32,
    pub eintr: u32,
    pub open_err: u32,
    pub read_err: u32,
    pub meta_err: u32,
    pub meta_lie: u32,
    pub seek_err: u32,
    pub close_err: u32,
    pub slow: u32,
    pub yield_: u32,
    /// short reads deliver at most this many bytes
    pub short_max: u32,
    pub max_eintr_row: u32,
    pub wr_short: u32,
    pub wr_err: u32,
}

/// What one load did, as seen by the disk.
#[derive(Clone, Default, Debug)]
pub struct LoadRec {
    pub hard: Option<i32>,
    pub all_hard: Vec<i32>,
    pub opens: u32,
    pub closes: u32,
    pub calls_after_last_eintr: u32,
    pub calls: u32,
    pub modifications: Vec<String>,
    pub delivered: Vec<Vec<u8>>,
    pub interruptions: u32,
}

#[derive(Default)]
pub struct Vfs {
    pub dir: BTreeMap<String, usize>,
    pub durable_dir: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    offsets: Vec<usize>,
    /// per task: fail the n-th eligible call (open or read) from now on with this errno
    pub ambush: BTreeMap<usize, (u32, i32)>,
    pub faults: Faults,
    /// tasks that meet no errors at present (other faults go on)
    pub calm: Vec<usize>,
    /// the writing program dies after this many further modifications
    pub die_after: Option<u32>,
    pub dead: bool,
    pub recs: BTreeMap<usize, LoadRec>,
    pub fd_limit: usize,
    eintr_row: u32,
    /// any other file the library looks for is there, with this content
    pub strays: Option<Vec<u8>>,
    /// paths opened, successfully or not
    pub opened: Vec<String>,
}

static mut V: Option<Box<Vfs>> = None;
pub fn vfs() -> &'static mut Vfs {
    unsafe { (*std::ptr::addr_of_mut!(V)).get_or_insert_with(|| Box::new(Vfs::default())) }
}

pub fn reset() {
    unsafe { V = Some(Box::new(Vfs { next_fd: FD_BASE, fd_limit: 64, ..Default::default() })) }
}

impl Vfs {
    fn stray(&mut self, path: &str) {
        if let (Some(b), false) = (&self.strays, self.dir.contains_key(path)) {
            if !["/proc", "/sys", "/dev"].iter().any(|p| path.starts_with(p)) {
                let b = b.clone();
                count("stray_files_found");
                self.install(path, &b);
            }
        }
    }
    /// Put a file in place atomically (new inode, rename over the name), durable at once.
    pub fn install(&mut self, path: &str, data: &[u8]) -> usize {
        let id = self.inodes.len();
        // file systems hand out the numbers of deleted files again
        let mut ino = id as u64 + 1000;
        if permille(500) {
            let used: Vec<u64> = self.dir.values().chain(self.fds.values().map(|f| &f.inode)).map(|&i| self.inodes[i].ino).collect();
            ino = (100..).find(|n| !used.contains(n)).unwrap();
        }
        self.inodes.push(Inode {
            data: data.to_vec(),
            durable: data.to_vec(),
            // coarse time stamps: several versions may share one
            mtime_s: (sched::now_us() / 1_000_000 / 4 * 4) as i64,
            ino,
        });
        self.dir.insert(path.to_string(), id);
        self.durable_dir.insert(path.to_string(), id);
        id
    }
    pub fn remove(&mut self, path: &str) {
        self.dir.remove(path);
        self.durable_dir.remove(path);
    }
    pub fn create(&mut self, path: &str) -> usize {
        let id = self.inodes.len();
        self.inodes.push(Inode { ino: id as u64 + 1000, ..Default::default() });
        self.dir.insert(path.to_string(), id);
        id
    }
    pub fn fsync(&mut self, id: usize) {
        self.inodes[id].durable = self.inodes[id].data.clone();
    }
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(id) = self.dir.remove(from) {
            self.dir.insert(to.to_string(), id);
        }
    }
    pub fn sync_dir(&mut self) {
        self.durable_dir = self.dir.clone();
    }
    /// Power loss: only durable state survives; un-synced data of a surviving name may be any prefix mix.
    pub fn crash(&mut self) {
        // un-synced directory updates may or may not have reached the disk, as a whole
        if self.dir != self.durable_dir && permille(500) {
            self.durable_dir = self.dir.clone();
        }
        for n in self.inodes.iter_mut() {
            if n.data != n.durable {
                match choose(3) {
                    0 => {}
                    1 => {
                        let k = choose(n.data.len() as u32 + 1) as usize;
                        let d = n.data[..k].to_vec();
                        n.durable = d;
                    }
                    _ => n.durable = n.data.clone(),
                }
            }
            n.data = n.durable.clone();
        }
        self.dir = self.durable_dir.clone();
        self.fds.clear();
    }
    fn err_rate(&self, r: u32) -> u32 {
        if self.calm.contains(&sched::current()) {
            0
        } else {
            r
        }
    }
    /// One more modification by the writing program: is it still alive to make it?
    pub fn alive(&mut self) -> bool {
        if self.dead {
            return false;
        }
        if let Some(n) = self.die_after {
            if n == 0 {
                self.dead = true;
                self.die_after = None;
                crate::ev!("  [disk] the writing program dies here");
                return false;
            }
            self.die_after = Some(n - 1);
        }
        true
    }
    pub fn open_fds(&self, task: usize) -> usize {
        self.fds.values().filter(|f| f.task == task).count()
    }
    pub fn open_files(&self) -> usize {
        self.fds.len()
    }
    pub fn rec(&mut self) -> &mut LoadRec {
        self.recs.entry(sched::current()).or_default()
    }
}

fn p(path: &str, what: &str, r: isize) -> isize {
    if r < 0 {
        crate::ev!("  [disk] {} {} -> errno {}", what, path, -r);
    } else {
        crate::ev!("  [disk] {} {} -> {}", what, path, r);
    }
    r
}

fn interruption(v: &mut Vfs) -> bool {
    if v.eintr_row < v.faults.max_eintr_row && permille(v.faults.eintr) {
        v.eintr_row += 1;
        let r = v.rec();
        r.interruptions += 1;
        r.calls_after_last_eintr = 0;
        fault("EINTR");
        true
    } else {
        v.eintr_row = 0;
        false
    }
}

fn before(v: &mut Vfs) {
    let (y, s) = (v.faults.yield_, v.faults.slow);
    {
        let r = v.rec();
        r.calls += 1;
        r.calls_after_last_eintr += 1;
        if r.calls > 2_000_000 {
            crate::fatal("no-progress", "a single load issued more than two million system calls");
        }
    }
    if permille(s) {
        fault("slow_device");
        let us = 1 + choose(5_000_000) as u64;
        sched::sleep_us(us);
    } else if permille(y) {
        sched::reschedule("I/O");
    }
}

/// Is this the call the current task was to fail at?
fn ambushed(v: &mut Vfs) -> Option<i32> {
    let t = sched::current();
    let (n, e) = *v.ambush.get(&t)?;
    if n == 0 {
        v.ambush.remove(&t);
        return Some(e);
    }
    v.ambush.insert(t, (n - 1, e));
    None
}

fn hard(v: &mut Vfs, e: i32, kind: &'static str) -> isize {
    fault(kind);
    let r = v.rec();
    r.hard = Some(e);
    r.all_hard.push(e);
    -(e as isize)
}

pub fn open(path: &str, flags: i32) -> isize {
    let v = vfs();
    before(v);
    let v = vfs();
    v.opened.push(path.to_string());
    let acc = flags & 3;
    if acc != 0 || flags & (0o100 | 0o1000 | 0o2000) != 0 {
        v.rec().modifications.push(format!("open for writing (flags {:#o})", flags));
    }
    if interruption(v) {
        return p(path, "open", -(EINTR as isize));
    }
    if permille(v.err_rate(v.faults.open_err)) {
        let e = [EACCES, EMFILE, ENFILE, EIO, ELOOP, ENOMEM, ENOTDIR, EPERM, ETIMEDOUT, ESTALE, ENAMETOOLONG]
            [choose(11) as usize];
        return p(path, "open", hard(v, e, "open_error"));
    }
    if let Some(e) = ambushed(v) {
        return p(path, "open", hard(v, e, "open_error"));
    }
    if v.fds.len() >= v.fd_limit {
        return p(path, "open", hard(v, EMFILE, "descriptor_limit"));
    }
    v.stray(path);
    let id = match v.dir.get(path) {
        Some(&id) => id,
        None => {
            if flags & 0o100 != 0 {
                v.create(path)
            } else {
                if path.starts_with(ROOT) {
                    let r = v.rec();
                    r.hard = Some(ENOENT);
                    r.all_hard.push(ENOENT);
                }
                count("open_of_absent_file");
                return p(path, "open", -(ENOENT as isize));
            }
        }
    };
    if flags & 0o1000 != 0 && v.alive() {
        v.inodes[id].data.clear();
    }
    let fd = v.next_fd;
    v.next_fd += 1;
    v.offsets.push(0);
    let off = v.offsets.len() - 1;
    v.fds.insert(
        fd,
        Fd { inode: id, off, path: path.to_string(), task: sched::current(), delivered: vec![] },
    );
    v.rec().opens += 1;
    p(path, "open", fd as isize)
}

pub fn read_at(fd: i32, n: usize, at: Option<usize>, out: &mut dyn FnMut(&[u8])) -> isize {
    let v = vfs();
    before(v);
    let v = vfs();
    let path = match v.fds.get(&fd) {
        Some(f) => f.path.clone(),
        None => return -(EBADF as isize),
    };
    if interruption(v) {
        return p(&path, "read", -(EINTR as isize));
    }
    if permille(v.err_rate(v.faults.read_err)) {
        let e = [EIO, EAGAIN, EISDIR, ESTALE, ETIMEDOUT, ENOMEM, EINVAL, EBADF][choose(8) as usize];
        return p(&path, "read", hard(v, e, "read_error"));
    }
    if let Some(e) = ambushed(v) {
        return p(&path, "read", hard(v, e, "read_error"));
    }
    let (id, pos) = {
        let f = &v.fds[&fd];
        (f.inode, at.unwrap_or(v.offsets[f.off]))
    };
    let len = v.inodes[id].data.len();
    let mut k = n.min(len.saturating_sub(pos));
    if k > 1 && permille(v.faults.short) {
        let m = (k as u32 - 1).min(v.faults.short_max.max(1));
        k = 1 + choose(m) as usize;
        fault("short_read");
    }
    let chunk = v.inodes[id].data[pos.min(len)..pos.min(len) + k].to_vec();
    out(&chunk);
    let f = v.fds.get_mut(&fd).unwrap();
    if at.is_none() {
        v.offsets[f.off] += k;
    }
    f.delivered.extend_from_slice(&chunk);
    p(&path, "read", k as isize)
}

pub fn write(fd: i32, data: &[u8]) -> isize {
    let v = vfs();
    before(v);
    let v = vfs();
    v.rec().modifications.push("write".into());
    let path = match v.fds.get(&fd) {
        Some(f) => f.path.clone(),
        None => return -(EBADF as isize),
    };
    if v.dead {
        return -(EIO as isize);
    }
    if interruption(v) {
        return p(&path, "write", -(EINTR as isize));
    }
    if permille(v.err_rate(v.faults.wr_err)) {
        let e = [ENOSPC, EIO][choose(2) as usize];
        fault("write_error");
        return p(&path, "write", -(e as isize));
    }
    let mut n = data.len();
    if !v.alive() {
        // the last write may reach the file in part
        n = choose(n as u32 + 1) as usize;
        fault("torn_write");
    } else if n > 1 && permille(v.faults.wr_short) {
        n = 1 + choose(n as u32 - 1) as usize;
        fault("short_write");
    }
    let f = &v.fds[&fd];
    let (id, pos) = (f.inode, v.offsets[f.off]);
    v.offsets[f.off] += n;
    let d = &mut v.inodes[id].data;
    if d.len() < pos + n {
        d.resize(pos + n, 0);
    }
    d[pos..pos + n].copy_from_slice(&data[..n]);
    if v.dead {
        return -(EIO as isize);
    }
    p(&path, "write", n as isize)
}

/// fsync and fdatasync
pub fn fsync(fd: i32) -> isize {
    let v = vfs();
    before(v);
    let v = vfs();
    v.rec().modifications.push("fsync".into());
    if !v.alive() {
        return -(EIO as isize);
    }
    match v.fds.get(&fd) {
        Some(f) => {
            let id = f.inode;
            v.fsync(id);
            p("", "fsync", 0)
        }
        None => -(EBADF as isize),
    }
}
pub fn rename(from: &str, to: &str) -> isize {
    let v = vfs();
    v.rec().modifications.push(format!("rename {} {}", from, to));
    if !v.alive() {
        return -(EIO as isize);
    }
    v.rename(from, to);
    p(to, "rename", 0)
}

pub fn seek(fd: i32, off: i64, whence: i32) -> isize {
    let v = vfs();
    before(v);
    let v = vfs();
    if !v.fds.contains_key(&fd) {
        return -(EBADF as isize);
    }
    if permille(v.faults.seek_err) {
        fault("seek_error");
        return p("", "lseek", -(ESPIPE as isize));
    }
    let f = v.fds.get_mut(&fd).unwrap();
    let base = match whence {
        0 => 0,
        1 => v.offsets[f.off] as i64,
        _ => v.inodes[f.inode].data.len() as i64,
    };
    let n = base + off;
    if n < 0 {
        return -(EINVAL as isize);
    }
    v.offsets[f.off] = n as usize;
    n as isize
}

pub enum Which<'a> {
    Fd(i32),
    Path(&'a str),
}

pub struct Stat {
    pub size: u64,
    pub ino: u64,
    pub mtime: i64,
}

pub fn stat(w: Which) -> Result<Stat, i32> {
    let v = vfs();
    before(v);
    let v = vfs();
    if let Which::Path(s) = w {
        v.stray(s);
    }
    let id = match w {
        Which::Fd(fd) => v.fds.get(&fd).map(|f| f.inode).ok_or(EBADF)?,
        Which::Path(s) => match v.dir.get(s) {
            Some(&i) => i,
            None => {
                p(s, "stat", -(ENOENT as isize));
                if s.starts_with(ROOT) {
                    let r = v.rec();
                    r.hard = Some(ENOENT);
                    r.all_hard.push(ENOENT);
                }
                return Err(ENOENT);
            }
        },
    };
    if permille(v.faults.meta_err) {
        fault("stat_error");
        let e = [EIO, EACCES, ESTALE, ENOMEM][choose(4) as usize];
        p("", "stat", -(e as isize));
        return Err(e);
    }
    let real = v.inodes[id].data.len() as u64;
    let mut size = real;
    if permille(v.faults.meta_lie) {
        fault("wrong_size");
        size = match choose(5) {
            0 => 0,
            1 => real / 2,
            2 => real.saturating_sub(1),
            3 => real + 1 + choose(100) as u64,
            _ => real * 3 + 5000,
        };
    }
    crate::ev!("  [disk] stat -> size {}", size);
    Ok(Stat { size, ino: v.inodes[id].ino, mtime: v.inodes[id].mtime_s })
}

pub fn close(fd: i32) -> isize {
    let v = vfs();
    match v.fds.remove(&fd) {
        Some(f) => {
            let r = v.rec();
            r.closes += 1;
            r.delivered.push(f.delivered);
            if permille(v.faults.close_err) {
                fault("close_error");
                return p(&f.path, "close", -(EIO as isize));
            }
            p(&f.path, "close", 0)
        }
        None => -(EBADF as isize),
    }
}

/// A second descriptor for the same open file.
pub fn dup(fd: i32) -> isize {
    let v = vfs();
    let (inode, off, path) = match v.fds.get(&fd) {
        Some(f) => (f.inode, f.off, f.path.clone()),
        None => return -(EBADF as isize),
    };
    if v.fds.len() >= v.fd_limit {
        return p(&path, "dup", hard(v, EMFILE, "descriptor_limit"));
    }
    let n = v.next_fd;
    v.next_fd += 1;
    v.fds.insert(n, Fd { inode, off, path, task: sched::current(), delivered: vec![] });
    v.rec().opens += 1;
    n as isize
}

pub fn modify(what: &str, path: &str) -> isize {
    let v = vfs();
    v.rec().modifications.push(format!("{} {}", what, path));
    match what {
        "unlink" => v.remove(path),
        _ => {}
    }
    0
}
