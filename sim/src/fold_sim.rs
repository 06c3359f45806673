//! F01-F06: documents on a simulated disk.

use crate::choice::{choose, hash_bytes, permille, pick, range, weighted};
use crate::docs::{self, Doc, Meaning};
use crate::ev;
use crate::run::{self, count, effective, fault, violate};
use crate::sched::{self, Config};
use crate::vfs::{self, vfs, LoadRec};
use kami::fold::fold::Fold;
use std::io::Write;
use std::path::Path;

pub fn run() {
    match run::prop() {
        "F04" => saves(),
        "F05" => replaced(),
        _ => loads(),
    }
}

// ---------------------------------------------------------------- one load

pub enum Got {
    Doc(Doc),
    Err(Option<i32>, std::io::ErrorKind, String),
    Panic(String),
}
impl Got {
    fn short(&self) -> String {
        match self {
            Got::Doc(d) => format!("document {:016x}", d.hash()),
            Got::Err(Some(e), k, _) => format!("error {} ({:?})", e, k),
            Got::Err(None, k, _) => format!("error {:?}", k),
            Got::Panic(m) => format!("PANIC {}", m),
        }
    }
}

/// Load a document in the current task. The record says what the disk saw of it.
pub fn load(path: &str) -> (Got, LoadRec) {
    let me = sched::current();
    vfs().recs.insert(me, LoadRec::default());
    let r = sched::lib(|| Fold::from_file(Path::new(path)));
    let got = match r {
        Ok(Ok(f)) => {
            if !f.file_frames.is_empty() {
                violate("F01", "frames", "file_frames is not empty although it is never loaded".into());
            }
            Got::Doc(Doc::of(&f))
        }
        Ok(Err(e)) => Got::Err(e.raw_os_error(), e.kind(), e.to_string()),
        Err(m) => Got::Panic(m),
    };
    let rec = vfs().recs.remove(&me).unwrap_or_default();
    vfs().ambush.remove(&me);
    ev!("task {} loads {} -> {} ({} calls)", me, path, got.short(), rec.calls);
    accounting(path, &rec);
    (got, rec)
}

fn accounting(path: &str, rec: &LoadRec) {
    if !rec.modifications.is_empty() {
        violate("F06", "modifies", format!("loading {}: {}", path, rec.modifications.join(", ")));
    }
    if rec.opens != rec.closes || vfs().open_fds(sched::current()) != 0 {
        violate(
            "F06",
            "leak",
            format!("loading {} opened {} descriptors and closed {}", path, rec.opens, rec.closes),
        );
    }
    if rec.all_hard.contains(&vfs::EMFILE) && vfs().open_fds(sched::current()) > 0 {
        violate("F06", "leak", format!("loading {} ran out of descriptors", path));
    }
}

/// Faults that must make no difference.
fn delivery_faults() {
    let f = &mut vfs().faults;
    *f = Default::default();
    if permille(150) {
        return;
    }
    f.short = pick(&[0, 100, 700, 1000]);
    f.short_max = pick(&[1, 7, 64, 5000]);
    f.eintr = pick(&[0, 0, 100, 600, 950]);
    f.max_eintr_row = pick(&[3, 40, 300]);
    f.meta_err = pick(&[0, 0, 300, 1000]);
    f.meta_lie = pick(&[0, 0, 400, 1000]);
    f.seek_err = pick(&[0, 0, 500]);
    f.close_err = pick(&[0, 0, 300]);
    f.slow = pick(&[0, 0, 50, 300]);
    f.yield_ = pick(&[0, 200, 800]);
}

/// Judge a load of a file whose content was `bytes` all the while.
fn judge(path: &str, bytes: Option<&[u8]>, exact: Option<&Doc>, got: &Got, rec: &LoadRec) {
    run::state(hash_bytes(rec.calls as u64 ^ 0x1234, got.short().as_bytes()));
    if let (Got::Panic(m), true) = (got, rec.hard.is_some()) {
        return violate("F02", "panic", format!("loading {} panicked after errno {:?}: {}", path, rec.all_hard, m));
    }
    if let Some(e) = rec.hard {
        count("loads_that_met_an_error");
        if run::prop() == "F02" {
            effective();
        }
        match got {
            Got::Err(Some(r), ..) if rec.all_hard.contains(r) => {}
            g => violate(
                "F02",
                "error-lost",
                format!("loading {} met errno {} (all: {:?}) but the result is {}", path, e, rec.all_hard, g.short()),
            ),
        }
        return;
    }
    let bytes = match bytes {
        Some(b) => b,
        None => {
            return violate("F02", "absent", format!("{} does not exist but the result is {}", path, got.short()));
        }
    };
    if let Some(d) = exact {
        // an undamaged document
        count("loads_of_good_documents");
        if matches!(run::prop(), "F01" | "F06") {
            effective();
        }
        match got {
            Got::Doc(x) => {
                if let Some(m) = d.differs(x, 0) {
                    violate("F01", "content", format!("loading {}: the file says {} was loaded", path, m));
                }
            }
            g => violate("F01", "refused", format!("loading the valid document {} gave {}", path, detail(g))),
        }
        let bound = 4 * (bytes.len() as u32 + 64);
        if rec.calls_after_last_eintr > bound {
            violate(
                "F01",
                "progress",
                format!("{} system calls after the last interruption for {} bytes", rec.calls_after_last_eintr, bytes.len()),
            );
        }
        return;
    }
    if run::prop() == "F03" {
        effective();
    }
    if let Got::Panic(m) = got {
        return violate("F03", "panic", format!("loading a damaged document panicked: {}", m));
    }
    match docs::meaning(bytes) {
        Meaning::Invalid(why) => {
            count("loads_of_invalid_documents");
            if let Got::Doc(_) = got {
                violate("F03", "accepted", format!("loading {} gave a document although the bytes are {}", path, why));
            }
        }
        Meaning::Valid(d, slack) => {
            count("loads_of_damaged_but_valid_documents");
            match got {
                Got::Doc(x) => {
                    if let Some(m) = d.differs(x, slack) {
                        violate("F03", "invented", format!("the damaged bytes say {} was loaded", m));
                    }
                }
                g => violate("F03", "refused", format!("the damaged bytes are still a valid document, but loading gave {}", detail(g))),
            }
        }
        Meaning::Unclear(_) => count("loads_of_ambiguous_documents"),
    }
}
fn detail(g: &Got) -> String {
    match g {
        Got::Err(_, _, m) => format!("{}: {}", g.short(), m),
        g => g.short(),
    }
}

// ---------------------------------------------------------------- damage

fn damage(new: &[u8], old: &[u8], doc: &Doc) -> (Vec<u8>, &'static str) {
    let mut b = new.to_vec();
    let n = b.len();
    let bs = pick(&[1usize, 8, 64, 512, 4096]);
    let block = |n: usize| {
        let k = choose((n / bs + 1) as u32) as usize * bs;
        (k.min(n), (k + bs).min(n))
    };
    match choose(13) {
        0 => {
            b.truncate(choose(n as u32 + 1) as usize);
            (b, "write_cut_short")
        }
        1 => {
            let (x, y) = block(n);
            b[x..y].iter_mut().for_each(|c| *c = 0);
            (b, "zeroed_block")
        }
        2 => {
            let (x, _) = block(n);
            for i in x..(x + bs).min(n) {
                b[i] = old.get(i).copied().unwrap_or(0);
            }
            (b, "stale_block")
        }
        3 => {
            for _ in 0..1 + choose(3) {
                let i = choose(n as u32) as usize;
                b[i] ^= 1 << choose(8);
            }
            (b, "flipped_bits")
        }
        4 => {
            let i = choose(n as u32) as usize;
            let bad = pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0x80], &[0xe2, 0x82]]);
            if permille(500) {
                b.splice(i..i, bad.iter().copied());
            } else {
                b.splice(i..(i + bad.len()).min(n), bad.iter().copied());
            }
            (b, "invalid_encoding")
        }
        5 if n < 60_000 => (docs::render_mistyped(doc), "wrong_type"),
        5 => {
            b.truncate(n - 1);
            (b, "write_cut_short")
        }
        6 => (vec![], "empty_file"),
        7 => {
            if old.len() > n {
                b.extend_from_slice(&old[n..]);
                (b, "old_tail_kept")
            } else {
                let t = pick(&["}", "x", "{}", "\0", ",", "]", "null", "\n{"]);
                b.extend_from_slice(t.as_bytes());
                (b, "garbage_appended")
            }
        }
        8 => {
            let i = choose(n as u32) as usize;
            b[i] = pick(&[b'{', b'}', b'[', b']', b'"', b':', b',', b'0', b'9', b'-', b'e', b'.', b'\\', b' ', b'\n', b'n']);
            (b, "changed_byte")
        }
        9 => {
            let (x, y) = block(n);
            b.drain(x..y);
            (b, "lost_block")
        }
        10 => {
            let (x, y) = block(n);
            let d = b[x..y].to_vec();
            let at = choose(n as u32 + 1) as usize;
            b.splice(at..at, d);
            (b, "repeated_block")
        }
        11 => {
            let k = choose(n as u32 + 1) as usize;
            b[k..].iter_mut().for_each(|c| *c = 0);
            (b, "zero_filled_tail")
        }
        _ => {
            let depth = pick(&[100usize, 127, 1000, 200_000]);
            let open = pick(&["[", "{\"a\":"]);
            let key = pick(&["\"x\"", "\"edges_faces\"", "\"file_spec\""]);
            let mut t = format!("{{{}:", key).into_bytes();
            for _ in 0..depth {
                t.extend_from_slice(open.as_bytes());
            }
            if permille(500) {
                t.extend_from_slice(b"1");
                for _ in 0..depth {
                    t.push(if open == "[" { b']' } else { b'}' });
                }
                t.push(b'}');
            }
            (t, "runaway_nesting")
        }
    }
}

// ---------------------------------------------------------------- F01, F02, F03, F06

#[derive(Clone, Default)]
struct File {
    path: String,
    bytes: Option<Vec<u8>>,
    doc: Option<Doc>,
}

fn self_check(d: &Doc, b: &[u8]) {
    match docs::meaning(b) {
        Meaning::Valid(x, _) if d.differs(&x, 0).is_none() => {}
        Meaning::Valid(x, _) => crate::harness_error(&format!("renderer and reader disagree: {:?}", d.differs(&x, 0))),
        Meaning::Invalid(m) | Meaning::Unclear(m) => {
            crate::harness_error(&format!("the rendered document is {}: {}", m, String::from_utf8_lossy(b)))
        }
    }
}

fn good_file(path: &str) -> File {
    let d = docs::generate(docs::size());
    let b = docs::render(&d);
    self_check(&d, &b);
    File { path: path.into(), bytes: Some(b), doc: Some(d) }
}

fn put(f: &File) {
    match &f.bytes {
        Some(b) => {
            vfs().install(&f.path, b);
        }
        None => vfs().remove(&f.path),
    }
}

const ERRNOS: [i32; 10] = [
    vfs::EIO,
    vfs::EACCES,
    vfs::ENOMEM,
    vfs::ESTALE,
    vfs::ETIMEDOUT,
    vfs::EISDIR,
    vfs::EAGAIN,
    vfs::EPERM,
    vfs::EBADF,
    vfs::EINVAL,
];

fn loader(mut f: File, rounds: u32, hard: bool, spoil: bool) {
    for _ in 0..rounds {
        if run::violated() {
            return;
        }
        sched::reschedule("loader");
        let me = sched::current();
        let good = f.clone();
        if spoil && permille(700) {
            // the file is damaged while nobody looks
            let old = docs::render(&docs::generate(docs::Size { present: 400, items: 3, text: 10 }));
            let d = f.doc.clone().unwrap_or_default();
            let (b, how) = damage(f.bytes.as_deref().unwrap_or(b"{}"), &old, &d);
            fault(how);
            ev!("{} now holds {} bytes after {}", f.path, b.len(), how);
            run::note(|| format!("      {}", String::from_utf8_lossy(&b[..b.len().min(600)])));
            f.bytes = Some(b);
            f.doc = None;
            put(&f);
        }
        if hard && permille(100) {
            f.bytes = None;
            f.doc = None;
            fault("file_absent");
            put(&f);
        }
        if hard && permille(700) {
            // fail a particular call of this load, early or late
            let last = (f.bytes.as_ref().map_or(0, |b| b.len()) as u32).min(300);
            let nth = match choose(3) {
                0 => choose(3),
                1 => choose(12),
                _ => choose(last + 4),
            };
            let e = pick(&ERRNOS);
            vfs().ambush.insert(me, (nth, e));
        }
        vfs().calm.retain(|&t| t != me);
        if !hard {
            vfs().calm.push(me);
        }
        let (got, rec) = load(&f.path);
        judge(&f.path, f.bytes.as_deref(), f.doc.as_ref(), &got, &rec);
        if run::violated() {
            return;
        }
        let failed = matches!(got, Got::Err(..) | Got::Panic(_));
        if f.bytes != good.bytes {
            // repaired
            f = good;
            put(&f);
        }
        if failed && permille(700) {
            // errors over: a later load works
            vfs().calm.push(me);
            let (got, rec) = load(&f.path);
            if rec.hard.is_none() {
                count("loads_after_recovery");
                if run::prop() == "F02" {
                    effective();
                    match (&got, &f.doc) {
                        (Got::Doc(x), Some(d)) => {
                            if let Some(m) = d.differs(x, 0) {
                                violate("F02", "after-recovery", format!("after a failed load, the next one: the file says {} was loaded", m));
                            }
                        }
                        (g, _) => violate("F02", "after-recovery", format!("after a failed load, the next one gave {}", detail(g))),
                    }
                } else {
                    judge(&f.path, f.bytes.as_deref(), f.doc.as_ref(), &got, &rec);
                }
            }
        }
        if permille(200) {
            f = good_file(&f.path);
            put(&f);
        }
    }
}

/// One or two loads of a large document, which takes many reads.
fn large(hard: bool, spoil: bool) {
    let f = &mut vfs().faults;
    f.short_max = pick(&[200_000, 4096, 65_536]);
    f.slow = f.slow.min(50);
    fault("large_document");
    let path = format!("{}large.fold", vfs::ROOT);
    let (d, b) = docs::huge();
    self_check(&d, &b);
    let f = File { path, bytes: Some(b), doc: Some(d) };
    put(&f);
    ev!("{} holds {} bytes", f.path, f.bytes.as_ref().unwrap().len());
    let rounds = 1 + choose(2);
    sched::run_tasks(Config { preempt: false, mean_shift: 8, name: None }, vec![Box::new(move || loader(f, rounds, hard, spoil))]);
}
fn loads() {
    let prop = run::prop();
    let tasks = 1 + weighted(&[5, 3, 1]);
    let rounds = pick(&[3u32, 1, 6, 20]);
    let hard = prop == "F02" || (prop == "F06" && permille(600));
    let spoil = prop == "F03" || (prop == "F06" && permille(500));
    delivery_faults();
    if permille(6) {
        return large(hard, spoil);
    }
    if hard && permille(300) {
        vfs().faults.open_err = pick(&[0, 100, 400]);
        vfs().faults.read_err = pick(&[0, 30, 300]);
    }
    vfs().fd_limit = if prop == "F06" { 3 * tasks + 1 } else { 64 };
    ev!("{} loaders, {} loads each, limit {}", tasks, rounds, vfs().fd_limit);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..tasks {
        let path = format!("{}{}/{}", vfs::ROOT, t, pick(&["pattern.fold", "a.fold", "ü.fold"]));
        let f = good_file(&path);
        put(&f);
        ev!("{} holds {} bytes", f.path, f.bytes.as_ref().unwrap().len());
        run::note(|| format!("      {}", String::from_utf8_lossy(&f.bytes.as_ref().unwrap()[..f.bytes.as_ref().unwrap().len().min(600)])));
        bodies.push(Box::new(move || loader(f, rounds, hard, spoil)));
    }
    sched::run_tasks(Config { preempt: permille(300), mean_shift: range(6, 14) as u32, name: None }, bodies);
}

// ---------------------------------------------------------------- F05

struct Version {
    from: u64,
    doc: Option<Doc>,
}
static mut SEQ: u64 = 0;
static mut VERSIONS: Vec<Vec<Version>> = Vec::new();
fn tick() -> u64 {
    unsafe {
        SEQ += 1;
        SEQ
    }
}
fn versions() -> &'static mut Vec<Vec<Version>> {
    unsafe { &mut *std::ptr::addr_of_mut!(VERSIONS) }
}

fn replaced() {
    let paths: Vec<String> = (0..1 + choose(2)).map(|i| format!("{}{}/pattern.fold", vfs::ROOT, i)).collect();
    let readers = 1 + weighted(&[3, 4, 2]);
    let loads = pick(&[4u32, 2, 8, 16]);
    delivery_faults();
    let f = &mut vfs().faults;
    f.yield_ = pick(&[300, 800, 1000]);
    f.slow = pick(&[0, 50, 300]);
    let hard = permille(250);
    if hard {
        f.read_err = pick(&[30, 100]);
        f.open_err = pick(&[0, 100]);
    }
    let same_size = permille(400);
    let z = docs::size();
    // (so that what is in the document comes only after much blank space)
    let far = if permille(40) { pick(&[70_000usize, 9_000, 140_000, 1_100_000]) } else { 0 };
    let p_absent = pick(&[0u32, 0, 100, 300]);
    let pause = pick(&[0i64, 10, 2000, 5_000_000]);
    if far > 0 {
        count("large_files_replaced");
        let f = &mut vfs().faults;
        f.short_max = pick(&[65_536, 4096]);
    }
    for _ in &paths {
        versions().push(vec![]);
    }
    let mut serial = 0u32;
    let mut install = move |i: usize, path: &str| {
        let absent = permille(p_absent);
        serial += 1;
        if absent {
            vfs().remove(path);
            fault("file_removed");
            let at = tick();
            versions()[i].push(Version { from: at, doc: None });
            ev!("{} removed", path);
            return;
        }
        let mut d = docs::generate(z);
        d.strings[2] = format!("v{:05}/{}", serial, i);
        let mut b = docs::render(&d);
        if far > 0 {
            let at = b.iter().position(|&c| c == b'{').map_or(0, |i| i + 1);
            b.splice(at..at, std::iter::repeat(b' ').take(far));
        }
        self_check(&d, &b);
        if same_size {
            let n = b.len().div_ceil(1024) * 1024;
            b.resize(n, b' ');
        }
        vfs().install(path, &b);
        let at = tick();
        fault("file_replaced");
        versions()[i].push(Version { from: at, doc: Some(d) });
        ev!("{} becomes version {}, {} bytes", path, serial, b.len());
    };
    for (i, p) in paths.iter().enumerate() {
        install(i, p);
    }
    unsafe { READERS = readers };
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    {
        let paths = paths.clone();
        let rounds = loads * 6;
        bodies.push(Box::new(move || {
            for _ in 0..rounds {
                if pause > 0 {
                    sched::sleep_us(range(0, pause) as u64);
                } else {
                    sched::reschedule("replacer");
                }
                if unsafe { READERS } == 0 {
                    return;
                }
                let i = choose(paths.len() as u32) as usize;
                install(i, &paths[i]);
            }
        }));
    }
    for _ in 0..readers {
        let paths = paths.clone();
        bodies.push(Box::new(move || {
            for _ in 0..loads {
                if run::violated() {
                    break;
                }
                sched::reschedule("reader");
                let i = choose(paths.len() as u32) as usize;
                let t0 = tick();
                let (got, rec) = load(&paths[i]);
                let t1 = tick();
                let vs = &versions()[i];
                let current: Vec<usize> = (0..vs.len())
                    .filter(|&k| vs[k].from <= t1 && vs.get(k + 1).map_or(u64::MAX, |n| n.from) >= t0)
                    .collect();
                effective();
                if current.len() > 1 {
                    count("loads_during_replacement");
                }
                run::state(hash_bytes(current.len() as u64, got.short().as_bytes()));
                let allowed: Vec<String> = current
                    .iter()
                    .map(|&k| vs[k].doc.as_ref().map_or("absent".into(), |d| d.strings[2].clone()))
                    .collect();
                match &got {
                    Got::Doc(d) => {
                        if !current.iter().any(|&k| vs[k].doc.as_ref().map_or(false, |x| x.differs(d, 0).is_none())) {
                            let old = vs.iter().rev().find(|v| v.doc.as_ref().map_or(false, |x| x.differs(d, 0).is_none()));
                            let what = match old {
                                Some(v) => format!("the older version {}", v.doc.as_ref().unwrap().strings[2]),
                                None => format!("no version at all (title {:?})", d.strings[2]),
                            };
                            violate("F05", "version", format!("a load of {} while {:?} were current returned {}", paths[i], allowed, what));
                        }
                    }
                    Got::Err(Some(e), ..) if *e == vfs::ENOENT && current.iter().any(|&k| vs[k].doc.is_none()) => {}
                    Got::Err(Some(e), ..) if hard && rec.all_hard.contains(e) => {}
                    g => violate("F05", "failed", format!("a load of {} while {:?} were current gave {}", paths[i], allowed, detail(g))),
                }
            }
            unsafe { READERS -= 1 };
        }));
    }
    sched::run_tasks(Config { preempt: permille(300), mean_shift: range(6, 14) as u32, name: None }, bodies);
}
static mut READERS: usize = 0;

// ---------------------------------------------------------------- F04

fn empty_fold() -> Fold {
    serde_json::from_str("{}").unwrap_or_else(|e| crate::harness_error(&format!("no empty document: {}", e)))
}

/// Save through a temporary file and a rename, with whatever the disk does meanwhile. Err: the save failed.
fn save(f: &Fold, path: &str, tmp: &str, style: u32) -> Result<(), String> {
    let mut out = std::fs::File::create(tmp).map_err(|e| e.to_string())?;
    let mut wrong = None;
    let r: std::io::Result<()> = match style {
        0..=2 => {
            let t = sched::lib(|| match style {
                0 => serde_json::to_string(f).map(|s| s.into_bytes()),
                1 => serde_json::to_vec(f),
                _ => serde_json::to_string_pretty(f).map(|s| s.into_bytes()),
            });
            match t {
                Ok(Ok(b)) => out.write_all(&b),
                Ok(Err(e)) => {
                    wrong = Some(format!("serialising gave the error {}", e));
                    Ok(())
                }
                Err(m) => {
                    wrong = Some(format!("serialising panicked: {}", m));
                    Ok(())
                }
            }
        }
        _ => {
            let mut b = std::io::BufWriter::with_capacity([8192, 7, 64][(style % 3) as usize], &mut out);
            let t = sched::lib(|| if style < 6 { serde_json::to_writer(&mut b, f) } else { serde_json::to_writer_pretty(&mut b, f) });
            let flushed = b.flush();
            std::mem::forget(b.into_parts());
            match t {
                Ok(Ok(())) => flushed,
                Ok(Err(e)) if e.is_io() => Err(std::io::Error::new(std::io::ErrorKind::Other, "write failed")),
                Ok(Err(e)) => {
                    wrong = Some(format!("serialising gave the error {}", e));
                    Ok(())
                }
                Err(m) => {
                    wrong = Some(format!("serialising panicked: {}", m));
                    Ok(())
                }
            }
        }
    };
    if let Some(m) = wrong {
        violate("F04", "serialise", m);
        return Err("stop".into());
    }
    r.map_err(|e| e.to_string())?;
    out.sync_all().map_err(|e| e.to_string())?;
    drop(out);
    std::fs::rename(tmp, path).map_err(|e| e.to_string())?;
    Ok(())
}

fn saves() {
    let gens = pick(&[3u32, 1, 6, 12]);
    let p_crash = pick(&[0u32, 300, 700]);
    let p_edit = pick(&[500u32, 0, 1000]);
    let z = docs::size();
    delivery_faults();
    let f = &mut vfs().faults;
    f.wr_short = pick(&[0, 200, 800]);
    f.wr_err = pick(&[0, 0, 0, 30]);
    ev!("{} generations", gens);
    sched::run_one(move || {
        let path = format!("{}saved.fold", vfs::ROOT);
        let tmp = format!("{}saved.fold.tmp", vfs::ROOT);
        let mut f = empty_fold();
        docs::generate(z).into_fold(&mut f);
        let (mut live, mut synced): (Option<Doc>, Option<Doc>) = (None, None);
        for g in 0..gens {
            let want = Doc::of(&f);
            let style = choose(9);
            if permille(p_crash) {
                vfs().die_after = Some(match choose(3) {
                    0 => choose(6),
                    1 => choose(40),
                    _ => choose(400),
                });
            }
            vfs().calm.clear();
            let r = save(&f, &path, &tmp, style);
            if run::violated() {
                return;
            }
            let mut durable = r.is_ok() && permille(500);
            if durable && vfs().alive() {
                vfs().sync_dir();
            } else {
                durable = false;
            }
            let crashed = vfs().dead || permille(p_crash / 4);
            vfs().die_after = None;
            ev!("generation {} saved: {:?}{}", g, r, if crashed { ", crash" } else { "" });
            // what the name stands for now, and what it may stand for after losing power
            if r.is_ok() {
                live = Some(want.clone());
                if durable {
                    synced = live.clone();
                }
            }
            let mut on_disk = vec![live.clone()];
            if crashed && !durable {
                on_disk.push(synced.clone());
            }
            if crashed {
                fault("crash_while_saving");
                vfs().dead = false;
                vfs().crash();
                std::fs::remove_file(&tmp).ok();
            } else if r.is_err() {
                fault("save_failed");
                std::fs::remove_file(&tmp).ok();
            }
            // the next process loads it
            vfs().calm.push(sched::current());
            let me = sched::current();
            vfs().recs.insert(me, LoadRec::default());
            let got = sched::lib(|| Fold::from_file(Path::new(&path)));
            effective();
            let names = |l: &[Option<Doc>]| -> String {
                l.iter().map(|d| d.as_ref().map_or("absent".into(), |d| format!("{:016x}", d.hash()))).collect::<Vec<_>>().join(" or ")
            };
            match got {
                Ok(Ok(x)) => {
                    let d = Doc::of(&x);
                    run::state(d.hash());
                    ev!("loaded {:016x}, expected {}", d.hash(), names(&on_disk));
                    if on_disk.iter().any(|w| w.as_ref().map_or(false, |w| w.differs(&d, 0).is_none())) {
                        count(if want.differs(&d, 0).is_none() { "loaded_the_new_version" } else { "loaded_the_old_version" });
                        live = Some(d);
                        f = x;
                    } else {
                        let m = on_disk.iter().rev().flatten().next().and_then(|w| w.differs(&d, 0)).unwrap_or_default();
                        return violate("F04", "round-trip", format!("generation {}: saved {} was loaded", g, m));
                    }
                }
                Ok(Err(e)) => {
                    if e.raw_os_error() == Some(vfs::ENOENT) && on_disk.iter().any(|d| d.is_none()) {
                        count("nothing_saved_yet");
                        live = None;
                    } else {
                        return violate("F04", "refused", format!("generation {}: the saved document does not load: {}", g, e));
                    }
                }
                Err(m) => return violate("F04", "panic", format!("generation {}: loading the saved document panicked: {}", g, m)),
            }
            if crashed {
                synced = live.clone();
            }
            if permille(p_edit) {
                // edit some parts, or everything
                let z2 = docs::size();
                docs::generate(if permille(500) { z } else { z2 }).into_fold(&mut f);
            }
        }
    });
}
