//! G07: replicas that apply the same log of edits agree bit for bit. G09: copies of a graph are independent.

use crate::choice::{choose, hash_bytes, permille, pick, range, weighted};
use crate::ev;
use crate::geom::{Op, Res, Snap};
use crate::graph_sim::{apply, foundation, request, snap, stdout_faults, style, Style, G};
use crate::run::{self, count, effective, fault, violate};
use crate::sched::{self, Config};

/// Everything the query interface and `Debug` show of a graph, as one hash.
pub fn observe(g: &G) -> Result<u64, String> {
    sched::lib(|| {
        let mut t = String::new();
        use std::fmt::Write;
        let n = g.node_count();
        let m = g.edge_count();
        let _ = write!(t, "{} {};", n, m);
        for v in g.get_nodes() {
            let _ = write!(t, "{:?};", v);
        }
        for e in g.get_edges() {
            let _ = write!(t, "{:?}{};", e, e.get_label());
        }
        for i in 0..n + 1 {
            let _ = write!(t, "{:?}{};", g.number_of_edges_incident_to(i), g.has_node_at_index(i));
        }
        for i in 0..m + 1 {
            let _ = write!(t, "{};", g.has_edge_at_index(i));
        }
        let total = (n + 1) * (n + 1);
        let step = total / 60 + 1;
        for k in (0..total).step_by(step) {
            let _ = write!(t, "{}", g.has_edge_between_nodes(k / (n + 1), k % (n + 1)) as u8);
        }
        hash_bytes(0xcbf29ce484222325, t.as_bytes())
    })
}

fn same_result(a: &Res, b: &Res) -> bool {
    match (a, b) {
        // the text of a panic may name addresses or thread-specific things; that it panics is what counts
        (Res::Panic(_), Res::Panic(_)) => true,
        _ => a == b,
    }
}

// ---------------------------------------------------------------- G07

struct Entry {
    op: Op,
    res: Res,
    after: Snap,
    seen: Result<u64, String>,
    by: usize,
}

struct Kept {
    at: usize,
    g: G,
}

#[derive(Default)]
struct Shared {
    log: Vec<Op>,
    /// what whoever came first found at each position
    history: Vec<Entry>,
    inbox: Vec<Vec<usize>>,
    /// copies kept by the replicas (and the primary), from which anyone may restart
    kept: Vec<Vec<&'static Kept>>,
    /// replicas whose process died, waiting for another thread to take over, with the copy they start from
    orphans: Vec<(usize, Option<Kept>)>,
    finished: bool,
    done: usize,
    replicas: usize,
    /// so many edits first that only make a large graph
    base: usize,
    stop: bool,
}
static mut SH: Option<Shared> = None;
fn sh() -> &'static mut Shared {
    unsafe { (*std::ptr::addr_of_mut!(SH)).as_mut().unwrap() }
}

/// Apply log entry `k` to `g` and compare with what others found there.
fn advance(who: usize, g: &mut G, k: usize) -> bool {
    let op = sh().log[k].clone();
    let res = apply(g, &op);
    let after = snap(g);
    let seen = observe(g);
    run::state(after.hash());
    ev!("  {} applies #{} {:?} -> {:?}, {} nodes {} edges", who, k, op, res, after.nodes.len(), after.edges.len());
    if k == sh().history.len() {
        sh().history.push(Entry { op, res, after, seen, by: who });
        return true;
    }
    let e = &sh().history[k];
    effective();
    let msg = if !same_result(&e.res, &res) {
        Some(("result", format!("{:?} returned {:?} on {} and {:?} on {}", e.op, e.res, e.by, res, who)))
    } else if !e.after.same(&after) {
        Some(("state", format!("after {:?}, {} differs from {}: {}", e.op, who, e.by, e.after.difference(&after))))
    } else if e.seen != seen {
        Some(("queries", format!("after {:?} the queries or labels of {} differ from those of {}", e.op, who, e.by)))
    } else {
        None
    };
    if let Some((class, m)) = msg {
        violate("G07", class, format!("log position {}: {}", k, m));
        sh().stop = true;
        return false;
    }
    true
}

fn keep(who: usize, g: &G, at: usize) {
    match sched::lib(|| g.clone()) {
        Ok(c) => {
            count("copies_kept");
            ev!("  {} keeps a copy at {}", who, at);
            sh().kept[who].push(Box::leak(Box::new(Kept { at, g: c })));
        }
        Err(m) => violate("G07", "copy-panic", format!("cloning panicked: {}", m)),
    }
}

fn start_from(who: usize, choices: u32) -> Option<Kept> {
    // an own or somebody else's copy, or nothing
    let from = match choose(choices) {
        0 => who,
        1 => choose(sh().kept.len() as u32) as usize,
        _ => return None,
    };
    let n = sh().kept[from].len();
    if n == 0 {
        return None;
    }
    let i = choose(n as u32) as usize;
    // the clone below may be preempted: nothing may borrow from the lists meanwhile
    let k: &'static Kept = sh().kept[from][i];
    let (at, r) = (k.at, sched::lib(|| k.g.clone()));
    match r {
        Ok(g) => {
            ev!("  {} restarts from the copy {} kept at {}", who, from, at);
            Some(Kept { at, g })
        }
        Err(m) => {
            violate("G07", "copy-panic", format!("cloning panicked: {}", m));
            None
        }
    }
}

fn primary(st: Style, base: Vec<Op>, ops: usize, p_keep: u32, p_lost: u32, p_dup: u32) {
    let mut g = G::new();
    for k in 0..base.len() + ops {
        if sh().stop {
            break;
        }
        let now = snap(&g);
        if now.edges.len() > 1000 {
            count("runs_given_up_as_the_graph_outgrew_them");
            break;
        }
        let op = match base.get(k) {
            Some(op) => op.clone(),
            None => request(&st, &now, k as u32 + 1),
        };
        sh().log.push(op);
        if !advance(0, &mut g, k) {
            break;
        }
        let panicked = matches!(sh().history[k].res, Res::Panic(_));
        for r in 1..=sh().replicas {
            if permille(p_lost) {
                fault("message_lost");
                continue;
            }
            sh().inbox[r].push(k);
            if permille(p_dup) {
                fault("message_duplicated");
                sh().inbox[r].push(k);
            }
        }
        if panicked {
            // the graph may be in any state now; everyone must have got here the same way
            break;
        }
        if permille(if k < base.len() { 5 } else { p_keep }) {
            keep(0, &g, k + 1);
        }
        if permille(300) {
            sched::sleep_us(1 + choose(20_000) as u64);
        } else {
            sched::reschedule("primary");
        }
    }
    sh().finished = true;
}

fn replica(who: usize, from: Option<Kept>, p_keep: u32, p_crash: u32, spare: bool) {
    let (mut at, mut g) = match from {
        Some(k) => (k.at, k.g),
        None => (0, G::new()),
    };
    let mut buffered: Vec<usize> = vec![];
    let mut crashes = 0;
    loop {
        if sh().stop {
            return;
        }
        if at > 0 && matches!(sh().history[at - 1].res, Res::Panic(_)) {
            break;
        }
        if sh().finished && at >= sh().log.len() {
            break;
        }
        // take one message, in any order
        let n = sh().inbox[who].len();
        if n > 0 {
            let i = choose(n as u32) as usize;
            let k = sh().inbox[who].remove(i);
            if i > 0 {
                fault("message_reordered");
            }
            if k >= at && !buffered.contains(&k) {
                buffered.push(k);
            }
        } else if !buffered.contains(&at) && at < sh().log.len() {
            // a gap: ask again
            if permille(600) {
                sched::sleep_us(1 + choose(50_000) as u64);
            }
            buffered.push(at);
        } else if n == 0 && at >= sh().log.len() {
            sched::sleep_us(1 + choose(20_000) as u64);
        }
        while let Some(i) = buffered.iter().position(|&k| k == at) {
            buffered.remove(i);
            if !advance(who, &mut g, at) {
                return;
            }
            at += 1;
            if matches!(sh().history[at - 1].res, Res::Panic(_)) {
                break;
            }
            if permille(if at < sh().base { 5 } else { p_keep }) {
                keep(who, &g, at);
            }
            if crashes < 6 && permille(p_crash) {
                crashes += 1;
                fault("replica_crashed");
                let k = start_from(who, 3);
                if spare && sh().orphans.is_empty() && permille(600) {
                    // another thread takes over
                    sh().orphans.push((who, k));
                    return;
                }
                match k {
                    Some(k) => {
                        at = k.at;
                        g = k.g;
                    }
                    None => {
                        ev!("  {} restarts from nothing", who);
                        at = 0;
                        g = G::new();
                    }
                }
                buffered.clear();
            }
            sched::reschedule("replica");
        }
        sched::reschedule("replica");
    }
    sh().done += 1;
    // a kept copy anywhere in the past leads to the same place, too
    if !sh().log.is_empty() && permille(400) {
        if let Some(k) = start_from(who, 2) {
            let (mut at, mut g) = (k.at, k.g);
            while at < sh().history.len() && !sh().stop {
                if at > 0 && matches!(sh().history[at - 1].res, Res::Panic(_)) {
                    break;
                }
                if !advance(who, &mut g, at) {
                    return;
                }
                at += 1;
            }
            count("replays_from_old_copies");
        }
    }
}

pub fn run_replicas() {
    let mut st = style();
    // determinism has nothing to do with geometry being clear
    if permille(100) {
        st.hostile = true;
        st.pos[10] = 3;
    }
    let replicas = 1 + weighted(&[3, 3, 1]);
    let mut ops = pick(&[10usize, 4, 25, 60, 100]);
    let mut base = vec![];
    if !st.hostile && permille(15) {
        count("large_graphs_first");
        base = foundation(&st, &mut 0);
        ops = ops.min(25);
        st.mix = pick(&[[4, 6, 3, 2], [1, 2, 6, 6]]);
    }
    let p_keep = pick(&[100u32, 0, 300]);
    let p_crash = pick(&[0u32, 20, 100]);
    let p_lost = pick(&[0u32, 50, 300]);
    let p_dup = pick(&[0u32, 100]);
    stdout_faults();
    let preempt = permille(600);
    let shift = range(3, 14) as u32;
    ev!("primary, {} replicas, {} edits, grid {} scale {} mix {:?}", replicas, ops, st.grid, st.scale, st.mix);
    unsafe {
        SH = Some(Shared {
            inbox: (0..=replicas).map(|_| vec![]).collect(),
            kept: (0..=replicas).map(|_| vec![]).collect(),
            replicas,
            base: base.len(),
            ..Default::default()
        })
    };
    let spare = permille(600);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    bodies.push(Box::new(move || primary(st, base, ops, p_keep, p_lost, p_dup)));
    for r in 1..=replicas {
        bodies.push(Box::new(move || replica(r, None, p_keep, p_crash, spare)));
    }
    if spare {
        bodies.push(Box::new(move || loop {
            if sh().stop || sh().done == sh().replicas {
                return;
            }
            match sh().orphans.pop() {
                Some((who, k)) => {
                    ev!("  a new thread takes over as {}", who);
                    fault("replica_moved_to_another_thread");
                    replica(who, k, p_keep, 0, false);
                }
                None => sched::sleep_us(20_000),
            }
        }));
    }
    sched::run_tasks(Config { preempt, mean_shift: shift, name: None }, bodies);
    if run::violated() {
        return;
    }
    if sh().done != sh().replicas {
        crate::harness_error("a replica did not reach the end of the log");
    }
}

// ---------------------------------------------------------------- G09

struct Copy {
    id: u32,
    g: G,
    seen: Snap,
    queries: Result<u64, String>,
    /// copies with the same group have had exactly the same edits
    group: u32,
}

pub fn run_copies() {
    sched::run_one(copies);
}

fn check_unedited(pool: &[Copy], edited: &[u32], what: &str) -> bool {
    for c in pool.iter().filter(|c| !edited.contains(&c.id)) {
        let now = snap(&c.g);
        if !now.same(&c.seen) {
            violate("G09", "leak", format!("{} changed copy {}: {}", what, c.id, c.seen.difference(&now)));
            return false;
        }
        if observe(&c.g) != c.queries {
            violate("G09", "leak-queries", format!("{} changed what the queries of copy {} say", what, c.id));
            return false;
        }
    }
    true
}

fn copies() {
    let mut st = style();
    st.cap = st.cap.min(24);
    let large = !st.hostile && permille(20);
    let ops = pick(&[15u32, 6, 30, 60, 100]);
    let w = [10u32, 4, pick(&[0, 2]), 2, pick(&[4, 10])];
    stdout_faults();
    ev!("copies: {} steps, grid {} scale {} mix {:?}", ops, st.grid, st.scale, st.mix);
    let mut ids = 0u32;
    let mut groups = 0u32;
    let mut tag = 0u32;
    let g = G::new();
    let seen = snap(&g);
    let queries = observe(&g);
    let mut pool = vec![Copy { id: 0, g, seen, queries, group: 0 }];
    if large {
        count("large_graphs_first");
        st.mix = pick(&[[4, 6, 3, 2], [1, 2, 6, 6]]);
        for op in foundation(&st, &mut tag) {
            if let Res::Panic(_) = apply(&mut pool[0].g, &op) {
                return;
            }
        }
        pool[0].seen = snap(&pool[0].g);
        pool[0].queries = observe(&pool[0].g);
    }
    for _ in 0..ops {
        sched::advance(1000);
        let k = choose(pool.len() as u32) as usize;
        match weighted(&w) {
            1 | 2 if pool.len() < 6 => {
                // copy, or copy over an existing one (restore)
                let r = sched::lib(|| pool[k].g.clone());
                let c = match r {
                    Ok(c) => c,
                    Err(m) => return violate("G09", "copy-panic", format!("cloning panicked: {}", m)),
                };
                ids += 1;
                let now = snap(&c);
                ev!("copy {} of {}", ids, pool[k].id);
                if !now.same(&pool[k].seen) {
                    return violate("G09", "copy-differs", format!("a copy of {} differs: {}", pool[k].id, pool[k].seen.difference(&now)));
                }
                let q = observe(&c);
                if q != pool[k].queries {
                    return violate("G09", "copy-differs", format!("the queries of a copy of {} answer differently", pool[k].id));
                }
                let group = pool[k].group;
                pool.push(Copy { id: ids, g: c, seen: now, queries: q, group });
                count("copies");
                if !check_unedited(&pool, &[], "copying") {
                    return;
                }
            }
            2 | 3 if pool.len() > 1 => {
                let from = k;
                let mut to = choose(pool.len() as u32 - 1) as usize;
                if to >= from {
                    to += 1;
                }
                if permille(500) {
                    // restore: the old value is dropped, the snapshot stays
                    let r = if permille(500) {
                        sched::lib(|| pool[from].g.clone()).map(|c| pool[to].g = c)
                    } else {
                        let (a, b) = if from < to {
                            let (x, y) = pool.split_at_mut(to);
                            (&x[from], &mut y[0])
                        } else {
                            let (x, y) = pool.split_at_mut(from);
                            (&y[0], &mut x[to])
                        };
                        sched::lib(|| b.g.clone_from(&a.g))
                    };
                    if let Err(m) = r {
                        return violate("G09", "copy-panic", format!("cloning panicked: {}", m));
                    }
                    ev!("restore {} from {}", pool[to].id, pool[from].id);
                    fault("restored_from_snapshot");
                    pool[to].seen = pool[from].seen.clone();
                    pool[to].queries = pool[from].queries.clone();
                    pool[to].group = pool[from].group;
                } else {
                    ev!("drop {}", pool[to].id);
                    fault("copy_dropped");
                    let c = pool.remove(to);
                    if let Err(m) = sched::lib(move || drop(c.g)) {
                        return violate("G09", "drop-panic", format!("dropping panicked: {}", m));
                    }
                }
                if !check_unedited(&pool, &[], "restoring or dropping") {
                    return;
                }
            }
            c => {
                // an edit, on one copy alone or on all those that have had the same history
                tag += 1;
                if pool[k].seen.edges.len() > 1000 {
                    count("runs_given_up_as_the_graph_outgrew_them");
                    return;
                }
                let op = request(&st, &pool[k].seen, tag);
                let group = pool[k].group;
                let twins: Vec<usize> = if c == 4 {
                    (0..pool.len()).filter(|&i| pool[i].group == group).collect()
                } else {
                    vec![k]
                };
                if c == 4 && twins.len() > 1 {
                    count("edits_made_to_twins");
                }
                groups += 1;
                let mut first: Option<(Res, Snap, Result<u64, String>)> = None;
                let mut done: Vec<u32> = vec![];
                for &i in &twins {
                    let id = pool[i].id;
                    let res = apply(&mut pool[i].g, &op);
                    let now = snap(&pool[i].g);
                    let q = observe(&pool[i].g);
                    ev!("{:?} on {} -> {:?}; {} nodes {} edges", op, id, res, now.nodes.len(), now.edges.len());
                    run::state(now.hash());
                    if pool.len() > 1 {
                        effective();
                    }
                    match &first {
                        Some((r, s, o)) => {
                            let d = if !same_result(r, &res) {
                                Some(format!("returned {:?} and {:?}", r, res))
                            } else if !s.same(&now) {
                                Some(format!("led to different graphs: {}", s.difference(&now)))
                            } else if *o != q {
                                Some("led to different answers of the queries".to_string())
                            } else {
                                None
                            };
                            if let Some(m) = d {
                                return violate("G09", "twin", format!("{:?} on copies with the same history {}", op, m));
                            }
                        }
                        None => first = Some((res.clone(), now.clone(), q.clone())),
                    }
                    let over = matches!(res, Res::Panic(_));
                    pool[i].seen = now;
                    pool[i].queries = q;
                    pool[i].group = groups;
                    done.push(id);
                    if !check_unedited(&pool, &[id], &format!("{:?} on copy {}", op, id)) {
                        return;
                    }
                    if over && twins.len() == 1 {
                        // whatever state it is in now is its own affair, but nobody else's
                        count("panics_seen");
                        pool[i].g = G::new();
                        pool[i].seen = snap(&pool[i].g);
                        pool[i].queries = observe(&pool[i].g);
                    }
                }
                if let Some((Res::Panic(_), ..)) = first {
                    return;
                }
            }
        }
    }
}
