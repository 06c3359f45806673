//! T01: threads working on objects of their own, or only reading shared ones, get what they would get alone.

use crate::choice::{choose, permille, pick, range, weighted};
use crate::ev;
use crate::graph_sim::{Tag, G};
use crate::run::{self, count, effective, violate};
use crate::sched::{self, Config};
use crate::script::{self, same, short, Common, Script, Shared, World};
use crate::seams;
use crate::vfs::vfs;
use kami::geometry::line::Line;
use kami::geometry::polygon::{Polygon, PolygonError};
use kami::glm::Vec2;
use kami::graph::planar_graph::{Edge, Node, PlanarGraph, PlanarGraphError};
use std::marker::PhantomData;

struct Probe<T>(PhantomData<T>);
trait No {
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> No for Probe<T> {}
struct SendProbe<T>(PhantomData<T>);
impl<T: Send> SendProbe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
impl<T> No for SendProbe<T> {}
struct SyncProbe<T>(PhantomData<T>);
impl<T: Sync> SyncProbe<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<T> No for SyncProbe<T> {}

fn types() {
    macro_rules! probe {
        ($($t:ty),* $(,)?) => {
            $(
                if !SendProbe::<$t>(PhantomData).is_send() {
                    violate("T01", "not-send", format!("{} cannot be sent to another thread", stringify!($t)));
                }
                if !SyncProbe::<$t>(PhantomData).is_sync() {
                    violate("T01", "not-sync", format!("{} cannot be shared between threads", stringify!($t)));
                }
            )*
        };
    }
    probe!(
        PlanarGraph<u32, u32>,
        PlanarGraph<f32, ()>,
        Node<u32>,
        Edge<u32>,
        PlanarGraphError,
        Polygon,
        PolygonError,
        Line,
        kami::fold::fold::Fold,
        kami::math::vector::Vector3<f32>,
        kami::math::bivector::Bivector3<f32>,
        kami::math::trivector::Trivector3<f32>,
        kami::math::rotor::Rotor3<f32>,
    );
    // the probes themselves must be able to say no
    if SendProbe::<std::rc::Rc<u32>>(PhantomData).is_send()
        || SyncProbe::<std::cell::Cell<u32>>(PhantomData).is_sync()
        || Probe::<u32>(PhantomData).is_send()
        || Probe::<u32>(PhantomData).is_sync()
    {
        crate::harness_error("the probes do not work");
    }
}

static mut RESULTS: Vec<Vec<String>> = Vec::new();
fn results() -> &'static mut Vec<Vec<String>> {
    unsafe { &mut *std::ptr::addr_of_mut!(RESULTS) }
}
struct Ptr(*const Script);
unsafe impl Send for Ptr {}

fn body(i: usize, s: &Script, common: Option<Shared>, entropy: u64) -> Box<dyn FnOnce() + Send> {
    let p = Ptr(s);
    Box::new(move || {
        let p = p;
        let s = unsafe { &*p.0 };
        seams::fix_entropy(entropy + i as u64);
        let mut w = World::new(common);
        for (k, st) in s.steps.iter().enumerate() {
            let r = w.step(st, &s.files);
            ev!("task {} step {} {:?}: {}", i, k, st, short(&r));
            results()[i].push(r);
            if permille(100) {
                sched::reschedule("between steps");
            }
        }
    })
}

pub fn run() {
    types();
    let n = 2 + weighted(&[4, 3, 2]);
    let len = pick(&[6u32, 3, 15, 40]);
    let shared = permille(600);
    let mut scripts: Vec<Script> = (0..n).map(|i| script::generate(len, i, shared)).collect();
    if permille(300) {
        // all do much the same at much the same time
        count("threads_with_the_same_script");
        for i in 1..n {
            let mut steps = scripts[0].steps.clone();
            let k = choose(2).min(steps.len() as u32 - 1) as usize;
            steps.rotate_left(k);
            scripts[i] = Script { steps, files: scripts[0].files.clone() };
        }
    }
    // the shared objects are made by a task of their own
    let edges: Vec<(u32, u32)> = (0..choose(20)).map(|_| (choose(12), choose(12))).collect();
    let pts: Vec<(u32, u32)> = (0..2 + choose(10)).map(|_| (choose(6), choose(6))).collect();
    let outline = script::simple_polygon();
    let common: &'static mut Option<Common> = Box::leak(Box::new(None));
    let common_at = common as *mut Option<Common> as usize;
    sched::run_one(move || {
        let r = sched::lib(|| {
            let mut g = G::new();
            for (x, y) in &pts {
                g.add_node(&Vec2::new(*x as f32, *y as f32), Tag(1));
            }
            for (i, j) in &edges {
                let n = g.node_count();
                let _ = g.add_edge(*i as usize % n, *j as usize % n, Tag(2));
            }
            Common { graph: g, poly: Polygon::new(&outline).ok().unwrap() }
        });
        unsafe { *(common_at as *mut Option<Common>) = r.ok() };
    });
    let common = match unsafe { &*(common_at as *const Option<Common>) } {
        Some(c) => Some(Shared(c)),
        None => return,
    };
    let entropy = choose(1 << 16) as u64;
    let alone = || -> Vec<Vec<String>> {
        *seams::out() = seams::Out::default();
        vfs().faults = Default::default();
        *results() = (0..n).map(|_| vec![]).collect();
        for i in 0..n {
            sched::run_tasks(Config { preempt: false, mean_shift: 8, name: None }, vec![body(i, &scripts[i], common.clone(), entropy)]);
        }
        std::mem::take(results())
    };
    let together = || -> Vec<Vec<String>> {
        let f = &mut vfs().faults;
        f.yield_ = pick(&[0, 300, 1000]);
        f.short = pick(&[0, 500]);
        f.short_max = 50;
        f.eintr = pick(&[0, 100]);
        f.max_eintr_row = 5;
        let o = seams::out();
        o.stall = pick(&[0, 100, 600]);
        let cfg = Config { preempt: true, mean_shift: range(2, 14) as u32, name: pick(&[None, None, Some("worker"), Some("main")]) };
        ev!("{} threads, {} steps each", n, len);
        *results() = (0..n).map(|_| vec![]).collect();
        let before = sched::preemptions();
        sched::run_tasks(cfg, scripts.iter().enumerate().map(|(i, s)| body(i, s, common.clone(), entropy)).collect());
        if sched::preemptions() > before {
            effective();
        }
        std::mem::take(results())
    };
    // each script by itself (twice, if first: does it depend on what the process did before?) and all at once
    let alone_first = permille(400);
    let mut b = vec![];
    if alone_first {
        let a = alone();
        b = alone();
        compare(&scripts, &a, &b, "history", "the first time", "in a process that has done other work");
    }
    let t = together();
    if !alone_first {
        b = alone();
    }
    for r in &t {
        run::state(crate::choice::hash_bytes(7, r.concat().as_bytes()));
    }
    compare(&scripts, &b, &t, "interference", "alone", "beside others");
}

fn compare(scripts: &[Script], a: &[Vec<String>], b: &[Vec<String>], class: &str, how_a: &str, how_b: &str) {
    if run::violated() {
        return;
    }
    for (i, s) in scripts.iter().enumerate() {
        let k = match (0..s.steps.len()).find(|&k| !same(&a[i][k], &b[i][k])) {
            Some(k) => k,
            None => continue,
        };
        if seams::clock_reads() > 0 {
            // results that depend on the time are not this property's business
            count("results_that_vary_with_the_clock");
            return;
        }
        violate(
            "T01",
            class,
            format!("thread {} step {} {:?}: {} {} but {} {}", i, k, s.steps[k], how_a, short(&a[i][k]), how_b, short(&b[i][k])),
        );
        return;
    }
}
