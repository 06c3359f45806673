//! G01-G06, G08: several editors work on one graph over a simulated network, views follow its change reports.

use crate::choice::{choose, permille, pick, range, weighted};
use crate::ev;
use crate::geom::{self, EdgeS, NodeS, Op, Plan, Res, Snap};
use crate::run::{self, count, effective, fault, violate};
use crate::{sched, seams};
use kami::glm::Vec2;
use kami::graph::planar_graph::{PlanarGraph, PlanarGraphError};
use std::cmp::Reverse;
use std::collections::BinaryHeap;

/// Payload of nodes and edges. Node payloads can only be seen through `Debug`, so `Debug` records them.
#[derive(Clone, Copy, Default, PartialEq)]
pub struct Tag(pub u32);
static mut SEEN: Vec<u32> = Vec::new();
impl std::fmt::Debug for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // may run inside a library call: not to be preempted while it touches the shared list
        sched::outside(|| unsafe { SEEN.push(self.0) });
        f.write_fmt(format_args!("tag {}", self.0))
    }
}
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

pub type G = PlanarGraph<Tag, Tag>;

pub fn snap(g: &G) -> Snap {
    use std::fmt::Write;
    let mut s = Snap::default();
    for n in g.get_nodes().iter() {
        unsafe { SEEN.clear() };
        let _ = write!(Sink, "{:?}", n);
        let tag = unsafe { if SEEN.len() == 1 { SEEN[0] } else { u32::MAX } };
        let p = n.get_position();
        s.nodes.push(NodeS { x: p.x, y: p.y, tag });
    }
    for e in g.get_edges().iter() {
        let (a, b) = e.get_node_indices();
        s.edges.push(EdgeS { a, b, tag: e.get_data().0 });
    }
    s
}

pub fn apply(g: &mut G, op: &Op) -> Res {
    let lists = |r: Result<(Vec<usize>, Vec<usize>), PlanarGraphError>| match r {
        Ok((a, b)) => Res::Lists(a, b),
        Err(PlanarGraphError::NoSuchVertex) => Res::NoSuchVertex,
        Err(_) => Res::NoSuchEdge,
    };
    let r = match *op {
        Op::AddNode(x, y, t) => {
            let p = Vec2::new(x, y);
            sched::lib(|| g.add_node(&p, Tag(t))).map(|(i, e)| Res::Node(i, e))
        }
        Op::AddEdge(i, j, t) => sched::lib(|| g.add_edge(i, j, Tag(t))).map(lists),
        Op::RemoveEdge(i) => sched::lib(|| g.remove_edge(i)).map(|(a, b)| Res::Lists(a, b)),
        Op::RemoveNode(i) => sched::lib(|| g.remove_node(i)).map(|(a, b)| Res::Lists(a, b)),
    };
    r.unwrap_or_else(Res::Panic)
}

/// All read-only queries against the observed lists. Returns (class, message) of the first disagreement.
pub fn check_queries(g: &G, s: &Snap, salt: usize) -> Option<(&'static str, String)> {
    let n = s.nodes.len();
    let m = s.edges.len();
    let r = sched::lib(|| {
        if g.node_count() != n || g.edge_count() != m {
            return Some(("counts", format!("counts {}/{} for {} nodes and {} edges", g.node_count(), g.edge_count(), n, m)));
        }
        for i in (0..n + 2).chain([usize::MAX, n + 1000]) {
            let want = i < n;
            if g.has_node_at_index(i) != want {
                return Some(("has-node", format!("has_node_at_index({}) is {} with {} nodes", i, !want, n)));
            }
            if g.get_vertex(i).map(|v| (v.get_position().x.to_bits(), v.get_position().y.to_bits()))
                != s.nodes.get(i).map(|v| (v.x.to_bits(), v.y.to_bits()))
            {
                return Some(("get-node", format!("get_vertex({}) disagrees with the node list", i)));
            }
            let d = g.number_of_edges_incident_to(i);
            let want = if want { Some(s.degree(i)) } else { None };
            if d != want {
                return Some(("degree", format!("number_of_edges_incident_to({}) is {:?}, the list says {:?}", i, d, want)));
            }
        }
        for i in (0..m + 2).chain([usize::MAX, m + 1000]) {
            let want = i < m;
            if g.has_edge_at_index(i) != want {
                return Some(("has-edge", format!("has_edge_at_index({}) is {} with {} edges", i, !want, m)));
            }
            let got = g.get_edge(i).map(|e| (e.get_node_indices(), e.get_data().0));
            if got != s.edges.get(i).map(|e| ((e.a, e.b), e.tag)) {
                return Some(("get-edge", format!("get_edge({}) disagrees with the edge list", i)));
            }
        }
        let total = (n + 1) * (n + 1);
        let step = (total / 60).max(1);
        let mut k = salt % step;
        while k < total {
            let (a, b) = (k / (n + 1), k % (n + 1));
            let want = s.edges.iter().any(|e| (e.a, e.b) == (a, b) || (e.b, e.a) == (a, b));
            if g.has_edge_between_nodes(a, b) != want {
                return Some(("adjacency", format!("has_edge_between_nodes({}, {}) is {}", a, b, !want)));
            }
            k += step;
        }
        for e in s.edges.iter() {
            if !g.has_edge_between_nodes(e.a, e.b) || !g.has_edge_between_nodes(e.b, e.a) {
                return Some(("adjacency", format!("has_edge_between_nodes does not know edge {:?}", e)));
            }
        }
        None
    });
    match r {
        Ok(x) => x,
        Err(m) => Some(("panic", format!("a query panicked: {}", m))),
    }
}

// ---------------------------------------------------------------- requests

#[derive(Clone)]
pub struct Style {
    /// weights of the ways to choose a position
    pub pos: [u32; 12],
    pub scale: f32,
    pub grid: i64,
    pub shift: (f32, f32),
    /// weights add-node, add-edge, remove-edge, remove-node
    pub mix: [u32; 4],
    pub cap: usize,
    pub hostile: bool,
}

pub fn style() -> Style {
    let hostile = permille(100);
    let mut pos = [0u32; 12];
    for (i, w) in pos.iter_mut().enumerate() {
        if i < 10 {
            *w = pick(&[0, 0, 1, 4, 12]);
        }
    }
    // at least one source of fresh positions
    pos[choose(4) as usize] += 6;
    if hostile {
        pos[10] = 6;
    } else if permille(120) {
        pos[11] = pick(&[2, 6]);
    }
    let scale = pick(&[100.0f32, 1.0, 10.0, 1000.0, 1e5, 0.01]);
    let shift = match weighted(&[6, 1, 1]) {
        0 => (0.0, 0.0),
        1 => (scale * 4.0, -scale * 2.0),
        _ => (-scale * 16.0, scale * 8.0),
    };
    let mix = match weighted(&[4, 3, 3, 1]) {
        0 => [5, 6, 1, 1],
        1 => [4, 6, 3, 2],
        2 => [4, 4, 4, 4],
        _ => [6, 9, 0, 0],
    };
    Style { pos, scale, grid: range(2, 8), shift, mix, cap: pick(&[12usize, 6, 24, 40]), hostile }
}

fn random_node(s: &Snap) -> Option<NodeS> {
    if s.nodes.is_empty() {
        None
    } else {
        Some(s.nodes[choose(s.nodes.len() as u32) as usize])
    }
}

pub fn position(st: &Style, s: &Snap) -> (f32, f32) {
    let fr = |r: i64| range(-r, r) as f32 / r as f32;
    let base = |x: f32, y: f32| (x + st.shift.0, y + st.shift.1);
    match weighted(&st.pos) {
        0 => {
            let u = st.scale / st.grid as f32;
            base(range(0, st.grid) as f32 * u, range(0, st.grid) as f32 * u)
        }
        1 => base(range(0, 500) as f32 * (st.scale / 500.0), range(0, 500) as f32 * (st.scale / 500.0)),
        2 => base(fr(1 << 23) * st.scale, fr(1 << 23) * st.scale),
        3 => {
            // around a hub, so that many edges meet in one node
            let k = range(0, 15) as f32 / 16.0 * std::f32::consts::TAU;
            base(k.cos() * st.scale, k.sin() * st.scale)
        }
        4 if !s.edges.is_empty() => {
            let e = s.edges[choose(s.edges.len() as u32) as usize];
            let (a, b) = (s.nodes[e.a], s.nodes[e.b]);
            let t = range(1, 15) as f32 / 16.0;
            (a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
        }
        5 if !s.nodes.is_empty() => {
            let n = random_node(s).unwrap();
            (n.x, n.y)
        }
        6 if !s.edges.is_empty() => {
            let e = s.edges[choose(s.edges.len() as u32) as usize];
            let (a, b) = (s.nodes[e.a], s.nodes[e.b]);
            let t = pick(&[-1.0f32, 2.0, -0.5, 1.5]);
            (a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
        }
        7 if s.nodes.len() >= 2 => {
            let (a, b) = (random_node(s).unwrap(), random_node(s).unwrap());
            let t = pick(&[0.5f32, 0.25, 0.75, 2.0, -1.0]);
            (a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
        }
        8 if !s.nodes.is_empty() => {
            // horizontally, vertically or diagonally aligned with a node
            let n = random_node(s).unwrap();
            let d = range(-8, 8) as f32 * (st.scale / 8.0);
            match choose(4) {
                0 => (n.x + d, n.y),
                1 => (n.x, n.y + d),
                2 => (n.x + d, n.y + d),
                _ => (n.x + d, n.y - d),
            }
        }
        9 => pick(&[(0.0f32, 0.0f32), (-0.0, 0.0), (0.0, -0.0), (1.0, 0.0), (0.0, 1.0)]),
        10 if !s.nodes.is_empty() && permille(450) => {
            // all but where something already is
            let (x, y) = if s.edges.is_empty() || permille(500) {
                let n = random_node(s).unwrap();
                (n.x, n.y)
            } else {
                let e = s.edges[choose(s.edges.len() as u32) as usize];
                let (a, b) = (s.nodes[e.a], s.nodes[e.b]);
                let t = range(0, 16) as f32 / 16.0;
                (a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
            };
            let near = |v: f32| {
                let r = pick(&[2i64, 0, 1, 8, 64, 1024]);
                f32::from_bits((v.to_bits() as i64 + range(-r, r)).clamp(0, u32::MAX as i64) as u32)
            };
            (near(x), near(y))
        }
        10 => {
            let h = |_| {
                pick(&[
                    0.0f32,
                    f32::NAN,
                    f32::INFINITY,
                    f32::NEG_INFINITY,
                    f32::MAX,
                    -f32::MAX,
                    1e30,
                    1e-40,
                    f32::MIN_POSITIVE,
                    1e18,
                    1e20,
                    -3e19,
                    1.0 + f32::EPSILON,
                ])
            };
            (h(0), h(1))
        }
        11 if !s.nodes.is_empty() => {
            // close to a node, or to a point of an edge, but clearly somewhere else
            let (x, y) = if s.edges.is_empty() || permille(600) {
                let n = random_node(s).unwrap();
                (n.x, n.y)
            } else {
                let e = s.edges[choose(s.edges.len() as u32) as usize];
                let (a, b) = (s.nodes[e.a], s.nodes[e.b]);
                let t = range(1, 15) as f32 / 16.0;
                (a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
            };
            let unit = s.max_coord() as f32 * f32::EPSILON;
            let d = unit * pick(&[300.0f32, 700.0, 1500.0, 3000.0, 6000.0, 20000.0]);
            let (u, v) = pick(&[(1.0f32, 0.0f32), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (0.8, 0.6), (-0.6, 0.8)]);
            (x + u * d, y + v * d)
        }
        _ => base(range(0, 500) as f32 * (st.scale / 500.0), range(0, 500) as f32 * (st.scale / 500.0)),
    }
}

/// An index below n as a user of a possibly stale view would pick it, sometimes out of range.
fn index(n: usize, wild: u32) -> usize {
    if n == 0 || permille(wild) {
        return match choose(4) {
            0 => n,
            1 => n + 1 + choose(5) as usize,
            2 => usize::MAX,
            _ => n + 100_000,
        };
    }
    match weighted(&[6, 2, 2]) {
        0 => choose(n as u32) as usize,
        1 => n - 1,
        _ => 0,
    }
}

/// A request by someone who believes the graph to be `view`.
pub fn request(st: &Style, view: &Snap, tag: u32) -> Op {
    let full = view.nodes.len() >= st.cap;
    let mut w = st.mix;
    if full {
        w[0] = 0;
        w[1] = 1;
        w[2] += 2;
        w[3] += 2;
    }
    if view.nodes.len() < 3 {
        w[0] += 6;
    }
    match weighted(&w) {
        0 => {
            let (x, y) = position(st, view);
            Op::AddNode(x, y, tag)
        }
        1 => {
            let n = view.nodes.len();
            match weighted(&[10, 2, 1, 1]) {
                1 if !view.edges.is_empty() => {
                    // already there
                    let e = view.edges[choose(view.edges.len() as u32) as usize];
                    if permille(500) {
                        Op::AddEdge(e.a, e.b, tag)
                    } else {
                        Op::AddEdge(e.b, e.a, tag)
                    }
                }
                2 => {
                    let i = index(n, 30);
                    Op::AddEdge(i, i, tag)
                }
                3 => Op::AddEdge(index(n, 500), index(n, 500), tag),
                _ => {
                    let i = index(n, 10);
                    let mut j = index(n, 10);
                    if i == j && n > 1 && i < n {
                        j = (i + 1 + choose(n as u32 - 1) as usize) % n;
                    }
                    Op::AddEdge(i, j, tag)
                }
            }
        }
        2 => Op::RemoveEdge(index(view.edges.len(), 30)),
        _ => Op::RemoveNode(index(view.nodes.len(), 30)),
    }
}

/// Requests that build something large and regular first: a node of high degree, many edges for one edge to cross,
/// a fine grid, a long ring, many separate parts.
pub fn foundation(st: &Style, tag: &mut u32) -> Vec<Op> {
    // (also just above where small counters would overflow)
    let mut k = pick(&[8usize, 20, 40, 90, 129, 180, 257, 258, 300]);
    if k == 300 && permille(40) {
        k = pick(&[520usize, 513, 400]);
    }
    let u = st.scale / 64.0;
    let mut nodes: Vec<(f32, f32)> = vec![];
    let mut edges: Vec<(usize, usize)> = vec![];
    match choose(7) {
        0 => {
            // a star
            nodes.push((0.0, 0.0));
            for i in 0..k {
                let t = i as f64 / k as f64 * std::f64::consts::TAU;
                nodes.push(((64.0 * t.cos()) as f32, (64.0 * t.sin()) as f32));
                edges.push((0, i + 1));
            }
        }
        1 => {
            // parallel lines, and one across them all
            for i in 0..k {
                nodes.push((i as f32, -8.0));
                nodes.push((i as f32, 8.0 + (i % 3) as f32));
                edges.push((2 * i, 2 * i + 1));
            }
            nodes.push((-3.0, pick(&[0.0, -1.5])));
            nodes.push((k as f32 + 4.0, pick(&[0.0, 2.75])));
            edges.push((2 * k, 2 * k + 1));
            if permille(500) {
                // standing up
                for p in nodes.iter_mut() {
                    *p = (p.1, p.0);
                }
            }
        }
        2 => {
            let m = (k as f32).sqrt() as usize;
            for i in 0..m {
                nodes.push((i as f32, -1.0));
                nodes.push((i as f32, m as f32));
                nodes.push((-1.0, i as f32));
                nodes.push((m as f32, i as f32));
                edges.push((4 * i, 4 * i + 1));
                edges.push((4 * i + 2, 4 * i + 3));
            }
        }
        3 => {
            for i in 0..k {
                // on a parabola and its chord: no three in line
                let x = i as f32 - (k / 2) as f32;
                nodes.push((x, x * x / 16.0));
                edges.push((i, (i + 1) % k));
            }
        }
        4 => {
            // long lines that cross at small angles
            for i in 0..1 + k % 5 {
                let y = i as f32 * 12.0;
                let h = pick(&[1.0f32, 0.25, 0.06, 0.015, 0.008]);
                let (l, r) = (pick(&[0.0f32, 10.0, 20.0]), 64.0 - pick(&[0.0f32, 12.0, 25.0]));
                nodes.extend([(0.0, y), (64.0, y), (l, y - h), (r, y + h)]);
                edges.extend([(4 * i, 4 * i + 1), (4 * i + 2, 4 * i + 3)]);
            }
            if permille(500) {
                for p in nodes.iter_mut() {
                    *p = (p.1, p.0);
                }
            }
        }
        5 => {
            for i in 0..k {
                nodes.push(((i % 16) as f32 * 3.0, (i / 16) as f32 * 3.0));
                nodes.push(((i % 16) as f32 * 3.0 + 1.0, (i / 16) as f32 * 3.0 + 1.0));
                edges.push((2 * i, 2 * i + 1));
            }
        }
        _ => {
            for i in 0..k {
                nodes.push(((i % 20) as f32, (i / 20) as f32));
            }
        }
    }
    let mut ops = vec![];
    let mut next = || {
        *tag += 1;
        *tag
    };
    for (x, y) in nodes {
        ops.push(Op::AddNode(x * u + st.shift.0, y * u + st.shift.1, next()));
    }
    let (from, stride, flip) = (choose(8) as usize, pick(&[1usize, 7, 11]), choose(3));
    let n = edges.len();
    let stride = if n > 0 && n % stride != 0 { stride } else { 1 };
    for i in 0..n {
        let (a, b) = edges[(from + i * stride) % n];
        let (a, b) = if flip == 0 || (flip == 1 && i % 2 == 0) { (a, b) } else { (b, a) };
        ops.push(Op::AddEdge(a, b, next()));
    }
    ops
}

pub fn stdout_faults() {
    let o = seams::out();
    *o = seams::Out::default();
    match weighted(&[7, 2, 1]) {
        0 => {}
        1 => {
            o.on = true;
            o.rate = pick(&[20, 150, 500, 900]);
        }
        _ => {
            o.on = true;
            o.rate = pick(&[0, 50]);
            o.break_after = Some(choose(40));
            o.sticky_errno = pick(&[crate::vfs::EPIPE, crate::vfs::ENOSPC, crate::vfs::EBADF, crate::vfs::EIO]);
        }
    }
}

// ---------------------------------------------------------------- the session

#[derive(Clone, Default)]
struct View {
    nodes: Vec<Option<NodeS>>,
    edges: Vec<Option<EdgeS>>,
}
impl View {
    fn of(s: &Snap) -> View {
        View { nodes: s.nodes.iter().map(|n| Some(*n)).collect(), edges: s.edges.iter().map(|e| Some(*e)).collect() }
    }
    fn refresh(&mut self, s: &Snap, nodes: &[usize], edges: &[usize]) {
        for &i in nodes {
            if i < s.nodes.len() {
                if i >= self.nodes.len() {
                    self.nodes.resize(i + 1, None);
                }
                self.nodes[i] = Some(s.nodes[i]);
            } else if i < self.nodes.len() {
                // reported, and past the current end: dropped
                self.nodes[i] = None;
            }
        }
        for &i in edges {
            if i < s.edges.len() {
                if i >= self.edges.len() {
                    self.edges.resize(i + 1, None);
                }
                self.edges[i] = Some(s.edges[i]);
            } else if i < self.edges.len() {
                self.edges[i] = None;
            }
        }
    }
    fn differs(&self, s: &Snap) -> Option<String> {
        for (i, n) in s.nodes.iter().enumerate() {
            match self.nodes.get(i) {
                Some(Some(m)) if m.same(n) => {}
                x => return Some(format!("node {} is {:?} but the view has {:?}", i, n, x.cloned().flatten())),
            }
        }
        for (i, e) in s.edges.iter().enumerate() {
            match self.edges.get(i) {
                Some(Some(f)) if f.same(e) => {}
                x => return Some(format!("edge {} is {:?} but the view has {:?}", i, e, x.cloned().flatten())),
            }
        }
        if let Some(i) = (s.nodes.len()..self.nodes.len()).find(|&i| self.nodes[i].is_some()) {
            return Some(format!("there is no node {} any more but the view, never told, still has {:?}", i, self.nodes[i].unwrap()));
        }
        if let Some(i) = (s.edges.len()..self.edges.len()).find(|&i| self.edges[i].is_some()) {
            return Some(format!("there is no edge {} any more but the view, never told, still has {:?}", i, self.edges[i].unwrap()));
        }
        None
    }
    fn believed(&self) -> Snap {
        let mut s = Snap::default();
        for n in &self.nodes {
            match n {
                Some(n) => s.nodes.push(*n),
                None => break,
            }
        }
        for e in self.edges.iter().flatten() {
            if e.a < s.nodes.len() && e.b < s.nodes.len() {
                s.edges.push(*e);
            }
        }
        s
    }
}

enum What {
    /// editor decides on its next request
    Think(usize),
    /// a request reaches the graph
    Arrive(usize, u32, Op),
    /// a change report reaches a view (views 0..editors belong to the editors)
    Notice(usize, Vec<usize>, Vec<usize>),
    /// a view restarts from a full copy
    Restart(usize),
}

pub fn run() {
    sched::run_one(session);
}

fn session() {
    let mut st = style();
    let editors = 1 + weighted(&[3, 3, 2, 1]);
    let views = editors + choose(3) as usize;
    let ops = pick(&[12u32, 4, 30, 60, 120]) as i64;
    let delay_max = pick(&[0i64, 10, 200, 5000]);
    let p_dup = pick(&[0u32, 50, 250]);
    let p_lost = pick(&[0u32, 30, 200]);
    let p_restart = pick(&[0u32, 0, 20]);
    stdout_faults();
    ev!(
        "session: {} editors, {} views, {} requests, delays below {} ms, grid {} scale {} shift {:?} mix {:?} cap {}{}",
        editors, views, ops, delay_max, st.grid, st.scale, st.shift, st.mix, st.cap,
        if st.hostile { ", hostile coordinates" } else { "" }
    );
    let mut g = G::new();
    let mut cur = snap(&g);
    let mut mirror = View::of(&cur);
    let mut vs: Vec<View> = vec![View::default(); views];
    let mut heap: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut store: Vec<Option<What>> = vec![];
    let mut now = 0u64;
    let mut left = ops;
    let mut tag = 0u32;
    let mut step = 0usize;
    let prop = run::prop();
    let push = |heap: &mut BinaryHeap<Reverse<(u64, u64)>>, store: &mut Vec<Option<What>>, at: u64, w: What| {
        heap.push(Reverse((at, store.len() as u64)));
        store.push(Some(w));
    };
    let large = !st.hostile && permille(25);
    if large {
        left = left.min(30);
        st.mix = pick(&[[4, 6, 3, 2], [1, 2, 6, 6]]);
        count("large_graphs_first");
        for op in foundation(&st, &mut tag) {
            let t = match op {
                Op::AddNode(_, _, t) | Op::AddEdge(_, _, t) => t,
                _ => 0,
            };
            push(&mut heap, &mut store, 0, What::Arrive(0, t, op));
        }
        for v in 0..views {
            push(&mut heap, &mut store, 0, What::Restart(v));
        }
    }
    for e in 0..editors {
        push(&mut heap, &mut store, 1 + e as u64, What::Think(e));
    }
    // one transmission: lost and sent again, or late, or twice
    let travel = |now: u64| -> Vec<u64> {
        let mut at = now + 1 + range(0, delay_max) as u64 * 1000;
        while permille(p_lost) {
            fault("message_lost_and_resent");
            at += 200_000;
        }
        let mut v = vec![at];
        if permille(p_dup) {
            fault("message_duplicated");
            v.push(at + 1 + range(0, delay_max) as u64 * 1500);
        }
        v
    };
    let mut last_arrival = 0u32;
    while let Some(Reverse((at, id))) = heap.pop() {
        if at > now {
            sched::advance(at - now);
            now = at;
        }
        let what = store[id as usize].take().unwrap();
        // the order in which the parties act is this run's interleaving
        let (kind, who, t) = match &what {
            What::Think(e) => (1u8, *e, 0),
            What::Arrive(e, t, _) => (2, *e, *t),
            What::Notice(v, ..) => (3, *v, 0),
            What::Restart(v) => (4, *v, 0),
        };
        let c = unsafe { run::ctx() };
        c.schedule_hash = crate::choice::hash_bytes(c.schedule_hash, &[kind, who as u8, t as u8, (t >> 8) as u8]);
        match what {
            What::Think(e) => {
                if left == 0 {
                    continue;
                }
                left -= 1;
                tag += 1;
                let op = request(&st, &vs[e].believed(), tag);
                if op_stale(&op, &cur) {
                    count("requests_made_on_a_stale_view");
                }
                for t in travel(now) {
                    push(&mut heap, &mut store, t, What::Arrive(e, tag, op.clone()));
                }
                let pause = pick(&[1u64, 1000, 300_000]);
                push(&mut heap, &mut store, now + pause, What::Think(e));
            }
            What::Restart(v) => {
                fault("view_restarted");
                vs[v] = View::of(&cur);
            }
            What::Notice(v, n, e) => {
                vs[v].refresh(&cur, &n, &e);
            }
            What::Arrive(e, t, op) => {
                if t < last_arrival {
                    fault("requests_reordered");
                }
                last_arrival = t;
                let plan = if st.hostile { hostile_plan(&cur, &op) } else { geom::plan(&cur, &op) };
                if let (Plan::Unclear, false) = (&plan, st.hostile) {
                    count("requests_left_out_as_geometrically_unclear");
                    continue;
                }
                if cur.edges.len() > 2500 {
                    // edges that all but coincide can multiply without end
                    count("runs_given_up_as_the_graph_outgrew_them");
                    return;
                }
                step += 1;
                count(match (&op, &plan) {
                    (_, Plan::Noop(_)) => "requests_redundant_or_refused",
                    (Op::AddNode(..), _) => "nodes_added",
                    (Op::AddEdge(..), _) => "edges_added",
                    (Op::RemoveEdge(..), _) => "edges_removed",
                    (Op::RemoveNode(..), _) => "nodes_removed",
                });
                if let Plan::Edge { chain, crossings } = &plan {
                    if crossings.len() > 1 {
                        count("edges_crossing_several_edges");
                    }
                    if chain.len() > crossings.len() + 2 {
                        count("edges_through_existing_nodes");
                    }
                }
                if let Plan::Node { splits } = &plan {
                    if !splits.is_empty() {
                        count("nodes_splitting_an_edge");
                    }
                }
                let res = apply(&mut g, &op);
                let after = snap(&g);
                ev!("t={} editor {}: {:?} -> {:?}; now {} nodes {} edges", now, e, op, res, after.nodes.len(), after.edges.len());
                run::state(after.hash());
                run::note(|| {
                    let n: Vec<String> =
                        after.nodes.iter().enumerate().map(|(i, n)| format!("{}:({},{})#{}", i, n.x, n.y, n.tag)).collect();
                    let e: Vec<String> = after.edges.iter().map(|e| format!("{}-{}#{}", e.a, e.b, e.tag)).collect();
                    format!("      nodes {} edges {}", n.join(" "), e.join(" "))
                });
                let counted = match prop {
                    "G03" => matches!(plan, Plan::Node { .. } | Plan::Edge { .. }),
                    "G04" => matches!(plan, Plan::Remove { .. }),
                    "G06" => matches!(plan, Plan::Noop(_)),
                    "G02" | "G08" => !matches!(plan, Plan::Noop(_)),
                    _ => true,
                };
                if counted {
                    effective();
                }
                let mut bad = false;
                for (p, class, msg) in geom::judge(&cur, &op, &plan, &res, &after) {
                    violate(p, class, msg);
                    bad = true;
                }
                if let Some((class, msg)) = geom::well_formed(&after) {
                    violate("G01", class, format!("after {:?}: {}", op, msg));
                    return;
                }
                if let Res::Panic(_) = res {
                    return;
                }
                let thorough = !large || step % 16 == 0 || now > 0;
                if prop == "G02" && !st.hostile && thorough {
                    if let Some(m) = geom::planarity(&after) {
                        violate("G02", "not-planar", format!("after {:?}: {}", op, m));
                        return;
                    }
                }
                if (prop == "G01" || prop == "G06") && thorough {
                    if let Some((class, msg)) = check_queries(&g, &after, step) {
                        violate("G01", class, msg);
                    }
                    let again = snap(&g);
                    if !again.same(&after) {
                        violate("G06", "query-changed", format!("a query changed the graph: {}", after.difference(&again)));
                    }
                }
                let (rn, re) = match &res {
                    Res::Node(i, e) => (vec![*i], e.clone()),
                    Res::Lists(a, b) => (a.clone(), b.clone()),
                    _ => (vec![], vec![]),
                };
                if prop == "G05" {
                    mirror.refresh(&after, &rn, &re);
                    if let Some(m) = mirror.differs(&after) {
                        violate("G05", "report", format!("{:?} reported {:?}, but {}", op, res, m));
                    }
                }
                if run::violated() {
                    return;
                }
                if bad {
                    return;
                }
                cur = after;
                if !(rn.is_empty() && re.is_empty()) {
                    for v in 0..views {
                        for t in travel(now) {
                            push(&mut heap, &mut store, t, What::Notice(v, rn.clone(), re.clone()));
                        }
                        if permille(p_restart) {
                            let t = now + 1 + range(0, delay_max.max(1)) as u64 * 1000;
                            push(&mut heap, &mut store, t, What::Restart(v));
                        }
                    }
                }
            }
        }
    }
    // everything delivered
    for (i, v) in vs.iter().enumerate() {
        if let Some(m) = v.differs(&cur) {
            violate("G05", "late-view", format!("view {} has followed every report but {}", i, m));
            return;
        }
    }
}

fn op_stale(op: &Op, cur: &Snap) -> bool {
    match *op {
        Op::AddNode(..) => false,
        Op::AddEdge(i, j, _) => i.max(j) >= cur.nodes.len(),
        Op::RemoveEdge(i) => i >= cur.edges.len(),
        Op::RemoveNode(i) => i >= cur.nodes.len(),
    }
}

/// With arbitrary coordinates only what does not depend on geometry is expected.
fn hostile_plan(s: &Snap, op: &Op) -> Plan {
    match *op {
        Op::AddNode(..) => Plan::Unclear,
        Op::AddEdge(i, j, _) => {
            let n = s.nodes.len();
            if i >= n || j >= n || i == j || s.has_edge(i, j) {
                geom::plan(s, op)
            } else {
                Plan::Unclear
            }
        }
        _ => geom::plan(s, op),
    }
}
