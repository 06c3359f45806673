//! Scripts of operations over everything the library offers, and S01: the state of standard output never matters.

use crate::choice::{choose, permille, pick, weighted};
use crate::docs;
use crate::ev;
use crate::geom::Op;
use crate::graph_sim::{Tag, G};
use crate::run::{self, count, effective, fault, violate};
use crate::seams;
use crate::vfs::{self, vfs};
use crate::sched;
use kami::fold::fold::Fold;
use kami::geometry::{line::Line, polygon, polygon::Polygon, utils};
use kami::glm::Vec2;
use kami::graph::planar_graph::PlanarGraphError;
use kami::math::bivector::Bivector3;
use kami::math::blade;
use kami::math::rotor::Rotor3;
use kami::math::space::{Contraction, Exterior, Norm};
use kami::math::trivector::Trivector3;
use kami::math::vector::Vector3;
use std::path::Path;

// ---------------------------------------------------------------- polygons

/// A simple polygon with small integer coordinates and no three vertices in line (everything the library computes
/// about it is exact, and its triangulation ends).
pub fn simple_polygon() -> Vec<Vec2> {
    let n = 3 + weighted(&[2, 4, 4, 3, 2, 2, 1, 1, 1]);
    for _ in 0..4 {
        let mut v: Vec<(i64, i64)> = vec![];
        for k in 0..n {
            // one vertex per sector around the origin
            let t = (k as f64 + 0.1 + 0.8 * choose(1000) as f64 / 1000.0) / n as f64 * std::f64::consts::TAU;
            let r = pick(&[30.0, 900.0, 300.0, 100.0]) * (0.5 + choose(500) as f64 / 1000.0);
            v.push(((r * t.cos()).round() as i64, (r * t.sin()).round() as i64));
        }
        let mut ok = true;
        for a in 0..n {
            for b in a + 1..n {
                for c in b + 1..n {
                    let cross = (v[b].0 - v[a].0) * (v[c].1 - v[a].1) - (v[c].0 - v[a].0) * (v[b].1 - v[a].1);
                    ok &= cross != 0;
                }
            }
        }
        // rounding may have moved a vertex across a sector boundary: keep only polygons whose sides do not meet
        for a in 0..n {
            for b in a + 1..n {
                if b == a + 1 || (a == 0 && b == n - 1) {
                    continue;
                }
                let s = |p: (i64, i64), q: (i64, i64), r: (i64, i64)| {
                    ((q.0 - p.0) * (r.1 - p.1) - (r.0 - p.0) * (q.1 - p.1)).signum()
                };
                let (p, q, r, t) = (v[a], v[(a + 1) % n], v[b], v[(b + 1) % n]);
                if s(p, q, r) * s(p, q, t) <= 0 && s(r, t, p) * s(r, t, q) <= 0 {
                    ok = false;
                }
            }
        }
        if ok {
            let rev = permille(500);
            let k = choose(n as u32) as usize;
            v.rotate_left(k);
            if rev {
                v.reverse();
            }
            return v.iter().map(|p| Vec2::new(p.0 as f32, p.1 as f32)).collect();
        }
    }
    vec![Vec2::new(0.0, 0.0), Vec2::new(0.0, 10.0), Vec2::new(10.0, 11.0), Vec2::new(9.0, -1.0)]
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Debug)]
pub enum Step {
    AddNode(f32, f32),
    AddEdge(u32, u32),
    RemoveEdge(u32),
    RemoveNode(u32),
    GraphQueries,
    CopyGraph,
    SwapGraph,
    Drawing(u32, f32, f32),
    NewPolygon(Vec<Vec2>),
    Regular(u32, f32),
    Measure(Vec<Vec2>),
    Scale(f32),
    Translate(f32, f32),
    Triangulate,
    PolygonQueries(u32, u32),
    Load(usize),
    Resave,
    Util(u32, [Vec2; 4]),
    Algebra(u32, [f32; 6]),
    Blades(u32, u32),
    SharedGraph(u32, u32),
    SharedPolygon(u32, u32),
    /// a graph far larger than the others, and whether to go on with it
    Large(Vec<Op>, bool),
}

pub struct Script {
    pub steps: Vec<Step>,
    pub files: Vec<String>,
}

pub fn generate(len: u32, who: usize, shared: bool) -> Script {
    let w = [
        pick(&[10u32, 30, 0]),
        pick(&[3u32, 10, 0]),
        pick(&[2u32, 0]),
        pick(&[3u32, 10, 0]),
        if shared { pick(&[4u32, 20]) } else { 0 },
    ];
    let w = if w.iter().all(|&x| x == 0) { [10, 4, 2, 3, 0] } else { w };
    let units = [1.0f32, 12.5, 0.125, 1000.0, 0.03];
    let unit = pick(&units);
    let mixed = permille(250);
    let unit = || if mixed && permille(300) { pick(&units) } else { unit };
    let close = pick(&[0u32, 0, 100, 400]);
    let grid = pick(&[4i64, 2, 8]);
    let mut files = vec![];
    for i in 0..choose(3) {
        let path = format!("{}script{}-{}.fold", vfs::ROOT, who, i);
        let b = match choose(5) {
            0 => docs::render_mistyped(&docs::generate(docs::size())),
            1 => {
                let mut b = docs::render(&docs::generate(docs::size()));
                b.truncate(choose(b.len() as u32) as usize);
                b
            }
            _ => docs::render(&docs::generate(docs::size())),
        };
        vfs().install(&path, &b);
        files.push(path);
    }
    let rough = permille(400);
    let small = || {
        let x = choose(41) as f32 / 4.0 - 5.0;
        // (values that are not exact in binary, so that the order of operations shows)
        if rough && permille(500) { x + choose(1000) as f32 / 7000.0 } else { x }
    };
    let pt = || Vec2::new(small(), small());
    let mut steps = vec![];
    let mut outline: Vec<Vec2> = vec![];
    let mut points: Vec<Vec2> = vec![];
    for _ in 0..len {
        steps.push(match weighted(&w) {
            0 => match weighted(&[10, 12, 3, 3, 2, 1, 1, 1]) {
                0 => {
                    let unit = unit();
                    if permille(close) {
                        // close to others
                        let at = || choose(grid as u32 + 1) as f32 + pick(&[0.002f32, 0.0, -0.001, 0.0001]);
                        Step::AddNode(at() * unit, at() * unit)
                    } else if permille(200) {
                        Step::AddNode(small() * unit, small() * unit)
                    } else {
                        Step::AddNode(choose(grid as u32 + 1) as f32 * unit, choose(grid as u32 + 1) as f32 * unit)
                    }
                }
                1 => Step::AddEdge(choose(64), choose(64)),
                2 => Step::RemoveEdge(choose(64)),
                3 => Step::RemoveNode(choose(64)),
                4 => Step::GraphQueries,
                5 => Step::CopyGraph,
                6 => Step::SwapGraph,
                _ => Step::Drawing(2 + choose(3), pick(&[0.3f32, 0.01, 0.002, 0.0005]), pick(&[1.0f32, 1000.0, 0.03, 100.0])),
            },
            1 => match weighted(&[5, 2, 2, 2, 5, 3, 2]) {
                0 if permille(50) => Step::NewPolygon(vec![pt(), pt()]),
                0 => {
                    if outline.is_empty() || permille(700) {
                        outline = simple_polygon();
                    } else if outline.iter().all(|p| p.x.abs() < 10_000.0 && p.y.abs() < 10_000.0) {
                        // twice as large, from one vertex
                        let k = choose(outline.len() as u32) as usize;
                        let o = outline[k];
                        outline.iter_mut().for_each(|p| *p = o + (*p - o) * 2.0);
                    }
                    Step::NewPolygon(outline.clone())
                }
                1 => Step::Regular(if permille(50) { choose(3) } else if permille(30) { pick(&[40u32, 100, 300, 1000]) } else { 3 + choose(6) }, pick(&[1.0f32, 10.0, 100.0])),
                2 => Step::Scale(pick(&[2.0f32, 0.5])),
                3 => Step::Translate(choose(1000) as f32 - 500.0, choose(1000) as f32 - 500.0),
                4 => Step::Triangulate,
                5 => Step::PolygonQueries(choose(16), choose(16)),
                _ => {
                    let n = if permille(30) { pick(&[40, 100, 300, 1000]) } else { 3 + choose(22) };
                    let s = pick(&[0.001f32, 0.1]);
                    let any = || Vec2::new(choose(1 << 20) as f32 * s, choose(1 << 20) as f32 * s);
                    if points.is_empty() || permille(500) {
                        points = (0..n).map(|_| any()).collect();
                    } else {
                        // much like the one before
                        let k = choose(points.len() as u32) as usize;
                        points[k] = any();
                    }
                    Step::Measure(points.clone())
                }
            },
            2 => {
                if files.is_empty() || permille(200) {
                    Step::Resave
                } else {
                    Step::Load(choose(files.len() as u32) as usize)
                }
            }
            3 => match choose(3) {
                0 => Step::Util(choose(11), [pt(), pt(), pt(), pt()]),
                1 => {
                    let n = 1 + choose(11);
                    Step::Blades(n, if permille(50) { choose(14) } else { 1 + choose(n) })
                }
                _ => Step::Algebra(choose(12), [small(), small(), small(), small(), small(), small()]),
            },
            _ => {
                if permille(500) {
                    Step::SharedGraph(choose(64), choose(64))
                } else {
                    Step::SharedPolygon(choose(16), choose(16))
                }
            }
        });
    }
    if permille(20) {
        crate::run::count("large_graphs_in_scripts");
        let st = crate::graph_sim::style();
        let mut ops = crate::graph_sim::foundation(&st, &mut 0);
        ops.truncate(700);
        let at = choose(steps.len() as u32 + 1) as usize;
        steps.insert(at, Step::Large(ops, permille(500)));
    }
    Script { steps, files }
}

// ---------------------------------------------------------------- running a script

/// Objects several threads may read. The wrapper promises what the library's types themselves must promise, which
/// T01 checks separately, so that this program builds either way.
pub struct Common {
    pub graph: G,
    pub poly: Polygon,
}
pub struct Shared(pub *const Common);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Clone for Shared {
    fn clone(&self) -> Shared {
        Shared(self.0)
    }
}
impl Shared {
    pub fn get(&self) -> &Common {
        unsafe { &*self.0 }
    }
}

pub struct World {
    graph: G,
    other: G,
    poly: Option<Polygon>,
    doc: Option<Fold>,
    tag: u32,
    vec: Vector3<f32>,
    rotor: Rotor3<f32>,
    common: Option<Shared>,
}

fn lists(r: Result<(Vec<usize>, Vec<usize>), PlanarGraphError>) -> String {
    match r {
        Ok(x) => format!("{:?}", x),
        Err(PlanarGraphError::NoSuchVertex) => "no such vertex".into(),
        Err(_) => "no such edge".into(),
    }
}
/// Everything there is to see of a graph.
fn show(g: &G) -> String {
    let mut s = String::new();
    use std::fmt::Write;
    for n in g.get_nodes() {
        let _ = write!(s, "{:?} ", n);
    }
    for e in g.get_edges() {
        let _ = write!(s, "{:?}={} ", e.get_node_indices(), e.get_data().0);
    }
    s
}

impl World {
    pub fn new(common: Option<Shared>) -> World {
        World {
            graph: G::new(),
            other: G::new(),
            poly: None,
            doc: None,
            tag: 0,
            vec: Vector3::new(1.0, 0.5, -0.25),
            rotor: Rotor3::from_xy_rotation(0.5),
            common,
        }
    }

    /// Remove everything from the graphs, by the library's own means, and forget the rest.
    pub fn empty(&mut self) -> bool {
        let (mut a, mut b) = (&mut self.graph, &mut self.other);
        let r = sched::lib(|| {
            for g in [&mut a, &mut b] {
                for _ in 0..10_000 {
                    if g.node_count() == 0 {
                        break;
                    }
                    g.remove_node(0);
                }
            }
            a.node_count() + b.node_count() == 0
        });
        self.poly = None;
        self.doc = None;
        self.tag = 0;
        self.vec = Vector3::new(1.0, 0.5, -0.25);
        self.rotor = Rotor3::from_xy_rotation(0.5);
        r == Ok(true)
    }

    /// One step; what comes back says everything observable about it. Panics are outcomes like others.
    pub fn step(&mut self, s: &Step, files: &[String]) -> String {
        match sched::lib(|| self.inner(s, files)) {
            Ok(x) => x,
            Err(m) => {
                count("panics_seen");
                format!("panic: {}", m)
            }
        }
    }

    fn inner(&mut self, s: &Step, files: &[String]) -> String {
        match s {
            Step::AddNode(x, y) => {
                self.tag += 1;
                let r = self.graph.add_node(&Vec2::new(*x, *y), Tag(self.tag));
                format!("{:?} {}", r, show(&self.graph))
            }
            Step::AddEdge(i, j) => {
                self.tag += 1;
                if self.graph.edge_count() > 600 {
                    return "large enough".into();
                }
                let n = self.graph.node_count() + 1;
                let r = self.graph.add_edge(*i as usize % n, *j as usize % n, Tag(self.tag));
                format!("{} {}", lists(r), show(&self.graph))
            }
            Step::RemoveEdge(i) => {
                let n = self.graph.edge_count() + 1;
                let r = self.graph.remove_edge(*i as usize % n);
                format!("{} {}", lists(Ok(r)), show(&self.graph))
            }
            Step::RemoveNode(i) => {
                let n = self.graph.node_count() + 1;
                let r = self.graph.remove_node(*i as usize % n);
                format!("{} {}", lists(Ok(r)), show(&self.graph))
            }
            Step::GraphQueries => queries(&self.graph),
            Step::CopyGraph => {
                self.other = self.graph.clone();
                show(&self.other)
            }
            Step::SwapGraph => {
                std::mem::swap(&mut self.graph, &mut self.other);
                show(&self.graph)
            }
            Step::Drawing(n, gap, unit) => {
                // several lines side by side, and one across
                let mut g = G::new();
                let mut at = |x: f32, y: f32, g: &mut G| g.add_node(&Vec2::new(x * unit, y * unit), Tag(0)).0;
                let mut t = String::new();
                for k in 0..*n {
                    let x = 0.3 + k as f32 * gap;
                    let (a, b) = (at(x, 0.0, &mut g), at(x, 1.0, &mut g));
                    t.push_str(&lists(g.add_edge(a, b, Tag(k + 1))));
                }
                let (a, b) = (at(-0.1, 0.45, &mut g), at(2.0, 0.55, &mut g));
                t.push_str(&lists(g.add_edge(a, b, Tag(99))));
                format!("{} {}", t, show(&g))
            }
            Step::Large(ops, stay) => {
                let mut g = G::new();
                let mut t = String::new();
                for op in ops {
                    match *op {
                        Op::AddNode(x, y, k) => {
                            let r = g.add_node(&Vec2::new(x, y), Tag(k));
                            t.push_str(&format!("{:?} ", r));
                        }
                        Op::AddEdge(i, j, k) => t.push_str(&lists(g.add_edge(i, j, Tag(k)))),
                        Op::RemoveEdge(i) => t.push_str(&lists(Ok(g.remove_edge(i)))),
                        Op::RemoveNode(i) => t.push_str(&lists(Ok(g.remove_node(i)))),
                    }
                }
                t.push_str(&show(&g));
                t.push_str(&queries(&g));
                let c = g.clone();
                t.push_str(&show(&c));
                let n = g.node_count() / 2;
                t.push_str(&lists(Ok(g.remove_node(n))));
                t.push_str(&show(&g));
                if *stay {
                    self.graph = c;
                    self.other = g;
                }
                t
            }
            Step::NewPolygon(v) => {
                let r = Polygon::new(v);
                let t = format!("{:?}", r);
                if let Ok(p) = r {
                    self.poly = Some(p);
                }
                t
            }
            Step::Regular(n, r) => {
                let p = Polygon::regular(*n as usize, *r, &Vec2::new(0.0, 0.0));
                format!("{:?} {}", p, p.area())
            }
            Step::Measure(v) => match Polygon::new(v) {
                Ok(mut p) => {
                    let t = format!("{:?} {} {:?}", p, p.area(), p.center());
                    p.translate(&Vec2::new(0.1, -0.3));
                    p.uniform_scale(0.7);
                    format!("{} {} {:?}", t, p.area(), p.center())
                }
                Err(_) => "error".into(),
            },
            Step::Scale(x) => match &mut self.poly {
                // within a range in which everything stays exact
                Some(p) if (0.01..1e6).contains(&(p.area() * x * x)) => {
                    p.uniform_scale(*x);
                    format!("{:?}", p)
                }
                _ => "-".into(),
            },
            Step::Translate(x, y) => match &mut self.poly {
                Some(p) if p.center().norm() < 2000.0 => {
                    p.translate(&Vec2::new(*x, *y));
                    format!("{:?}", p)
                }
                _ => "-".into(),
            },
            Step::Triangulate => match &self.poly {
                Some(p) => format!("{:?}", p.triangulate()),
                None => "-".into(),
            },
            Step::PolygonQueries(i, j) => match &self.poly {
                Some(p) => polygon_queries(p, *i as usize, *j as usize),
                None => "-".into(),
            },
            Step::Load(i) => match Fold::from_file(Path::new(&files[*i])) {
                Ok(f) => {
                    let t = format!("{:?}", f);
                    self.doc = Some(f);
                    t
                }
                Err(e) => format!("error {:?} {:?}", e.kind(), e.raw_os_error()),
            },
            Step::Resave => match &mut self.doc {
                Some(f) => {
                    f.resolve();
                    let v = f.validate();
                    match serde_json::to_string(f) {
                        Ok(t) => {
                            let back: Result<Fold, _> = serde_json::from_str(&t);
                            format!("{} {} {:?}", v, t, back)
                        }
                        Err(e) => format!("error {}", e),
                    }
                }
                None => "-".into(),
            },
            Step::Util(k, [a, b, c, d]) => util(*k, a, b, c, d),
            Step::Algebra(k, x) => self.algebra(*k, x),
            Step::Blades(n, k) => {
                format!("{} {}", blade::total_number_of_basis_blades(*n as usize), blade::number_of_basis_blades(*n as usize, *k as usize))
            }
            Step::SharedGraph(i, j) => match &self.common {
                Some(c) => {
                    let g = &c.get().graph;
                    let n = g.node_count() + 1;
                    let (i, j) = (*i as usize % n, *j as usize % n);
                    format!("{} {:?} {} {}", g.has_edge_between_nodes(i, j), g.number_of_edges_incident_to(i), g.has_node_at_index(j), if i == j { show(&g.clone()) } else { queries(g) })
                }
                None => "-".into(),
            },
            Step::SharedPolygon(i, j) => match &self.common {
                Some(c) => {
                    let p = &c.get().poly;
                    if i == j {
                        format!("{:?}", p.triangulate())
                    } else {
                        polygon_queries(p, *i as usize, *j as usize)
                    }
                }
                None => "-".into(),
            },
        }
    }

    fn algebra(&mut self, k: u32, x: &[f32; 6]) -> String {
        let u = Vector3::new(x[0], x[1], x[2]);
        let v = Vector3::new(x[3], x[4], x[5]);
        let b: Bivector3<f32> = u.wedge(v);
        match k {
            0 => format!("{:?} {:?}", u.dot(v), b),
            1 => format!("{:?}", u * v),
            2 => {
                self.rotor = Rotor3::from_vectors(u.normalize(), v.normalize());
                format!("{:?}", self.rotor)
            }
            3 => {
                self.vec = self.rotor.rotate(self.vec);
                format!("{:?}", self.vec)
            }
            4 => {
                self.rotor = self.rotor * Rotor3::from_xz_rotation(x[0]);
                format!("{:?}", self.rotor)
            }
            5 => format!("{:?} {:?} {:?}", u.norm(), b.norm(), b.inverse()),
            6 => format!("{:?} {:?}", u.reflect(v), u.project(v)),
            7 => format!("{:?} {:?}", u.angle(v), u.inverse()),
            8 => {
                let t: Trivector3<f32> = b.wedge(self.vec);
                format!("{:?} {:?} {:?}", t, t.norm(), t * Trivector3::new(x[0]))
            }
            9 => format!("{:?} {:?}", b * Bivector3::new(x[0], x[1], x[2]), b.dot(b)),
            10 => {
                let l = Line::new(&u, &v);
                format!("{} {}", l.contains(&(u + v)), l.contains(&self.vec))
            }
            _ => {
                self.vec = u + v - self.vec;
                format!("{:?}", self.vec)
            }
        }
    }
}

fn queries(g: &G) -> String {
    let n = g.node_count();
    let mut t = format!("{} {} ", n, g.edge_count());
    for i in 0..(n + 1).min(12) {
        t.push_str(&format!("{:?}{} ", g.number_of_edges_incident_to(i), g.has_node_at_index(i)));
        for j in 0..i {
            t.push(if g.has_edge_between_nodes(i, j) { '1' } else { '0' });
        }
    }
    for i in 0..g.edge_count() + 1 {
        t.push_str(&format!("{}{:?} ", g.has_edge_at_index(i), g.get_edge(i).map(|e| e.get_node_indices())));
    }
    t
}

fn polygon_queries(p: &Polygon, i: usize, j: usize) -> String {
    let n = p.get_vertices().len();
    format!("{} {:?} {} {:?}", p.area(), p.center(), p.diagonal(i % n, j % n), p.get_vertices())
}

fn util(k: u32, a: &Vec2, b: &Vec2, c: &Vec2, d: &Vec2) -> String {
    match k {
        0 => format!("{:?}", utils::calculate_line_segment_intersection(a, b, c, d)),
        1 => format!("{:?}", utils::calculate_line_intersection(a, b, c, d)),
        2 => format!("{:?} {}", utils::parallel(a, b, c, d), utils::is_degenerate_triangle(a, b, c)),
        3 => format!("{:?}", utils::calculate_triangle_incenter(a, b, c)),
        4 => format!("{:?}", utils::calculate_perpendicular_point(a, b, c)),
        5 => format!("{:?} {:?}", utils::calculate_midpoint(a, b), utils::calculate_perpendicular_bisector(a, b, 1.0)),
        6 => format!("{} {}", utils::is_on_line_segment(a, b, c, true), utils::is_on_line_segment(a, b, d, false)),
        7 => format!("{:?}", utils::find_closest_to(a, &vec![*b, *c, *d])),
        8 => format!("{:?}", utils::unique_points_among(&vec![*a, *b, *a, *c, *b, *d])),
        9 => format!("{} {}", utils::close_to(a, b), utils::close_to(a, a)),
        _ => format!(
            "{} {} {} {} {}",
            polygon::area2(a, b, c),
            polygon::left(a, b, c),
            polygon::collinear(a, b, c),
            polygon::intersect(a, b, c, d),
            polygon::between(a, b, c)
        ),
    }
}

/// Do two outcomes say the same? Of panics, only that they happened.
pub fn same(a: &str, b: &str) -> bool {
    a == b || (a.starts_with("panic: ") && b.starts_with("panic: "))
}
pub fn short(s: &str) -> String {
    if s.len() > 200 {
        format!("{}...", s.chars().take(200).collect::<String>())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- S01

pub fn shake(k: u32) {
    // standard output changes its state now
    let o = seams::out();
    let sticky = |e: i32, o: &mut seams::Out| {
        o.break_after = Some(o.writes + choose(3));
        o.sticky_errno = e;
    };
    o.on = true;
    o.break_after = None;
    o.rate = 0;
    o.terminal = pick(&[None, Some(80u16), Some(0), Some(20)]);
    if o.terminal.is_some() {
        fault("stdout_is_a_terminal");
    }
    o.flags = pick(&[1, 2, 0o4001, 0o4002, 0o2001]) | if k > 5 { 0o4000 } else { 0 };
    match k {
        0 => o.on = false,
        1 => o.rate = pick(&[1000, 300, 50]),
        2 => sticky(vfs::EPIPE, o),
        3 => sticky(vfs::ENOSPC, o),
        4 => sticky(vfs::EBADF, o),
        5 => sticky(vfs::EIO, o),
        _ => sticky(vfs::EAGAIN, o),
    }
}

fn play(s: &Script, faulty: bool, p_change: u32, entropy: u64) -> Vec<String> {
    let out: &'static mut Vec<String> = Box::leak(Box::new(vec![]));
    let p: *mut Vec<String> = out;
    let s: *const Script = s;
    struct Ptr(*mut Vec<String>, *const Script);
    unsafe impl Send for Ptr {}
    let q = Ptr(p, s);
    sched::run_one(move || {
        let q = q;
        let (out, s) = unsafe { (&mut *q.0, &*q.1) };
        seams::fix_entropy(entropy);
        let mut w = World::new(None);
        for (i, st) in s.steps.iter().enumerate() {
            if faulty && (i == 0 || permille(p_change)) {
                let k = choose(7);
                shake(k);
                fault("stdout_state_changed");
            }
            let before = seams::out().failed;
            let r = w.step(st, &s.files);
            if faulty {
                ev!("step {} {:?}: {} writes failed; {}", i, st, seams::out().failed - before, short(&r));
                if seams::out().failed > before {
                    effective();
                }
            }
            out.push(r);
        }
    });
    *seams::out() = seams::Out::default();
    std::mem::take(out)
}

pub fn run_stdout() {
    let len = pick(&[12u32, 4, 30, 80]);
    let s = generate(len, 0, false);
    let p_change = pick(&[100u32, 0, 500]);
    let faulty_first = permille(300);
    let entropy = choose(1 << 16) as u64;
    let mut faulty = vec![];
    if faulty_first {
        faulty = play(&s, true, p_change, entropy);
    }
    // twice with working output: a result that differs between these varies for reasons of its own
    let healthy = play(&s, false, 0, entropy);
    let control = play(&s, false, 0, entropy);
    if !faulty_first {
        faulty = play(&s, true, p_change, entropy);
    }
    run::state(crate::choice::hash_bytes(1, healthy.concat().as_bytes()));
    for i in 0..s.steps.len() {
        if !same(&healthy[i], &control[i]) {
            count("results_that_vary_on_their_own");
            return;
        }
        if !same(&healthy[i], &faulty[i]) {
            violate(
                "S01",
                if faulty[i].starts_with("panic") { "panic" } else { "result" },
                format!("step {} {:?}: with working standard output {} but with failing {}", i, s.steps[i], short(&healthy[i]), short(&faulty[i])),
            );
            return;
        }
    }
}
