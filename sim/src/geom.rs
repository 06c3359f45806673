//! Observed graph states and the reference for what one request must do to them, in double precision.

use crate::choice::hash_bytes;
use std::collections::BTreeMap;

pub const EPS: f64 = f32::EPSILON as f64;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct NodeS {
    pub x: f32,
    pub y: f32,
    pub tag: u32,
}
impl NodeS {
    pub fn same(&self, o: &NodeS) -> bool {
        self.x.to_bits() == o.x.to_bits() && self.y.to_bits() == o.y.to_bits() && self.tag == o.tag
    }
    pub fn same_pos(&self, o: &NodeS) -> bool {
        self.x.to_bits() == o.x.to_bits() && self.y.to_bits() == o.y.to_bits()
    }
    pub fn p(&self) -> P {
        P(self.x as f64, self.y as f64)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct EdgeS {
    pub a: usize,
    pub b: usize,
    pub tag: u32,
}
impl EdgeS {
    pub fn key(&self) -> (usize, usize) {
        (self.a.min(self.b), self.a.max(self.b))
    }
    pub fn same(&self, o: &EdgeS) -> bool {
        self.key() == o.key() && self.tag == o.tag
    }
}
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub nodes: Vec<NodeS>,
    pub edges: Vec<EdgeS>,
}
impl Snap {
    pub fn same(&self, o: &Snap) -> bool {
        self.nodes.len() == o.nodes.len()
            && self.edges.len() == o.edges.len()
            && self.nodes.iter().zip(&o.nodes).all(|(a, b)| a.same(b))
            && self.edges == o.edges
    }
    pub fn difference(&self, o: &Snap) -> String {
        if self.nodes.len() != o.nodes.len() {
            return format!("{} nodes against {}", self.nodes.len(), o.nodes.len());
        }
        if self.edges.len() != o.edges.len() {
            return format!("{} edges against {}", self.edges.len(), o.edges.len());
        }
        for (i, (a, b)) in self.nodes.iter().zip(&o.nodes).enumerate() {
            if !a.same(b) {
                return format!("node {}: {:?} against {:?}", i, a, b);
            }
        }
        for (i, (a, b)) in self.edges.iter().zip(&o.edges).enumerate() {
            if a != b {
                return format!("edge {}: {:?} against {:?}", i, a, b);
            }
        }
        "no difference".into()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325;
        for n in &self.nodes {
            h = hash_bytes(h, &n.x.to_bits().to_le_bytes());
            h = hash_bytes(h, &n.y.to_bits().to_le_bytes());
            h = hash_bytes(h, &n.tag.to_le_bytes());
        }
        for e in &self.edges {
            h = hash_bytes(h, &(e.a as u64).to_le_bytes());
            h = hash_bytes(h, &(e.b as u64).to_le_bytes());
            h = hash_bytes(h, &e.tag.to_le_bytes());
        }
        h
    }
    pub fn max_coord(&self) -> f64 {
        self.nodes.iter().fold(1.0, |m, n| m.max((n.x as f64).abs()).max((n.y as f64).abs()))
    }
    pub fn degree(&self, k: usize) -> usize {
        self.edges.iter().filter(|e| e.a == k || e.b == k).count()
    }
    pub fn has_edge(&self, i: usize, j: usize) -> bool {
        self.edges.iter().any(|e| e.key() == (i.min(j), i.max(j)))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct P(pub f64, pub f64);
impl P {
    pub fn sub(self, o: P) -> P {
        P(self.0 - o.0, self.1 - o.1)
    }
    pub fn len(self) -> f64 {
        self.0.hypot(self.1)
    }
    pub fn cross(self, o: P) -> f64 {
        self.0 * o.1 - self.1 * o.0
    }
    pub fn dot(self, o: P) -> f64 {
        self.0 * o.0 + self.1 * o.1
    }
    pub fn dist(self, o: P) -> f64 {
        self.sub(o).len()
    }
    fn big(self) -> f64 {
        self.0.abs().max(self.1.abs())
    }
}

/// Distances up to which features count as coincident: two units in the last place of the coordinates involved.
pub fn lo(ps: &[P]) -> f64 {
    2.0 * EPS * ps.iter().fold(0.0, |m, p| f64::max(m, p.big()))
}
pub struct Gap {
    /// from here on features count as distinct
    pub hi: f64,
    /// the same for crossing points, which are computed and so rounded
    pub hix: f64,
    /// how far a crossing node may lie from the exact crossing point
    pub tolx: f64,
}
pub fn gap(m: f64) -> Gap {
    Gap { hi: 256.0 * EPS * m, hix: 2048.0 * EPS * m, tolx: 512.0 * EPS * m }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    /// strictly inside the segment, at this fraction of it
    On(f64),
    Off,
    Unclear,
}
/// Where is `p` relative to the open segment `ab`?
pub fn relation(a: P, b: P, p: P, g: &Gap) -> Rel {
    let ab = b.sub(a);
    let l = ab.len();
    if l < g.hi {
        return Rel::Unclear;
    }
    let ap = p.sub(a);
    let proj = ap.dot(ab) / l;
    let perp = ap.cross(ab).abs() / l;
    let d = point_segment(a, b, p);
    if d >= g.hi {
        Rel::Off
    } else if proj >= g.hi && proj <= l - g.hi && perp <= lo(&[a, b, p]) {
        Rel::On(proj / l)
    } else {
        Rel::Unclear
    }
}
pub fn point_segment(a: P, b: P, p: P) -> f64 {
    let ab = b.sub(a);
    let l = ab.len();
    let ap = p.sub(a);
    if l == 0.0 {
        return ap.len();
    }
    let proj = ap.dot(ab) / l;
    if proj <= 0.0 {
        ap.len()
    } else if proj >= l {
        p.dist(b)
    } else {
        ap.cross(ab).abs() / l
    }
}
pub fn proper_crossing(a: P, b: P, c: P, d: P) -> Option<P> {
    let ab = b.sub(a);
    let cd = d.sub(c);
    let sc = ab.cross(c.sub(a));
    let sd = ab.cross(d.sub(a));
    let sa = cd.cross(a.sub(c));
    let sb = cd.cross(b.sub(c));
    if (sc < 0.0) != (sd < 0.0) && (sa < 0.0) != (sb < 0.0) && sc != 0.0 && sd != 0.0 && sa != 0.0 && sb != 0.0 {
        let t = sa / (sa - sb);
        Some(P(a.0 + t * ab.0, a.1 + t * ab.1))
    } else {
        None
    }
}

/// First planarity violation, if any: an edge through another edge, or a node inside an edge.
pub fn planarity(s: &Snap) -> Option<String> {
    let g = gap(s.max_coord());
    let tol = 32.0 * EPS * s.max_coord();
    let p: Vec<P> = s.nodes.iter().map(|n| n.p()).collect();
    for (i, e) in s.edges.iter().enumerate() {
        let (a, b) = (p[e.a], p[e.b]);
        let (x0, x1) = (a.0.min(b.0) - g.hi, a.0.max(b.0) + g.hi);
        let (y0, y1) = (a.1.min(b.1) - g.hi, a.1.max(b.1) + g.hi);
        for (k, q) in p.iter().enumerate() {
            if k != e.a && k != e.b && q.0 >= x0 && q.0 <= x1 && q.1 >= y0 && q.1 <= y1 {
                if let Rel::On(_) = relation(a, b, *q, &g) {
                    return Some(format!("node {} {:?} lies inside edge {} {:?}-{:?}", k, q, i, a, b));
                }
            }
        }
        for (j, f) in s.edges.iter().enumerate().skip(i + 1) {
            if f.a == e.a || f.a == e.b || f.b == e.a || f.b == e.b {
                continue;
            }
            let (c, d) = (p[f.a], p[f.b]);
            if c.0.max(d.0) < x0 || c.0.min(d.0) > x1 || c.1.max(d.1) < y0 || c.1.min(d.1) > y1 {
                continue;
            }
            if let Some(x) = proper_crossing(a, b, c, d) {
                let la = b.sub(a).len();
                let lc = d.sub(c).len();
                let far = |q: P, o: P, dir: P, l: f64| dir.cross(q.sub(o)).abs() / l > tol;
                if far(c, a, b.sub(a), la) && far(d, a, b.sub(a), la) && far(a, c, d.sub(c), lc) && far(b, c, d.sub(c), lc)
                {
                    return Some(format!("edge {} {:?}-{:?} crosses edge {} {:?}-{:?} at {:?}", i, a, b, j, c, d, x));
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- what a request must do

#[derive(Clone, Debug)]
pub enum Op {
    AddNode(f32, f32, u32),
    AddEdge(usize, usize, u32),
    RemoveEdge(usize),
    RemoveNode(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Node(usize, Vec<usize>),
    Lists(Vec<usize>, Vec<usize>),
    NoSuchVertex,
    NoSuchEdge,
    Panic(String),
}

#[derive(Clone, Debug)]
pub enum Link {
    Old(usize),
    Cross(usize),
}
#[derive(Clone, Debug)]
pub enum Plan {
    Unclear,
    /// nothing changes, the answer is known
    Noop(Res),
    /// a new node, splitting these edges
    Node { splits: Vec<usize> },
    /// an edge running over these items, with crossing points (edge, point, how much less exactly that is known than for steep ones)
    Edge { chain: Vec<Link>, crossings: Vec<(usize, P, f64)> },
    Remove { nodes: Vec<usize>, edges: Vec<usize> },
}

pub fn plan(s: &Snap, op: &Op) -> Plan {
    match *op {
        Op::AddNode(x, y, _) => plan_node(s, P(x as f64, y as f64)),
        Op::AddEdge(i, j, _) => plan_edge(s, i, j),
        Op::RemoveEdge(id) => {
            if id >= s.edges.len() {
                return Plan::Noop(Res::Lists(vec![], vec![]));
            }
            let e = s.edges[id];
            let nodes = [e.a, e.b].iter().copied().filter(|&k| s.degree(k) == 1).collect();
            Plan::Remove { nodes, edges: vec![id] }
        }
        Op::RemoveNode(id) => {
            if id >= s.nodes.len() {
                return Plan::Noop(Res::Lists(vec![], vec![]));
            }
            let edges: Vec<usize> =
                s.edges.iter().enumerate().filter(|(_, e)| e.a == id || e.b == id).map(|x| x.0).collect();
            let mut nodes = vec![id];
            for &i in &edges {
                let e = s.edges[i];
                let other = if e.a == id { e.b } else { e.a };
                if s.degree(other) == 1 {
                    nodes.push(other);
                }
            }
            Plan::Remove { nodes, edges }
        }
    }
}

fn plan_node(s: &Snap, p: P) -> Plan {
    if !(p.0.is_finite() && p.1.is_finite()) {
        return Plan::Unclear;
    }
    let g = gap(s.max_coord().max(p.big()));
    let mut same = None;
    for (k, n) in s.nodes.iter().enumerate() {
        let d = n.p().dist(p);
        if d <= lo(&[n.p(), p]) {
            if same.is_some() {
                return Plan::Unclear;
            }
            same = Some(k);
        } else if !(d >= g.hi) {
            return Plan::Unclear;
        }
    }
    if let Some(k) = same {
        return Plan::Noop(Res::Node(k, vec![]));
    }
    let mut splits = vec![];
    for (i, e) in s.edges.iter().enumerate() {
        match relation(s.nodes[e.a].p(), s.nodes[e.b].p(), p, &g) {
            Rel::On(_) => splits.push(i),
            Rel::Off => {}
            Rel::Unclear => return Plan::Unclear,
        }
    }
    if splits.len() > 1 {
        return Plan::Unclear;
    }
    Plan::Node { splits }
}

fn plan_edge(s: &Snap, i: usize, j: usize) -> Plan {
    let n = s.nodes.len();
    if i >= n || j >= n {
        return Plan::Noop(Res::NoSuchVertex);
    }
    if i == j || s.has_edge(i, j) {
        return Plan::Noop(Res::Lists(vec![], vec![]));
    }
    let g = gap(s.max_coord());
    let p: Vec<P> = s.nodes.iter().map(|n| n.p()).collect();
    if p.iter().any(|q| !q.0.is_finite() || !q.1.is_finite()) {
        return Plan::Unclear;
    }
    let (a, b) = (p[i], p[j]);
    let l = a.dist(b);
    if !(l >= g.hi) {
        return Plan::Unclear;
    }
    let mut at: Vec<(f64, Link)> = vec![(0.0, Link::Old(i)), (1.0, Link::Old(j))];
    let mut on = vec![false; n];
    on[i] = true;
    on[j] = true;
    for k in 0..n {
        if k == i || k == j {
            continue;
        }
        match relation(a, b, p[k], &g) {
            Rel::On(t) => {
                on[k] = true;
                at.push((t, Link::Old(k)));
            }
            Rel::Off => {}
            Rel::Unclear => return Plan::Unclear,
        }
    }
    let mut crossings: Vec<(usize, P, f64)> = vec![];
    for (x, e) in s.edges.iter().enumerate() {
        let (c, d) = (p[e.a], p[e.b]);
        let lcd = c.dist(d);
        for &k in &[i, j] {
            if k != e.a && k != e.b && relation(c, d, p[k], &g) != Rel::Off {
                return Plan::Unclear;
            }
        }
        let sine = b.sub(a).cross(d.sub(c)).abs() / (l * lcd);
        if on[e.a] || on[e.b] {
            // edges that leave a common end node may be closer to each other than edges that cross, and may
            // continue each other
            let shared = [(e.a, d), (e.b, c)].iter().find(|x| x.0 == i || x.0 == j).map(|&(k, far)| {
                let (at, to) = if k == i { (a, b) } else { (b, a) };
                to.sub(at).dot(far.sub(at)) < 0.0
            });
            let need = match shared {
                Some(true) => 0.0,
                Some(false) => 0.02,
                None => 0.05,
            };
            if !(on[e.a] && on[e.b]) && !(sine >= need) {
                return Plan::Unclear;
            }
            continue;
        }
        if let Some(q) = proper_crossing(a, b, c, d) {
            // at a small angle, the crossing is far less certain along the edges than across
            if !(sine >= 0.0002) {
                return Plan::Unclear;
            }
            let blur = f64::max(1.0, 0.05 / sine);
            for w in p.iter() {
                if w.dist(q) < g.hix * blur {
                    return Plan::Unclear;
                }
            }
            for (y, f) in s.edges.iter().enumerate() {
                if y != x && point_segment(p[f.a], p[f.b], q) < g.hix * blur {
                    return Plan::Unclear;
                }
            }
            at.push((q.sub(a).dot(b.sub(a)) / (l * l), Link::Cross(crossings.len())));
            crossings.push((x, q, blur));
        }
    }
    at.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
    for w in at.windows(2) {
        let blur = |l: &Link| if let Link::Cross(k) = l { g.hix * crossings[*k].2 } else { g.hi };
        let need = f64::max(blur(&w[0].1), blur(&w[1].1));
        if (w[1].0 - w[0].0) * l < need {
            return Plan::Unclear;
        }
    }
    Plan::Edge { chain: at.into_iter().map(|x| x.1).collect(), crossings }
}

/// Deviations of one step from its plan: (property, class, message).
pub type Dev = (&'static str, &'static str, String);

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::AddNode(..) => "add_node",
        Op::AddEdge(..) => "add_edge",
        Op::RemoveEdge(..) => "remove_edge",
        Op::RemoveNode(..) => "remove_node",
    }
}

fn edge_map(edges: &[EdgeS]) -> BTreeMap<(usize, usize), u32> {
    edges.iter().map(|e| (e.key(), e.tag)).collect()
}

fn compare_edges(want: &BTreeMap<(usize, usize), u32>, got: &[EdgeS], shape: &'static str, out: &mut Vec<Dev>) {
    let have = edge_map(got);
    for (k, t) in want {
        match have.get(k) {
            None => out.push((shape, "missing-edge", format!("no edge {:?} afterwards", k))),
            Some(u) if u != t => out.push((
                "G08",
                "edge-payload",
                format!("edge {:?} carries payload {} instead of {}", k, u, t),
            )),
            _ => {}
        }
    }
    for k in have.keys() {
        if !want.contains_key(k) {
            out.push((shape, "unexpected-edge", format!("edge {:?} should not be there", k)));
        }
    }
}

pub fn judge(before: &Snap, op: &Op, plan: &Plan, res: &Res, after: &Snap) -> Vec<Dev> {
    let mut out: Vec<Dev> = vec![];
    let n = before.nodes.len();
    if let Res::Panic(m) = res {
        let kind = match op {
            Op::AddNode(..) | Op::AddEdge(..) => vec!["G01", "G02", "G03", "G05", "G08"],
            _ => vec!["G01", "G04", "G05", "G08"],
        };
        let msg = format!("{} panicked: {}", op_name(op), m);
        for k in kind {
            out.push((k, "panic", msg.clone()));
        }
        if let Plan::Noop(_) = plan {
            out.push(("G06", "panic", msg));
        }
        return out;
    }
    // additions keep what was there, whatever the geometry
    if let Op::AddNode(..) | Op::AddEdge(..) = op {
        for k in 0..n {
            match after.nodes.get(k) {
                None => out.push(("G03", "node-lost", format!("{} removed node {}", op_name(op), k))),
                Some(m) => {
                    if !m.same_pos(&before.nodes[k]) {
                        out.push((
                            "G03",
                            "node-moved",
                            format!("{} turned node {} from {:?} into {:?}", op_name(op), k, before.nodes[k], m),
                        ));
                    } else if m.tag != before.nodes[k].tag {
                        out.push(("G08", "node-payload", format!("node {} {:?} became {:?}", k, before.nodes[k], m)));
                    }
                }
            }
        }
        if !out.is_empty() && !matches!(plan, Plan::Noop(_)) {
            return out;
        }
    }
    match plan {
        Plan::Unclear => {}
        Plan::Noop(want) => {
            if want != res {
                out.push(("G06", "answer", format!("{:?} answered {:?} instead of {:?}", op, res, want)));
            }
            if !before.same(after) {
                out.push((
                    "G06",
                    "changed",
                    format!("{:?} asks for nothing new but changed the graph: {}", op, before.difference(after)),
                ));
            }
        }
        Plan::Node { splits } => {
            let (x, y, tag) = if let Op::AddNode(x, y, t) = *op { (x, y, t) } else { unreachable!() };
            if let Res::Node(k, _) = res {
                if *k != n {
                    out.push(("G03", "index", format!("the new node is said to have index {} instead of {}", k, n)));
                }
            } else {
                out.push(("G03", "answer", format!("{:?} answered {:?}", op, res)));
            }
            if after.nodes.len() != n + 1 {
                out.push(("G03", "node-count", format!("{:?} took the graph from {} to {} nodes", op, n, after.nodes.len())));
                return out;
            }
            let m = after.nodes[n];
            if m.x != x || m.y != y {
                out.push(("G03", "position", format!("{:?} put the node at ({}, {})", op, m.x, m.y)));
            }
            if m.tag != tag {
                out.push(("G08", "node-payload", format!("{:?} stored payload {}", op, m.tag)));
            }
            let mut want = BTreeMap::new();
            for (i, e) in before.edges.iter().enumerate() {
                if splits.contains(&i) {
                    want.insert((e.a, n), e.tag);
                    want.insert((e.b, n), e.tag);
                } else {
                    want.insert(e.key(), e.tag);
                }
            }
            compare_edges(&want, &after.edges, "G03", &mut out);
        }
        Plan::Edge { chain, crossings } => {
            let tag = if let Op::AddEdge(_, _, t) = *op { t } else { unreachable!() };
            if !matches!(res, Res::Lists(..)) {
                out.push(("G03", "answer", format!("{:?} answered {:?}", op, res)));
            }
            if after.nodes.len() != n + crossings.len() {
                out.push((
                    "G03",
                    "node-count",
                    format!(
                        "{:?} meets {} edges in their interior but made {} new nodes",
                        op,
                        crossings.len(),
                        after.nodes.len() as i64 - n as i64
                    ),
                ));
                return out;
            }
            let g = gap(before.max_coord());
            let mut id = vec![usize::MAX; crossings.len()];
            for (k, m) in after.nodes.iter().enumerate().skip(n) {
                let best = (0..crossings.len())
                    .min_by(|&u, &v| {
                        let du = crossings[u].1.dist(m.p());
                        let dv = crossings[v].1.dist(m.p());
                        du.partial_cmp(&dv).unwrap_or(std::cmp::Ordering::Equal)
                    })
                    .unwrap();
                if !(crossings[best].1.dist(m.p()) <= g.tolx * crossings[best].2) || id[best] != usize::MAX {
                    out.push(("G03", "crossing-node", format!("new node {:?} is not at a crossing of its own", m)));
                    return out;
                }
                id[best] = k;
                if m.tag != 0 {
                    out.push(("G08", "crossing-payload", format!("crossing node {:?} does not carry the default", m)));
                }
            }
            let mut want = BTreeMap::new();
            for (i, e) in before.edges.iter().enumerate() {
                match crossings.iter().position(|c| c.0 == i) {
                    Some(c) => {
                        want.insert((e.a.min(id[c]), e.a.max(id[c])), e.tag);
                        want.insert((e.b.min(id[c]), e.b.max(id[c])), e.tag);
                    }
                    None => {
                        want.insert(e.key(), e.tag);
                    }
                }
            }
            let ids: Vec<usize> = chain
                .iter()
                .map(|l| match l {
                    Link::Old(k) => *k,
                    Link::Cross(c) => id[*c],
                })
                .collect();
            for w in ids.windows(2) {
                want.entry((w[0].min(w[1]), w[0].max(w[1]))).or_insert(tag);
            }
            compare_edges(&want, &after.edges, "G03", &mut out);
        }
        Plan::Remove { nodes, edges } => {
            if !matches!(res, Res::Lists(..)) {
                out.push(("G04", "answer", format!("{:?} answered {:?}", op, res)));
            }
            // survivors by position
            let key = |m: &NodeS| (m.x.to_bits(), m.y.to_bits());
            let distinct: std::collections::BTreeSet<_> = before.nodes.iter().map(key).collect();
            if distinct.len() != n {
                return out;
            }
            let mut want: BTreeMap<(u32, u32), u32> = BTreeMap::new();
            for (k, m) in before.nodes.iter().enumerate() {
                if !nodes.contains(&k) {
                    want.insert(key(m), m.tag);
                }
            }
            let mut have: BTreeMap<(u32, u32), u32> = BTreeMap::new();
            for m in &after.nodes {
                have.insert(key(m), m.tag);
            }
            for (k, t) in &want {
                match have.get(k) {
                    None => out.push((
                        "G04",
                        "node-lost",
                        format!("{:?} also removed the node at ({}, {})", op, f32::from_bits(k.0), f32::from_bits(k.1)),
                    )),
                    Some(u) if u != t => out.push((
                        "G08",
                        "node-payload",
                        format!(
                            "the node at ({}, {}) carries {} instead of {}",
                            f32::from_bits(k.0),
                            f32::from_bits(k.1),
                            u,
                            t
                        ),
                    )),
                    _ => {}
                }
            }
            for k in have.keys() {
                if !want.contains_key(k) {
                    out.push((
                        "G04",
                        "node-left",
                        format!("{:?} left the node at ({}, {})", op, f32::from_bits(k.0), f32::from_bits(k.1)),
                    ));
                }
            }
            if after.nodes.len() != have.len() {
                out.push(("G04", "node-twice", format!("{:?} left a node twice", op)));
            }
            let ek = |s: &Snap, e: &EdgeS| {
                let (p, q) = (key(&s.nodes[e.a]), key(&s.nodes[e.b]));
                (p.min(q), p.max(q))
            };
            let mut want = BTreeMap::new();
            for (i, e) in before.edges.iter().enumerate() {
                if !edges.contains(&i) {
                    want.insert(ek(before, e), e.tag);
                }
            }
            let mut have = BTreeMap::new();
            for e in &after.edges {
                if e.a < after.nodes.len() && e.b < after.nodes.len() {
                    have.insert(ek(after, e), e.tag);
                } else {
                    out.push(("G04", "dangling", format!("{:?} left an edge {:?} without its node", op, e)));
                }
            }
            let show = |k: &((u32, u32), (u32, u32))| {
                format!(
                    "({}, {})-({}, {})",
                    f32::from_bits(k.0 .0),
                    f32::from_bits(k.0 .1),
                    f32::from_bits(k.1 .0),
                    f32::from_bits(k.1 .1)
                )
            };
            for (k, t) in &want {
                match have.get(k) {
                    None => out.push(("G04", "edge-lost", format!("{:?} also removed the edge {}", op, show(k)))),
                    Some(u) if u != t => {
                        out.push(("G08", "edge-payload", format!("the edge {} carries {} instead of {}", show(k), u, t)))
                    }
                    _ => {}
                }
            }
            for k in have.keys() {
                if !want.contains_key(k) {
                    out.push(("G04", "edge-left", format!("{:?} left or made the edge {}", op, show(k))));
                }
            }
            if after.edges.len() != want.len() && out.is_empty() {
                out.push(("G04", "edge-count", format!("{:?} left {} edges instead of {}", op, after.edges.len(), want.len())));
            }
        }
    }
    out
}

/// Structural well-formedness (G01), independent of geometry.
pub fn well_formed(s: &Snap) -> Option<(&'static str, String)> {
    let n = s.nodes.len();
    let mut seen = BTreeMap::new();
    for (i, e) in s.edges.iter().enumerate() {
        if e.a >= n || e.b >= n {
            return Some(("dangling-edge", format!("edge {} joins nodes {} and {} of {}", i, e.a, e.b, n)));
        }
        if e.a == e.b {
            return Some(("self-loop", format!("edge {} joins node {} to itself", i, e.a)));
        }
        if let Some(j) = seen.insert(e.key(), i) {
            return Some(("parallel-edge", format!("edges {} and {} both join {:?}", j, i, e.key())));
        }
    }
    for i in 0..n {
        for j in i + 1..n {
            let (p, q) = (&s.nodes[i], &s.nodes[j]);
            if p.x == q.x && p.y == q.y && p.x.is_finite() && p.y.is_finite() {
                return Some(("same-position", format!("nodes {} and {} are both at ({}, {})", i, j, p.x, p.y)));
            }
        }
    }
    None
}
