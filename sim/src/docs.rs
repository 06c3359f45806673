//! Documents: a model of their content, a writer that renders the same content in many ways, an independent reader
//! that says what given bytes mean, and the comparison with what the library loaded.

use crate::choice::{choose, hash_bytes, permille, pick, range};
use kami::fold::fold::Fold;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Doc {
    pub spec: i32,
    /// in the order of STRINGS
    pub strings: [String; 8],
    /// in the order of LISTS
    pub lists: [Vec<String>; 4],
    pub coords: Vec<Vec<f32>>,
    /// in the order of INDEXES
    pub indexes: [Vec<Vec<i32>>; 6],
    /// fold angles, lengths
    pub floats: [Vec<f32>; 2],
    /// face orders, edge orders
    pub orders: [Vec<[i32; 3]>; 2],
}

pub const STRINGS: [&str; 8] = [
    "file_creator",
    "file_author",
    "file_title",
    "file_description",
    "frame_author",
    "frame_title",
    "frame_description",
    "frame_unit",
];
pub const LISTS: [&str; 4] = ["file_classes", "frame_classes", "frame_attributes", "edges_assignment"];
pub const INDEXES: [&str; 6] =
    ["vertices_vertices", "vertices_faces", "edges_vertices", "edges_faces", "faces_vertices", "faces_edges"];
pub const FLOATS: [&str; 2] = ["edges_foldAngles", "edges_lengths"];
pub const ORDERS: [&str; 2] = ["faceOrders", "edgeOrders"];

impl Doc {
    pub fn of(f: &Fold) -> Doc {
        Doc {
            spec: f.file_spec,
            strings: [
                f.file_creator.clone(),
                f.file_author.clone(),
                f.file_title.clone(),
                f.file_description.clone(),
                f.frame_author.clone(),
                f.frame_title.clone(),
                f.frame_description.clone(),
                f.frame_unit.clone(),
            ],
            lists: [
                f.file_classes.clone(),
                f.frame_classes.clone(),
                f.frame_attributes.clone(),
                f.edges_assignment.clone(),
            ],
            coords: f.vertices_coords.clone(),
            indexes: [
                f.vertices_vertices.clone(),
                f.vertices_faces.clone(),
                f.edges_vertices.clone(),
                f.edges_faces.clone(),
                f.faces_vertices.clone(),
                f.faces_edges.clone(),
            ],
            floats: [f.edges_foldangles.clone(), f.edges_lengths.clone()],
            orders: [f.faceorders.clone(), f.edgeorders.clone()],
        }
    }
    /// Put the content into a document value of the library.
    pub fn into_fold(&self, f: &mut Fold) {
        let d = self.clone();
        f.file_spec = d.spec;
        let [a, b, c, e, g, h, i, j] = d.strings;
        f.file_creator = a;
        f.file_author = b;
        f.file_title = c;
        f.file_description = e;
        f.frame_author = g;
        f.frame_title = h;
        f.frame_description = i;
        f.frame_unit = j;
        let [a, b, c, e] = d.lists;
        f.file_classes = a;
        f.frame_classes = b;
        f.frame_attributes = c;
        f.edges_assignment = e;
        f.vertices_coords = d.coords;
        let [a, b, c, e, g, h] = d.indexes;
        f.vertices_vertices = a;
        f.vertices_faces = b;
        f.edges_vertices = c;
        f.edges_faces = e;
        f.faces_vertices = g;
        f.faces_edges = h;
        let [a, b] = d.floats;
        f.edges_foldangles = a;
        f.edges_lengths = b;
        let [a, b] = d.orders;
        f.faceorders = a;
        f.edgeorders = b;
    }

    /// The first difference in content, if any. Floats are compared as numbers, to the bit except for `slack`
    /// (in units of the last place; for texts with more digits than a double can hold).
    pub fn differs(&self, o: &Doc, slack: u32) -> Option<String> {
        let close = |a: f32, b: f32| {
            a.to_bits() == b.to_bits()
                || (slack > 0 && {
                    let ord = |x: f32| {
                        let b = x.to_bits() as i64;
                        if b < 0x8000_0000 { b } else { 0x8000_0000 - b }
                    };
                    (ord(a) - ord(b)).abs() <= slack as i64
                })
        };
        let row = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y));
        fn cut<T: std::fmt::Debug>(x: &T) -> String {
            let s = format!("{:?}", x);
            if s.len() > 160 { format!("{}...", s.chars().take(160).collect::<String>()) } else { s }
        }
        if self.spec != o.spec {
            return Some(format!("file_spec {} against {}", self.spec, o.spec));
        }
        for i in 0..8 {
            if self.strings[i] != o.strings[i] {
                return Some(format!("{} {} against {}", STRINGS[i], cut(&self.strings[i]), cut(&o.strings[i])));
            }
        }
        for i in 0..4 {
            if self.lists[i] != o.lists[i] {
                return Some(format!("{} {} against {}", LISTS[i], cut(&self.lists[i]), cut(&o.lists[i])));
            }
        }
        if self.coords.len() != o.coords.len() || !self.coords.iter().zip(&o.coords).all(|(a, b)| row(a, b)) {
            return Some(format!("vertices_coords {} against {}", cut(&self.coords), cut(&o.coords)));
        }
        for i in 0..6 {
            if self.indexes[i] != o.indexes[i] {
                return Some(format!("{} {} against {}", INDEXES[i], cut(&self.indexes[i]), cut(&o.indexes[i])));
            }
        }
        for i in 0..2 {
            if !row(&self.floats[i], &o.floats[i]) {
                return Some(format!("{} {} against {}", FLOATS[i], cut(&self.floats[i]), cut(&o.floats[i])));
            }
        }
        for i in 0..2 {
            if self.orders[i] != o.orders[i] {
                return Some(format!("{} {} against {}", ORDERS[i], cut(&self.orders[i]), cut(&o.orders[i])));
            }
        }
        None
    }
    pub fn hash(&self) -> u64 {
        hash_bytes(0xcbf29ce484222325, format!("{:?}", self).as_bytes())
    }
}

// ---------------------------------------------------------------- generating

fn character() -> char {
    match choose(12) {
        0..=5 => (b'a' + choose(26) as u8) as char,
        6 => pick(&['"', '\\', '/', '\n', '\t', '\r', '\u{8}', '\u{c}', '\0', '\u{1f}', '\u{7f}']),
        7 => pick(&['é', 'ß', 'Ω', '\u{80}', '\u{7ff}', '\u{a0}']),
        8 => pick(&['漢', '折', '\u{800}', '\u{ffff}', '\u{feff}', '\u{2028}', '\u{d7ff}', '\u{e000}']),
        9 => pick(&['😀', '\u{10000}', '\u{10ffff}', '🦢']),
        10 => pick(&['{', '}', '[', ']', ':', ',', ' ', '-', '0', '.']),
        _ => (0x20 + choose(0x5f) as u8) as char,
    }
}
pub fn string(max: u32) -> String {
    (0..choose(max + 1)).map(|_| character()).collect()
}
pub fn int() -> i32 {
    match choose(8) {
        0..=4 => choose(40) as i32,
        5 => -(choose(4) as i32) - 1,
        6 => pick(&[i32::MAX, i32::MIN, 0, -1, 1, 65536, 1_000_000]),
        _ => (choose(u32::MAX) as i64 - (1 << 31)) as i32,
    }
}
pub fn float() -> f32 {
    match choose(8) {
        0..=2 => range(-40, 40) as f32 * 0.25,
        3 => range(-1000, 1000) as f32 / 7.0,
        4 => pick(&[
            0.0,
            -0.0,
            f32::MAX,
            f32::MIN,
            f32::MIN_POSITIVE,
            1e-45,
            -1.1754942e-38,
            0.1,
            16777216.0,
            -180.0,
            180.0,
            std::f32::consts::PI,
            1.0 / 3.0,
            1e20,
            1e-20,
            f32::EPSILON,
            9.999999e9,
        ]),
        5 => f32::from_bits(choose(0x7f80_0000)),
        6 => -f32::from_bits(choose(0x7f80_0000)),
        _ => range(-(1 << 24), 1 << 24) as f32 / (1u32 << choose(24)) as f32,
    }
}

/// How large the parts of a document get.
#[derive(Clone, Copy)]
pub struct Size {
    pub present: u32,
    pub items: u32,
    pub text: u32,
}
pub fn size() -> Size {
    match choose(10) {
        0 => Size { present: 0, items: 2, text: 3 },
        1..=3 => Size { present: 150, items: 3, text: 6 },
        4..=6 => Size { present: 500, items: 5, text: 12 },
        7 => Size { present: 900, items: 8, text: 40 },
        8 => Size { present: 300, items: 40, text: 400 },
        _ => Size { present: 200, items: 10, text: 3000 },
    }
}

pub fn generate(z: Size) -> Doc {
    let mut d = Doc::default();
    let here = || permille(z.present);
    if here() {
        d.spec = int();
    }
    for s in d.strings.iter_mut() {
        if here() {
            *s = string(z.text);
        }
    }
    for (k, l) in d.lists.iter_mut().enumerate() {
        if here() {
            *l = (0..choose(z.items + 1))
                .map(|_| if k == 3 { pick(&["B", "M", "V", "F", "U"]).to_string() } else { string(z.text.min(20)) })
                .collect();
        }
    }
    if here() {
        d.coords = (0..choose(z.items + 1)).map(|_| (0..pick(&[2u32, 2, 3, 0, 1])).map(|_| float()).collect()).collect();
    }
    for l in d.indexes.iter_mut() {
        if here() {
            *l = (0..choose(z.items + 1)).map(|_| (0..pick(&[2u32, 3, 4, 0, 1])).map(|_| int()).collect()).collect();
        }
    }
    for l in d.floats.iter_mut() {
        if here() {
            *l = (0..choose(z.items + 1)).map(|_| float()).collect();
        }
    }
    for l in d.orders.iter_mut() {
        if here() {
            *l = (0..choose(z.items + 1)).map(|_| [int(), int(), pick(&[1, -1, 0])]).collect();
        }
    }
    d
}

/// A document as large as crease patterns get, and its text.
pub fn huge() -> (Doc, Vec<u8>) {
    let mut d = Doc { spec: int(), ..Default::default() };
    d.strings[2] = string(8).replace(['"', '\\'], "").chars().filter(|c| *c >= ' ').collect();
    d.floats[1] = (0..1 + choose(5)).map(|_| choose(1000) as f32 / 8.0).collect();
    let seed = choose(1 << 30) as usize;
    let n = pick(&[300_000usize, 70_000, 1_100_000, 2_200_000]) + choose(40_000) as usize;
    let (key, big) = match choose(5) {
        0 => {
            d.strings[3] = (0..n).map(|i| (b'a' + ((i ^ seed) * 7 % 23) as u8) as char).collect();
            ("file_description", format!("\"{}\"", d.strings[3]))
        }
        1 => ("x:notes", format!("\"{}\"", "ab ".repeat(n / 3))),
        2 => {
            d.coords = (0..n / 16).map(|i| vec![i as f32 * 0.5, ((i ^ seed) % 1000) as f32]).collect();
            ("vertices_coords", format!("{:?}", d.coords))
        }
        3 => {
            d.indexes[2] = (0..n / 14).map(|i| vec![i as i32, (i ^ seed) as i32 % 9999]).collect();
            ("edges_vertices", format!("{:?}", d.indexes[2]))
        }
        _ => {
            d.lists[3] = (0..n / 5).map(|i| ["B", "M", "V", "F", "U"][(i * 7 ^ seed) % 5].to_string()).collect();
            ("edges_assignment", format!("{:?}", d.lists[3]))
        }
    };
    let t = format!(
        "{{\"file_spec\": {}, \"{}\": {}, \"{}\": \"{}\", \"edges_lengths\": {:?}}}",
        d.spec, key, big, STRINGS[2], d.strings[2], d.floats[1]
    );
    (d, t.into_bytes())
}

// ---------------------------------------------------------------- writing

struct W {
    o: String,
    ws: u32,
    esc: u32,
    num: u32,
    /// put this in for the value that comes after so many others
    wrong: Option<(u32, &'static str)>,
}
impl W {
    fn spoiled(&mut self) -> bool {
        match self.wrong {
            Some((0, v)) => {
                self.o.push_str(v);
                self.wrong = None;
                true
            }
            Some((n, v)) => {
                self.wrong = Some((n - 1, v));
                false
            }
            None => false,
        }
    }
    fn space(&mut self) {
        if permille(self.ws) {
            for _ in 0..1 + choose(3) {
                self.o.push(pick(&[' ', '\n', '\t', '\r']));
            }
        }
    }
    fn string(&mut self, s: &str) {
        if self.spoiled() {
            return;
        }
        self.o.push('"');
        for c in s.chars() {
            let plain = c >= ' ' && c != '"' && c != '\\';
            if plain && !permille(self.esc) {
                self.o.push(c);
                continue;
            }
            let short = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            match short {
                Some(t) if !permille(200) => self.o.push_str(t),
                _ => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b).iter() {
                        if permille(500) {
                            self.o.push_str(&format!("\\u{:04x}", u));
                        } else {
                            self.o.push_str(&format!("\\u{:04X}", u));
                        }
                    }
                }
            }
        }
        self.o.push('"');
    }
    fn int(&mut self, i: i32) {
        if self.spoiled() {
            return;
        }
        self.o.push_str(&i.to_string());
    }
    fn float(&mut self, x: f32) {
        if self.spoiled() {
            return;
        }
        // every form below names a number that rounds to exactly x, in few enough digits to be read exactly
        let t = if !permille(self.num) {
            format!("{:?}", x)
        } else {
            match choose(4) {
                0 => format!("{:e}", x),
                1 => format!("{:E}", x).replace('E', "E+").replace("E+-", "E-"),
                2 if x == x.trunc() && x.abs() < 1e9 && !(x == 0.0 && x.is_sign_negative()) => format!("{}", x as i64),
                3 if x.abs() < 1e6 && x.abs() > 1e-3 => format!("{}0", format!("{:?}", x)),
                _ => format!("{:?}", x),
            }
        };
        self.o.push_str(&t);
    }
    fn list<T>(&mut self, v: &[T], mut f: impl FnMut(&mut W, &T)) {
        self.o.push('[');
        self.space();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.o.push(',');
                self.space();
            }
            f(self, x);
            self.space();
        }
        self.o.push(']');
    }
    fn anything(&mut self, depth: u32) {
        match choose(if depth == 0 { 5 } else { 7 }) {
            0 => self.o.push_str("null"),
            1 => self.o.push_str(pick(&["true", "false"])),
            2 => self.int(int()),
            3 => {
                let f = float();
                self.float(f)
            }
            4 => {
                let s = string(8);
                self.string(&s)
            }
            5 => {
                self.o.push('[');
                for i in 0..choose(4) {
                    if i > 0 {
                        self.o.push(',');
                    }
                    self.anything(depth - 1);
                }
                self.o.push(']');
            }
            _ => {
                self.o.push('{');
                for i in 0..choose(3) {
                    if i > 0 {
                        self.o.push(',');
                    }
                    let s = pick(&["a", "file_title", "x:y", "file_spec", "vertices_coords"]);
                    let s = if i > 0 || permille(300) { format!("{}{}", s, i) } else { s.to_string() };
                    self.string(&s);
                    self.o.push(':');
                    self.anything(depth - 1);
                }
                self.o.push('}');
            }
        }
    }
}

/// Render the document; absent and empty fields may be written out or left out.
pub fn render(d: &Doc) -> Vec<u8> {
    render_with(d, None)
}

enum Wrong {
    Whole(&'static str),
    Part(u32, &'static str),
}

fn render_with(d: &Doc, wrong: Option<(usize, Wrong)>) -> Vec<u8> {
    let mut w =
        W { o: String::new(), ws: pick(&[0, 100, 600]), esc: pick(&[0, 60, 500]), num: pick(&[0, 400]), wrong: None };
    // the fields as (key, writer) pairs, by number
    let empty = [0u32, 300, 1000][choose(3) as usize];
    let mut keys: Vec<usize> = vec![];
    let has = |i: usize| -> bool {
        match i {
            0 => d.spec != 0,
            1..=8 => !d.strings[i - 1].is_empty(),
            9..=12 => !d.lists[i - 9].is_empty(),
            13 => !d.coords.is_empty(),
            14..=19 => !d.indexes[i - 14].is_empty(),
            20..=21 => !d.floats[i - 20].is_empty(),
            _ => !d.orders[i - 22].is_empty(),
        }
    };
    for i in 0..24 {
        if has(i) || permille(empty) || wrong.as_ref().map_or(false, |x| x.0 == i) {
            keys.push(i);
        }
    }
    // unknown keys, numbered from 100
    for k in 0..pick(&[0u32, 0, 1, 4]) {
        keys.push(100 + k as usize);
    }
    if permille(700) {
        for i in (1..keys.len()).rev() {
            keys.swap(i, choose(i as u32 + 1) as usize);
        }
    }
    w.space();
    w.o.push('{');
    w.space();
    for (n, &k) in keys.iter().enumerate() {
        if n > 0 {
            w.o.push(',');
            w.space();
        }
        let name = match k {
            0 => "file_spec".to_string(),
            1..=8 => STRINGS[k - 1].to_string(),
            9..=12 => LISTS[k - 9].to_string(),
            13 => "vertices_coords".to_string(),
            14..=19 => INDEXES[k - 14].to_string(),
            20..=21 => FLOATS[k - 20].to_string(),
            22..=23 => ORDERS[k - 22].to_string(),
            _ => format!(
                "{}{}",
                pick(&["file_frames:x", "kami:own", "edges_", "", "vertices_coords ", "File_Title", "frame_inherit"]),
                k
            ),
        };
        w.string(&name);
        w.space();
        w.o.push(':');
        w.space();
        match wrong {
            Some((n, Wrong::Whole(v))) if n == k => {
                w.o.push_str(v);
                w.space();
                continue;
            }
            Some((n, Wrong::Part(i, v))) if n == k => w.wrong = Some((i, v)),
            _ => {}
        }
        match k {
            0 => w.int(d.spec),
            1..=8 => w.string(&d.strings[k - 1]),
            9..=12 => w.list(&d.lists[k - 9], |w, s| w.string(s)),
            13 => w.list(&d.coords, |w, r| w.list(r, |w, x| w.float(*x))),
            14..=19 => w.list(&d.indexes[k - 14], |w, r| w.list(r, |w, x| w.int(*x))),
            20..=21 => w.list(&d.floats[k - 20], |w, x| w.float(*x)),
            22..=23 => w.list(&d.orders[k - 22], |w, r| w.list(r, |w, x| w.int(*x))),
            _ => w.anything(3),
        }
        w.wrong = None;
        w.space();
    }
    w.o.push('}');
    w.space();
    w.o.into_bytes()
}

/// The same with one value of a wrong type put in for a field, or for one of the values in it.
pub fn render_mistyped(d: &Doc) -> Vec<u8> {
    let k = match choose(6) {
        0 => 0,
        1 => 1 + choose(8) as usize,
        2 => 9 + choose(4) as usize,
        3 => 14 + choose(6) as usize,
        4 => pick(&[13usize, 20, 21]),
        _ => 22 + choose(2) as usize,
    };
    let parts: usize = match k {
        0..=8 => 0,
        9..=12 => d.lists[k - 9].len(),
        13 => d.coords.iter().map(|r| r.len()).sum(),
        14..=19 => d.indexes[k - 14].iter().map(|r| r.len()).sum(),
        20..=21 => d.floats[k - 20].len(),
        _ => d.orders[k - 22].len() * 3,
    };
    if parts > 0 && permille(500) {
        let at = if permille(300) { parts - 1 } else { choose(parts as u32) as usize };
        let value = match k {
            9..=12 => pick(&["7", "null", "[]", "{}", "true", "[\"x\"]"]),
            13 | 20 | 21 => pick(&["\"1\"", "null", "[]", "{}", "true", "[1]", "\"\"", "\"NaN\""]),
            _ => pick(&["\"1\"", "null", "[]", "{}", "true", "[1]", "99999999999", "-2147483649", "0.5", "false"]),
        };
        return render_with(d, Some((k, Wrong::Part(at as u32, value))));
    }
    let value = pick(&[
        "{}", "true", "\"1\"", "1.5", "[[\"a\"]]", "[1,\"b\"]", "[[1,2],3]", "99999999999", "-2147483649", "[null]",
        "[[null,1]]", "{\"0\":[1]}", "[[1,2,3,4]]", "[[1,2]]", "12", "[[1.5]]", "\"\"", "[{}]", "[[[]]]", "false",
    ]);
    render_with(d, Some((k, Wrong::Whole(value))))
}

// ---------------------------------------------------------------- reading, independently of the library's parser

#[derive(Debug)]
enum V {
    Null,
    Bool,
    Num(String),
    Str(String),
    List(Vec<V>),
    Map(Vec<(V, V)>),
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
    /// something readers legitimately differ about was met
    odd: bool,
    digits: usize,
}
type Bad = ();
impl<'a> R<'a> {
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\n' | b'\r' | b'\t') && self.i < self.b.len() {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str) -> Result<(), Bad> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(())
        } else {
            Err(())
        }
    }
    fn value(&mut self, depth: u32) -> Result<V, Bad> {
        if depth > 110 {
            self.odd = true;
        }
        if depth > 5000 {
            return Err(());
        }
        self.ws();
        match self.peek() {
            b'n' => self.lit("null").map(|_| V::Null),
            b't' => self.lit("true").map(|_| V::Bool),
            b'f' => self.lit("false").map(|_| V::Bool),
            b'"' => self.string().map(V::Str),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(V::List(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(V::List(v));
                        }
                        _ => return Err(()),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(V::Map(v));
                }
                loop {
                    self.ws();
                    if self.peek() != b'"' {
                        return Err(());
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(());
                    }
                    self.i += 1;
                    let x = self.value(depth + 1)?;
                    v.push((V::Str(k), x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(V::Map(v));
                        }
                        _ => return Err(()),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = self.i;
                if self.peek() == b'-' {
                    self.i += 1;
                }
                match self.peek() {
                    b'0' => self.i += 1,
                    b'1'..=b'9' => {
                        while self.peek().is_ascii_digit() {
                            self.i += 1;
                        }
                    }
                    _ => return Err(()),
                }
                if self.peek() == b'.' {
                    self.i += 1;
                    if !self.peek().is_ascii_digit() {
                        return Err(());
                    }
                    while self.peek().is_ascii_digit() {
                        self.i += 1;
                    }
                }
                if matches!(self.peek(), b'e' | b'E') {
                    self.i += 1;
                    if matches!(self.peek(), b'+' | b'-') {
                        self.i += 1;
                    }
                    if !self.peek().is_ascii_digit() {
                        return Err(());
                    }
                    while self.peek().is_ascii_digit() {
                        self.i += 1;
                    }
                }
                let t = std::str::from_utf8(&self.b[s..self.i]).unwrap().to_string();
                self.digits = self.digits.max(t.len());
                match t.parse::<f64>() {
                    Ok(x) if x.is_finite() && x.abs() < 1e300 => {}
                    // out of a double's range: readers may refuse
                    _ => self.odd = true,
                }
                Ok(V::Num(t))
            }
            _ => Err(()),
        }
    }
    fn hex(&mut self) -> Result<u32, Bad> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + (self.peek() as char).to_digit(16).ok_or(())?;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, Bad> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            if self.i >= self.b.len() {
                return Err(());
            }
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return Ok(String::from_utf8(o).unwrap()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'u' => {
                            let mut u = self.hex()?;
                            if (0xd800..0xdc00).contains(&u) {
                                let save = self.i;
                                if self.lit("\\u").is_ok() {
                                    let lo = self.hex()?;
                                    if (0xdc00..0xe000).contains(&lo) {
                                        u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                                    } else {
                                        self.odd = true;
                                        self.i = save;
                                    }
                                } else {
                                    self.odd = true;
                                }
                            }
                            match char::from_u32(u) {
                                Some(ch) => {
                                    let mut b = [0; 4];
                                    o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                                }
                                None => self.odd = true,
                            }
                        }
                        _ => return Err(()),
                    }
                }
                0..=0x1f => return Err(()),
                c => o.push(c),
            }
        }
    }
}

pub enum Meaning {
    /// no valid document: loading must fail
    Invalid(&'static str),
    /// exactly this document (or, with `slack`, floats within that many units in the last place)
    Valid(Doc, u32),
    /// readers may differ: anything but a panic
    Unclear(&'static str),
}

enum Kind {
    Wrong,
    Odd,
}
fn as_i32(v: &V) -> Result<i32, Kind> {
    match v {
        V::Num(t) => {
            if t.contains(|c| matches!(c, '.' | 'e' | 'E')) {
                let x: f64 = t.parse().map_err(|_| Kind::Odd)?;
                return Err(if x == x.trunc() { Kind::Odd } else { Kind::Wrong });
            }
            if t == "-0" {
                return Err(Kind::Odd);
            }
            t.parse::<i32>().map_err(|_| Kind::Wrong)
        }
        _ => Err(Kind::Wrong),
    }
}
fn as_f32(v: &V) -> Result<f32, Kind> {
    match v {
        V::Num(t) => {
            let x = t.parse::<f32>().map_err(|_| Kind::Odd)?;
            if t == "-0" || !x.is_finite() {
                // sign of an integer zero; out of single precision's range
                return Err(Kind::Odd);
            }
            Ok(x)
        }
        _ => Err(Kind::Wrong),
    }
}
fn as_str(v: &V) -> Result<String, Kind> {
    match v {
        V::Str(s) => Ok(s.clone()),
        _ => Err(Kind::Wrong),
    }
}
fn as_list<T>(v: &V, f: impl Fn(&V) -> Result<T, Kind>) -> Result<Vec<T>, Kind> {
    match v {
        V::List(l) => {
            // a definitely wrong element decides over a doubtful one
            let mut o = vec![];
            let mut odd = false;
            for x in l {
                match f(x) {
                    Ok(x) => o.push(x),
                    Err(Kind::Wrong) => return Err(Kind::Wrong),
                    Err(Kind::Odd) => odd = true,
                }
            }
            if odd { Err(Kind::Odd) } else { Ok(o) }
        }
        _ => Err(Kind::Wrong),
    }
}
fn as_triple(v: &V) -> Result<[i32; 3], Kind> {
    let l = as_list(v, as_i32)?;
    if l.len() == 3 { Ok([l[0], l[1], l[2]]) } else { Err(Kind::Wrong) }
}

/// What these bytes say.
fn is_known(k: &str) -> bool {
    k == "file_spec"
        || k == "vertices_coords"
        || STRINGS.contains(&k)
        || LISTS.contains(&k)
        || INDEXES.contains(&k)
        || FLOATS.contains(&k)
        || ORDERS.contains(&k)
}

/// Text that is not UTF-8 makes a document invalid, wherever it shows. Readers may differ only on whether they look at
/// the encoding of what they skip: strings below keys they do not know.
fn not_utf8(bytes: &[u8]) -> Meaning {
    const MARK: char = '\u{f8fe}';
    let mut text = String::new();
    for c in bytes.utf8_chunks() {
        text.push_str(c.valid());
        if !c.invalid().is_empty() {
            text.push(MARK);
        }
    }
    fn marked(v: &V) -> bool {
        match v {
            V::Str(s) => s.contains(MARK),
            V::List(l) => l.iter().any(marked),
            V::Map(m) => m.iter().any(|(k, v)| marked(k) || marked(v)),
            _ => false,
        }
    }
    let mut r = R { b: text.as_bytes(), i: 0, odd: false, digits: 0 };
    match r.value(0) {
        Ok(V::Map(m)) => {
            let skipped = |k: &V| match k {
                V::Str(k) => !is_known(k) && !k.contains(MARK),
                _ => false,
            };
            r.ws();
            if r.i == text.len() && m.iter().all(|(k, v)| skipped(k) || !(marked(k) || marked(v))) {
                Meaning::Unclear("not UTF-8 where readers skip")
            } else {
                Meaning::Invalid("not UTF-8")
            }
        }
        _ => Meaning::Invalid("not UTF-8"),
    }
}

pub fn meaning(bytes: &[u8]) -> Meaning {
    if std::str::from_utf8(bytes).is_err() {
        return not_utf8(bytes);
    }
    if bytes.starts_with(&[0xef, 0xbb, 0xbf]) {
        return Meaning::Unclear("byte order mark");
    }
    let mut r = R { b: bytes, i: 0, odd: false, digits: 0 };
    let v = match r.value(0) {
        Ok(v) => v,
        Err(()) => return if r.odd { Meaning::Unclear("odd and invalid") } else { Meaning::Invalid("not JSON") },
    };
    r.ws();
    if r.i < bytes.len() {
        return Meaning::Invalid("something follows the document");
    }
    if r.odd {
        return Meaning::Unclear("readers differ");
    }
    let slack = if r.digits > 15 { 1 } else { 0 };
    let map = match v {
        V::Map(m) => m,
        V::List(_) => return Meaning::Unclear("a list at the top"),
        _ => return Meaning::Invalid("not an object"),
    };
    let mut d = Doc::default();
    let mut seen: Vec<String> = vec![];
    let mut unclear = None;
    let mut wrong = false;
    for (k, v) in &map {
        let k = match k {
            V::Str(k) => k.as_str(),
            _ => unreachable!(),
        };
        let at = |l: &[&str]| l.iter().position(|x| *x == k);
        if !is_known(k) {
            // names of the same fields in other spellings of the format or of this library
            if ["edges_foldAngle", "edges_length", "edges_foldangles", "faceorders", "edgeorders", "file_frames"].contains(&k) {
                unclear = Some("another spelling of a field");
            }
            continue;
        }
        if seen.iter().any(|s| s == k) {
            // which one counts is up to the reader
            return Meaning::Unclear("a field given twice");
        }
        seen.push(k.to_string());
        if let V::Null = v {
            unclear = Some("null for a field");
            continue;
        }
        let got: Result<(), Kind> = if k == "file_spec" {
            as_i32(v).map(|x| d.spec = x)
        } else if k == "vertices_coords" {
            as_list(v, |x| as_list(x, as_f32)).map(|x| d.coords = x)
        } else if let Some(i) = at(&STRINGS) {
            as_str(v).map(|x| d.strings[i] = x)
        } else if let Some(i) = at(&LISTS) {
            as_list(v, as_str).map(|x| d.lists[i] = x)
        } else if let Some(i) = at(&INDEXES) {
            as_list(v, |x| as_list(x, as_i32)).map(|x| d.indexes[i] = x)
        } else if let Some(i) = at(&FLOATS) {
            as_list(v, as_f32).map(|x| d.floats[i] = x)
        } else {
            let i = at(&ORDERS).unwrap();
            as_list(v, as_triple).map(|x| d.orders[i] = x)
        };
        match got {
            Ok(()) => {}
            Err(Kind::Wrong) => wrong = true,
            Err(Kind::Odd) => unclear = Some("a doubtful number"),
        }
    }
    if wrong {
        return Meaning::Invalid("a value of the wrong type");
    }
    match unclear {
        Some(u) => Meaning::Unclear(u),
        None => Meaning::Valid(d, slack),
    }
}
