//! Map files: every small map, every edited value, every key, every layout, every damaged file.
use dm::constants::{ConstFn, Constant};
use dmm_tools::dmm::{Coord2, Coord3, Key, Map, Prefab};
use mc_common::*;
use std::cell::RefCell;
use std::path::PathBuf;

thread_local! { static FILE: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }

fn load(dir: &std::path::Path, bytes: &[u8]) -> Result<Map, String> {
    FILE.with(|f| {
        let mut f = f.borrow_mut();
        let path = f.get_or_insert_with(|| {
            use std::sync::atomic::*;
            static N: AtomicU64 = AtomicU64::new(0);
            dir.join(format!("m{}-{}.dmm", std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
        });
        std::fs::write(&*path, bytes).unwrap();
        Map::from_file(path).map_err(|e| e.description().to_owned())
    })
}

fn save(map: &Map) -> String {
    let mut out = vec![];
    map.to_writer(&mut out).unwrap();
    String::from_utf8(out).unwrap()
}

/// What a map means: size, and per cell from the bottom-left (x fastest, then y, then z) the key
/// letters; and per key its objects.
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    dim: (usize, usize, usize),
    cells: Vec<String>,
    dict: Vec<(String, Vec<(String, Vec<(String, String)>)>)>,
}

fn see(map: &Map) -> Seen {
    let (x, y, z) = map.dim_xyz();
    let mut cells = vec![];
    for k in 1..=z {
        for j in 1..=y {
            for i in 1..=x {
                cells.push(map.format_key(map[Coord3::new(i as i32, j as i32, k as i32)]).to_string());
            }
        }
    }
    Seen {
        dim: (x, y, z),
        cells,
        dict: map
            .dictionary
            .iter()
            .map(|(k, v)| {
                (
                    map.format_key(*k).to_string(),
                    v.iter()
                        .map(|p| (p.path.clone(), p.vars.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect()))
                        .collect(),
                )
            })
            .collect(),
    }
}

/// The model map: cells as indices into `keys`, objects with edited variables as source text and
/// expected value.
#[derive(Clone, Debug)]
struct Model {
    dim: (usize, usize, usize),
    cells: Vec<usize>,
    keys: Vec<(String, Vec<Obj>)>,
}
#[derive(Clone, Debug)]
struct Obj {
    path: String,
    vars: Vec<(String, Vec<u8>, Constant)>,
}
fn obj(path: &str) -> Obj {
    Obj { path: path.into(), vars: vec![] }
}

impl Model {
    fn cell(&self, x: usize, y: usize, z: usize) -> usize {
        self.cells[(z * self.dim.1 + y) * self.dim.0 + x]
    }
    fn seen(&self) -> Seen {
        let mut dict: Vec<_> = self
            .keys
            .iter()
            .map(|(k, objs)| {
                (
                    k.clone(),
                    objs.iter()
                        .map(|o| (o.path.clone(), o.vars.iter().map(|(n, _, v)| (n.clone(), format!("{v:?}"))).collect()))
                        .collect(),
                )
            })
            .collect();
        dict.sort_by_key(|(k, _): &(String, _)| value(k));
        Seen {
            dim: self.dim,
            cells: self.cells.iter().map(|&c| self.keys[c].0.clone()).collect(),
            dict,
        }
    }
    /// 0: rows on one line each (BYOND); 1: columns (TGM); 2: rows, CRLF; 3: columns, CRLF
    fn render(&self, layout: usize) -> Vec<u8> {
        let tgm = layout & 1 == 1;
        let nl: &[u8] = if layout & 2 == 2 { b"\r\n" } else { b"\n" };
        let mut out: Vec<u8> = vec![];
        macro_rules! put { ($($e:expr),*) => {{ $( out.extend_from_slice($e.as_ref()); )* }} }
        if tgm {
            put!("//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE", nl);
        }
        for (k, objs) in &self.keys {
            put!("\"", k, "\" = (");
            if tgm {
                put!(nl);
            }
            for (i, o) in objs.iter().enumerate() {
                if i > 0 {
                    put!(",");
                    if tgm {
                        put!(nl);
                    }
                }
                put!(o.path);
                if !o.vars.is_empty() {
                    put!("{");
                    for (j, (n, text, _)) in o.vars.iter().enumerate() {
                        if tgm {
                            put!(nl, "\t");
                        }
                        put!(n, " = ", text);
                        if j + 1 < o.vars.len() {
                            put!(";");
                            if !tgm {
                                put!(" ");
                            }
                        }
                    }
                    if tgm {
                        put!(nl, "\t");
                    }
                    put!("}");
                }
            }
            put!(")", nl);
        }
        let (dx, dy, dz) = self.dim;
        for z in 0..dz {
            put!(nl);
            if tgm {
                for x in 0..dx {
                    put!(format!("({},1,{}) = {{\"", x + 1, z + 1), nl);
                    for y in (0..dy).rev() {
                        put!(self.keys[self.cell(x, y, z)].0, nl);
                    }
                    put!("\"}", nl);
                }
            } else {
                put!(format!("(1,1,{}) = {{\"", z + 1), nl);
                for y in (0..dy).rev() {
                    for x in 0..dx {
                        put!(self.keys[self.cell(x, y, z)].0);
                    }
                    put!(nl);
                }
                put!("\"}", nl);
            }
        }
        out
    }
}

fn letters(len: usize, v: usize) -> String {
    let a: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let mut s = vec!['a'; len];
    let mut v = v;
    for c in s.iter_mut().rev() {
        *c = a[v % 52];
        v /= 52;
    }
    s.into_iter().collect()
}
fn value(key: &str) -> usize {
    key.bytes().fold(0, |n, c| {
        n * 52 + if c.is_ascii_lowercase() { (c - b'a') as usize } else { 26 + (c - b'A') as usize }
    })
}

fn check_model(c: &mut Case, dir: &std::path::Path, m: &Model, layouts: &[usize]) {
    let want = m.seen();
    for &l in layouts {
        let text = m.render(l);
        c.input(|| String::from_utf8_lossy(&text).into_owned());
        let map = match load(dir, &text) {
            Ok(m) => m,
            Err(e) => return c.fail("rejected", format!("layout {l}: {e}\n{}", String::from_utf8_lossy(&text))),
        };
        let got = see(&map);
        if got != want {
            return c.fail("load", format!("layout {l}\n expected: {want:?}\n loaded:   {got:?}\n{}", String::from_utf8_lossy(&text)));
        }
        // the level iterators agree with coordinates
        let (dx, dy, _) = m.dim;
        for (z, level) in map.iter_levels() {
            let order: Vec<_> = level.iter_top_down().collect();
            let mut n = 0;
            for y in (1..=dy as i32).rev() {
                for x in 1..=dx as i32 {
                    let at = Coord2::new(x, y);
                    if order.get(n) != Some(&(at, map[at.z(z)])) || level[at] != map[at.z(z)] {
                        return c.fail("iteration", format!("level {z}: {order:?}"));
                    }
                    n += 1;
                }
            }
            if n != order.len() {
                return c.fail("iteration", "extra cells");
            }
        }
        let saved = save(&map);
        match load(dir, saved.as_bytes()) {
            Ok(again) => {
                let again_seen = see(&again);
                if again_seen != want {
                    return c.fail("round trip", format!("saved as\n{saved}\n expected: {want:?}\n loaded:   {again_seen:?}"));
                }
                let twice = save(&again);
                if twice != saved {
                    return c.fail("second save differs", format!("{saved}\n---\n{twice}"));
                }
            },
            Err(e) => return c.fail("saved map rejected", format!("{e}\n{saved}")),
        }
        c.state(&saved);
        c.trans(3);
        c.validated(1);
    }
}

fn s(x: &str) -> Constant {
    Constant::String(x.to_owned().into())
}

/// (spelling, value)
fn values() -> Vec<(Vec<u8>, Constant)> {
    use Constant::*;
    let f = |x| Float(x);
    let pop = |p: &str| Prefab(Box::new(dm::constants::Pop::from_path_str(p)));
    let mut v: Vec<(&str, Constant)> = vec![
        ("0", f(0.)),
        ("1", f(1.)),
        ("-1", f(-1.)),
        ("-0.5", f(-0.5)),
        ("32", f(32.)),
        ("12345", f(12345.)),
        ("999999", f(999999.)),
        ("1e+006", f(1e6)),
        ("1.5e+010", f(1.5e10)),
        ("1e-005", f(1e-5)),
        ("0.000123", f(0.000123)),
        ("3.14159", f(3.14159)),
        ("null", Null(None)),
        ("\"\"", s("")),
        ("\"x\"", s("x")),
        ("\"a b\"", s("a b")),
        ("\"it's\"", s("it's")),
        ("\"a;b\"", s("a;b")),
        ("\"a}b{c\"", s("a}b{c")),
        ("\"a = b\"", s("a = b")),
        ("\"(1,2)\"", s("(1,2)")),
        ("\"http://x\"", s("http://x")),
        ("\"/* x */\"", s("/* x */")),
        ("\"\\n\"", s("\\n")),
        ("\"a\\\\\"", s("a\\\\")),
        ("\"\\\"\"", s("\\\"")),
        ("\"say \\\"hi\\\"} there\"", s("say \\\"hi\\\"} there")),
        ("\"\\[x]\"", s("\\[x]")),
        ("\"caf\u{e9}\"", s("caf\u{e9}")),
        ("\"\ta\"", s("\ta")),
        ("{\"x \"y\" z\"}", s("x \"y\" z")),
        ("{\"line\nline\"}", s("line\nline")),
        ("{\"a;b}c\"}", s("a;b}c")),
        ("'icons/a.dmi'", Resource("icons/a.dmi".into())),
        ("'a b;c}.dmi'", Resource("a b;c}.dmi".into())),
        ("'x//y.dmi'", Resource("x//y.dmi".into())),
        ("/obj/item", pop("/obj/item")),
        ("/mob", pop("/mob")),
        ("list()", List(Box::new([]))),
        ("list(1,2)", List(vec![(f(1.), None), (f(2.), None)].into())),
        ("list(\"a;\" = 1, \"b\" = \"}\")", List(vec![(s("a;"), Some(f(1.))), (s("b"), Some(s("}")))].into())),
        (
            "list(/obj = list(1),'x.dmi')",
            List(vec![(pop("/obj"), Some(List(vec![(f(1.), None)].into()))), (Resource("x.dmi".into()), None)].into()),
        ),
        (
            "new /obj/item(1, \"x\")",
            New {
                type_: Some(Box::new(dm::constants::Pop::from_path_str("/obj/item"))),
                args: Some(vec![(f(1.), None), (s("x"), None)].into()),
            },
        ),
        (
            "matrix(1, 2)",
            Call(ConstFn::Matrix, vec![(f(1.), None), (f(2.), None)].into()),
        ),
        ("newlist(/obj)", Call(ConstFn::Newlist, vec![(pop("/obj"), None)].into())),
    ];
    v.dedup_by_key(|x| x.0);
    let mut v: Vec<_> = v.into_iter().map(|(a, b)| (a.as_bytes().to_vec(), b)).collect();
    // text that is not UTF-8 is Latin-1
    v.push((b"\"caf\xe9\"".to_vec(), s("caf\u{e9}")));
    v
}

pub fn check(r: &mut Runner) {
    r.assume("numbers are compared at the six significant digits a map file holds; variable values with braces outside strings (/a{b = 1} as a value) are not generated");
    r.assume("text with a raw (unescaped) quote directly before a closing brace is not generated: it has no string literal spelling in a map");
    let dir = r.scratch();

    // ---- keys
    r.suite("every-key", "every dictionary key a map can hold, through save and load", 65535, |i, c| {
        let mut key = Key::default();
        for _ in 0..i {
            key = key.next();
        }
        let mut map = Map::with_empty_dictionary(1, 1, 1);
        map.dictionary.insert(key, vec![Prefab::from_path("/turf")]);
        map.grid[(0, 0, 0)] = key;
        map.adjust_key_length();
        let len = if i >= 52 * 52 { 3 } else if i >= 52 { 2 } else { 1 };
        let want = letters(len, i as usize);
        c.input(|| format!("key {i} = {want}"));
        c.check_eq("key letters", &want, &map.format_key(key).to_string());
        c.check_eq("key length", &(len as u8), &map.key_length());
        let text = save(&map);
        match load(&dir, text.as_bytes()) {
            Ok(m) => {
                c.check_eq("key after load", &key, &m[Coord3::new(1, 1, 1)]);
                c.check_eq("dictionary after load", &vec![key], &m.dictionary.keys().copied().collect::<Vec<_>>());
            },
            Err(e) => c.fail("saved map rejected", e),
        }
        c.trans(2);
        c.state(&i);
    });
    let n3 = 52 * 52 * 52;
    r.suite("every-key-spelling", "every string of one to three letters as a key in a file, and longer or mixed lengths", 52 + 52 * 52 + n3, |i, c| {
        let i = i as usize;
        let text = if i < 52 {
            letters(1, i)
        } else if i < 52 + 2704 {
            letters(2, i - 52)
        } else {
            letters(3, i - 52 - 2704)
        };
        let file = format!("\"{text}\" = (/turf)\n\n(1,1,1) = {{\"\n{text}\n\"}}\n");
        c.input(|| file.clone());
        match load(&dir, file.as_bytes()) {
            Ok(m) => {
                c.check_eq("key", &text, &m.format_key(m[Coord3::new(1, 1, 1)]).to_string());
                c.check_eq("dictionary", &1, &m.dictionary.len());
                if value(&text) > 65535 {
                    c.fail("accepted", "a key beyond the limit was accepted");
                }
                let mut m2 = m.clone();
                m2.adjust_key_length();
                c.check_eq("same number at the shortest length", &value(&text), &value(&m2.format_key(m[Coord3::new(1, 1, 1)]).to_string()));
            },
            Err(e) => {
                if value(&text) <= 65534 {
                    c.fail("rejected", e);
                }
            },
        }
        c.trans(1);
        c.state(&text);
    });

    // ---- structure
    let dims: Vec<(usize, usize, usize)> = {
        let mut v = vec![];
        let cap = r.pick(8, 9);
        for z in 1..=3 {
            for y in 1..=4 {
                for x in 1..=4 {
                    if x * y * z <= cap {
                        v.push((x, y, z));
                    }
                }
            }
        }
        v
    };
    let sizes: Vec<u64> = dims.iter().map(|d| pow(3, d.0 * d.1 * d.2)).collect();
    let total: u64 = sizes.iter().sum();
    r.note("dimensions", format!("{dims:?}"));
    let key_sets: [[&str; 3]; 3] = [["a", "b", "Z"], ["aa", "ba", "aB"], ["aaa", "aab", "ymo"]];
    r.suite("every-grid", "every map of up to the printed sizes over three keys, in rows and columns, LF and CRLF, key lengths one to three", total * 3, |i, c| {
        let mut d = Digits(i);
        let ks = d.pick(&key_sets);
        let mut rest = d.0;
        let mut n = 0;
        while rest >= sizes[n] {
            rest -= sizes[n];
            n += 1;
        }
        let dim = dims[n];
        let mut d = Digits(rest);
        let cells: Vec<usize> = (0..dim.0 * dim.1 * dim.2).map(|_| d.take(3)).collect();
        let m = Model {
            dim,
            cells,
            keys: ks.iter().enumerate().map(|(n, k)| (k.to_string(), vec![obj(["/turf/a", "/turf/b", "/turf/c"][n]), obj("/area")])).collect(),
        };
        check_model(c, &dir, &m, &[0, 1, 2, 3]);
        c.outcome(&m.dim);
    });
    // built through the API rather than loaded
    r.suite("api-maps", "every map of up to the printed sizes built with Map::new and saved", dims.len() as u64 * 81, |i, c| {
        let mut d = Digits(i);
        let dim = *d.pick(&dims);
        let mut map = Map::new(dim.0, dim.1, dim.2, "/turf".into(), "/area".into());
        let k1 = Key::default().next();
        map.dictionary.insert(k1, vec![Prefab::from_path("/obj"), Prefab::from_path("/turf"), Prefab::from_path("/area")]);
        let mut marks = vec![];
        for cell in 0..4usize {
            if d.take(3) == 1 {
                let at = cell * 7 % (dim.0 * dim.1 * dim.2);
                let (x, y, z) = (at % dim.0, at / dim.0 % dim.1, at / dim.0 / dim.1);
                map.grid[(z, dim.1 - 1 - y, x)] = k1;
                marks.push((x, y, z));
            }
        }
        map.adjust_key_length();
        let text = save(&map);
        c.input(|| text.clone());
        match load(&dir, text.as_bytes()) {
            Ok(m) => {
                c.check_eq("round trip", &see(&map), &see(&m));
                for z in 0..dim.2 {
                    for y in 0..dim.1 {
                        for x in 0..dim.0 {
                            let k = m[Coord3::new(x as i32 + 1, y as i32 + 1, z as i32 + 1)];
                            c.check_eq("cell", &marks.contains(&(x, y, z)), &(k == k1));
                        }
                    }
                }
            },
            Err(e) => c.fail("saved map rejected", e),
        }
        c.trans(2);
        c.state(&text);
    });

    // ---- objects and values
    let vals = values();
    let nv = vals.len();
    let lens = r.pick(2, 3);
    let vtotal = count_upto(nv, lens);
    r.suite("every-value", "every list of edited variables up to the bound over 46 spellings of every kind of value, at each of three objects, in all four layouts", vtotal * 3, |i, c| {
        let mut d = Digits(i);
        let pos = d.take(3);
        let w = word(nv, d.0);
        let names = ["name", "dir", "icon_state"];
        let mut objs = vec![obj("/obj/item/thing"), obj("/turf/open"), obj("/area/x")];
        objs[pos].vars = w.iter().enumerate().map(|(n, &k)| (names[n].to_owned(), vals[k].0.clone(), vals[k].1.clone())).collect();
        let m = Model {
            dim: (1, 1, 1),
            cells: vec![0],
            keys: vec![("a".into(), objs)],
        };
        check_model(c, &dir, &m, if w.iter().any(|&k| vals[k].0.contains(&b'\n')) { &[0, 1] } else { &[0, 1, 2, 3] });
    });
    // two objects with edits, two keys
    r.suite("edits-per-object", "every pair of values on two objects of one tile and on two tiles", (nv * nv * 2) as u64, |i, c| {
        let mut d = Digits(i);
        let split = d.flag();
        let (a, b) = (d.pick(&vals).clone(), d.pick(&vals).clone());
        let va = vec![("v".to_owned(), a.0, a.1)];
        let vb = vec![("v".to_owned(), b.0, b.1), ("w".to_owned(), b"1".to_vec(), Constant::Float(1.))];
        let o = |p: &str, v: &Vec<_>| Obj { path: p.into(), vars: v.clone() };
        let keys = if split {
            vec![("a".to_owned(), vec![o("/turf/a", &va)]), ("b".to_owned(), vec![obj("/obj"), o("/turf", &vb)])]
        } else {
            vec![("a".to_owned(), vec![o("/obj", &va), o("/obj", &vb), obj("/turf")]), ("b".to_owned(), vec![obj("/turf")])]
        };
        let m = Model { dim: (2, 1, 1), cells: vec![1, 0], keys };
        check_model(c, &dir, &m, &[0, 1]);
    });
    // every short text
    let alpha: &[&str] = &["a", "\\\"", "\\\\", "'", "/", ";", "}", "{", "]", ")", ",", " ", "=", "\\n", "@"];
    let tl = r.pick(5, 6);
    let tn = count_upto(alpha.len(), tl);
    r.suite("every-text", "every text up to the bound over quote, escape and structural characters, as a plain string and as a long string", tn * 2, |i, c| {
        let mut d = Digits(i);
        let long = d.flag();
        let text: String = word(alpha.len(), d.0).iter().map(|&k| alpha[k]).collect();
        let src = if long { format!("{{\"{text}\"}}") } else { format!("\"{text}\"") };
        let mut o = obj("/obj");
        o.vars = vec![
            ("v".into(), src.into_bytes(), s(&text)),
            ("w".into(), b"2".to_vec(), Constant::Float(2.)),
        ];
        let m = Model {
            dim: (1, 1, 1),
            cells: vec![0],
            keys: vec![("a".into(), vec![o, obj("/turf")])],
        };
        check_model(c, &dir, &m, &[(i % 4) as usize]);
    });
    let alpha2: &[&str] = &["a", "\"", "\n", "}", "\\\"", "\\\\", ";", "\t"];
    let tl = r.pick(6, 7);
    let tn = count_upto(alpha2.len(), tl);
    r.suite("every-long-text", "every multi-line text up to the bound with bare quotes, newlines and escapes", tn, |i, c| {
        let text: String = word(alpha2.len(), i).iter().map(|&k| alpha2[k]).collect();
        if bare_end(&text) {
            return;
        }
        let mut o = obj("/obj");
        o.vars = vec![("v".into(), format!("{{\"{text}\"}}").into_bytes(), s(&text)), ("w".into(), b"2".to_vec(), Constant::Float(2.))];
        let m = Model {
            dim: (1, 1, 1),
            cells: vec![0],
            keys: vec![("a".into(), vec![o, obj("/turf")])],
        };
        check_model(c, &dir, &m, &[(i % 2) as usize]);
    });

    // ---- comments
    let base = Model {
        dim: (2, 2, 1),
        cells: vec![0, 1, 1, 0],
        keys: vec![
            (
                "a".into(),
                vec![
                    Obj { path: "/obj/x".into(), vars: vec![("name".into(), b"\"n\"".to_vec(), s("n")), ("dir".into(), b"4".to_vec(), Constant::Float(4.))] },
                    obj("/turf"),
                ],
            ),
            ("b".into(), vec![obj("/turf"), obj("/area")]),
        ],
    };
    let text = base.render(1);
    let comment_spots: Vec<usize> = (0..text.len())
        .filter(|&p| p > 0 && text[p] == b'\n' && p < find(&text, b"(1,1,1)"))
        .collect();
    let comments: [&[u8]; 6] = [b"// plain", b"//", b"// \"a\" = (", b"// }; (1,1,1)", b"//// '", b"\t // \\"];
    let nspots = comment_spots.len();
    let base = &base;
    r.suite("comments", "a comment at the end of every pair of dictionary lines", (nspots * nspots * comments.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let mut spots = vec![comment_spots[d.take(nspots)], comment_spots[d.take(nspots)]];
        let cm = d.pick(&comments);
        spots.sort();
        spots.dedup();
        let mut t = text.clone();
        for &p in spots.iter().rev() {
            t.splice(p..p, cm.iter().copied());
        }
        c.input(|| String::from_utf8_lossy(&t).into_owned());
        match load(&dir, &t) {
            Ok(m) => {
                c.check_eq("map", &base.seen(), &see(&m));
            },
            Err(e) => c.fail("rejected", e),
        }
        c.trans(1);
        c.state(&t);
    });

    // ---- damaged files
    let bases: Vec<Vec<u8>> = vec![
        base.render(0),
        base.render(1),
        Model { dim: (1, 3, 2), cells: vec![0, 1, 0, 1, 1, 0], keys: vec![("aa".into(), vec![obj("/turf")]), ("ab".into(), vec![obj("/area")])] }.render(0),
        Model { dim: (3, 2, 2), cells: vec![0, 1, 0, 1, 1, 0, 0, 0, 0, 1, 1, 1], keys: vec![("aaa".into(), vec![obj("/turf")]), ("aab".into(), vec![obj("/area")])] }.render(1),
    ];
    let ends: Vec<(usize, usize)> = {
        let mut v = vec![];
        let mut acc = 0;
        for (n, b) in bases.iter().enumerate() {
            v.push((n, acc));
            acc += b.len() + 1;
        }
        v.push((bases.len(), acc));
        v
    };
    let locate = |i: usize| {
        let n = ends.iter().rposition(|e| e.1 <= i).unwrap();
        (n, i - ends[n].1)
    };
    let nbytes = ends.last().unwrap().1 as u64;
    r.suite("cut-short", "every map file cut after every byte", nbytes, |i, c| {
        let (n, at) = locate(i as usize);
        let t = &bases[n][..at];
        c.input(|| String::from_utf8_lossy(t).into_owned());
        let full = load(&dir, &bases[n]).unwrap();
        let complete = at > 0 && {
            // after the last quote of a grid block and before the next block
            let grid_from = find(&bases[n], b"(1,1,1)");
            let seg = if at > grid_from { &t[grid_from..] } else { &t[..0] };
            seg.iter().filter(|&&b| b == b'"').count() % 2 == 0 && seg.contains(&b'"') && {
                let last_open = seg.iter().rposition(|&b| b == b'(').unwrap();
                seg[last_open..].iter().filter(|&&b| b == b'"').count() == 2
            }
        };
        match load(&dir, t) {
            Ok(m) => {
                if !complete {
                    c.fail("accepted", "a map cut inside a block was accepted");
                }
                let (x, y, z) = m.dim_xyz();
                for k in 1..=z as i32 {
                    for j in 1..=y as i32 {
                        for l in 1..=x as i32 {
                            let at = Coord3::new(l, j, k);
                            c.check_eq("cell", &full[at], &m[at]);
                        }
                    }
                }
                if at == bases[n].len() {
                    c.check_eq("whole", &see(&full), &see(&m));
                }
                c.outcome(&(x, y, z));
            },
            Err(_) => {
                if at == bases[n].len() {
                    c.fail("rejected", "whole map");
                }
                c.outcome("error");
            },
        }
        c.trans(1);
        c.state(t);
    });
    let subs: &[u8] = b"a\"(){},;=/\\' \n0123A\xff";
    r.suite("one-byte-damage", "every map file with one byte deleted, replaced or inserted, from 22 bytes", nbytes * (subs.len() as u64 * 2 + 1), |i, c| {
        let mut d = Digits(i);
        let kind = d.take(subs.len() * 2 + 1);
        let (n, at) = locate(d.0 as usize);
        let mut t = bases[n].clone();
        if at >= t.len() {
            return;
        }
        match kind {
            0 => {
                t.remove(at);
            },
            k if k <= subs.len() => t[at] = subs[k - 1],
            k => t.insert(at, subs[k - 1 - subs.len()]),
        }
        damaged(c, &dir, &t);
    });
    // every short grid section
    let toks: &[&str] = &["(", ")", ",", "0", "1", "2", "3", "{\"", "\"}", "\n", "a", "b", " = ", "(1,1,1) = {\"\n", "(1,1,2)", "(1,1,", "(2,1,1) = {\"\n", "99999999999999999999", "ab\n"];
    let gl = r.pick(5, 6);
    r.suite("every-grid-text", "every grid section of up to the bound tokens after a dictionary of two keys", count_upto(toks.len(), gl), |i, c| {
        let g: String = word(toks.len(), i).iter().map(|&k| toks[k]).collect();
        let t = format!("\"a\" = (/turf)\n\"b\" = (/area)\n\n{g}");
        damaged(c, &dir, t.as_bytes());
    });
    let toks: &[&str] = &["\"a\"", "\"b\"", "\"\"", "\"aa\"", "\"aaaa\"", "\"a", " = (", "/turf", ",", ")", "\n", "{", "}", "v = 1", ";", "w = \"x", "\"", "'", "//", "(1,1,1) = {\"\na\n\"}", "=", "v = 1/0", "\\"];
    let gl = r.pick(4, 5);
    r.suite("every-dictionary-text", "every file of up to the bound tokens, with a grid behind it", count_upto(toks.len(), gl), |i, c| {
        let g: String = word(toks.len(), i).iter().map(|&k| toks[k]).collect();
        let t = format!("{g}\n(1,1,1) = {{\"\na\n\"}}\n");
        damaged(c, &dir, t.as_bytes());
    });
}

/// Nothing crashes; what is accepted is a whole map that survives a save.
fn damaged(c: &mut Case, dir: &std::path::Path, t: &[u8]) {
    c.input(|| String::from_utf8_lossy(t).into_owned());
    match load(dir, t) {
        Ok(m) => {
            let (x, y, z) = m.dim_xyz();
            for k in m.grid.iter() {
                if !m.dictionary.contains_key(k) {
                    c.fail("undefined key", format!("{k:?}"));
                }
            }
            let text = save(&m);
            let _ = see(&m);
            c.outcome(&(x, y, z));
            c.validated(!text.is_empty() as u64);
        },
        Err(_) => c.outcome("error"),
    }
    c.trans(1);
    c.state(t);
}

/// The text, put between `{"` and `"}`, would end early: a bare quote (or the opening of the
/// terminator formed with the closing quote) directly before a brace.
fn bare_end(t: &str) -> bool {
    let b = t.as_bytes();
    let mut esc = false;
    for i in 0..b.len() {
        if b[i] == b'"' && !esc && b.get(i + 1) == Some(&b'}') {
            return true;
        }
        esc = b[i] == b'\\' && !esc;
    }
    false
}

fn find(t: &[u8], p: &[u8]) -> usize {
    t.windows(p.len()).position(|w| w == p).unwrap()
}
