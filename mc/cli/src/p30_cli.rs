//! P30: the map command line tool.
use crate::scene;
use mc_common::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};

/// A map as the harness knows it: cells[z][y from the bottom][x] is a content number.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    w: usize,
    h: usize,
    cells: Vec<Vec<Vec<usize>>>,
}
impl M {
    fn of(w: usize, h: usize, d: usize, f: impl Fn(usize, usize, usize) -> usize) -> M {
        M { w, h, cells: (0..d).map(|z| (0..h).map(|y| (0..w).map(|x| f(x, y, z)).collect()).collect()).collect() }
    }
    fn d(&self) -> usize {
        self.cells.len()
    }
}

/// Contents of tiles; the first objects of each list are written first.
const CONTENT: [&str; 8] = [
    "/turf/c0,/area/a",
    "/turf/c1,/area/a",
    "/turf/c0{name = \"n\"},/area/a",
    "/obj/h0,/turf/c0,/area/a",
    "/obj/h0,/obj/h0,/turf/c0,/area/a",
    "/turf/c2,/area/a",
    "/turf/c3,/area/a",
    "/turf/c4,/area/a",
];

fn letter(n: usize) -> char {
    (if n < 26 { b'a' + n as u8 } else { b'A' + (n - 26) as u8 }) as char
}
/// `shift` moves content k to another key; `unused` adds keys no tile uses.
fn dmm(m: &M, tgm: bool, shift: usize, keys: usize) -> String {
    let len = if keys > 52 { 2 } else { 1 };
    let key = |k: usize| -> String {
        let k = (k + shift) % keys;
        if len == 1 { letter(k).to_string() } else { format!("{}{}", letter(k / 52), letter(k % 52)) }
    };
    let mut out = String::new();
    if tgm {
        out.push_str("//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE\n");
    }
    let mut order: Vec<usize> = (0..keys).collect();
    order.sort_by_key(|k| (k + shift) % keys);
    for k in order {
        let c = if k < CONTENT.len() { CONTENT[k].to_owned() } else { format!("/turf/c5{{name = \"u{k}\"}},/area/a") };
        let c = if tgm { format!("\n{}", c.replace(",/", ",\n/").replace('{', "{\n\t").replace("\"}", "\"\n\t}")) } else { c };
        out.push_str(&format!("\"{}\" = ({c})\n", key(k)));
    }
    out.push('\n');
    for (z, level) in m.cells.iter().enumerate() {
        if tgm {
            for x in 0..m.w {
                out.push_str(&format!("({},1,{}) = {{\"\n", x + 1, z + 1));
                for y in (0..m.h).rev() {
                    out.push_str(&format!("{}\n", key(level[y][x])));
                }
                out.push_str("\"}\n");
            }
        } else {
            out.push_str(&format!("(1,1,{}) = {{\"\n", z + 1));
            for y in (0..m.h).rev() {
                let row: String = level[y].iter().map(|&k| key(k)).collect();
                out.push_str(&row);
                out.push('\n');
            }
            out.push_str("\"}\n");
        }
    }
    out
}

struct Tool {
    exe: PathBuf,
}
impl Tool {
    fn run(&self, dir: &Path, args: &[String], stdin: Option<&str>) -> Output {
        let mut c = Command::new(&self.exe);
        c.current_dir(dir).args(args).env("NO_COLOR", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut p = c.spawn().expect("running dmm-tools");
        use std::io::Write;
        let mut i = p.stdin.take().unwrap();
        if let Some(s) = stdin {
            i.write_all(s.as_bytes()).unwrap();
        }
        drop(i);
        p.wait_with_output().unwrap()
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn said(o: &Output) -> String {
    format!("status {:?}\n{}\n{}", o.status.code(), text(&o.stdout), text(&o.stderr))
}

fn differences(l: &M, r: &M) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for z in 0..l.d().min(r.d()) {
        for y in 0..l.h.min(r.h) {
            for x in 0..l.w.min(r.w) {
                if l.cells[z][y][x] != r.cells[z][y][x] {
                    v.push((x + 1, y + 1, z + 1));
                }
            }
        }
    }
    v
}
fn diff_case(c: &mut Case, tool: &Tool, dir: &Path, i: u64, l: (&M, String), r: (&M, String)) -> bool {
    let (a, b) = (dir.join(format!("l{i}.dmm")), dir.join(format!("r{i}.dmm")));
    std::fs::write(&a, &l.1).unwrap();
    std::fs::write(&b, &r.1).unwrap();
    let o = tool.run(dir, &["diff-maps".into(), a.display().to_string(), b.display().to_string()], None);
    let _ = std::fs::remove_file(&a);
    let _ = std::fs::remove_file(&b);
    let out = text(&o.stdout);
    let mut got: Vec<(usize, usize, usize)> = vec![];
    let mut sizes = false;
    for line in out.lines().skip(2) {
        if let Some(t) = line.trim().strip_prefix("different tile: (") {
            let n: Vec<usize> = t.trim_end_matches(')').split(", ").filter_map(|x| x.parse().ok()).collect();
            if n.len() == 3 {
                got.push((n[0], n[1], n[2]));
            }
        } else if line.contains("different size") {
            sizes = true;
        }
    }
    got.sort();
    let mut want = differences(l.0, r.0);
    want.sort();
    c.trans(1);
    c.outcome(&(&got, sizes));
    let differ = (l.0.w, l.0.h, l.0.d()) != (r.0.w, r.0.h, r.0.d());
    if o.status.code() != Some(0) || got != want || sizes != differ {
        c.input(|| format!("left:\n{}\nright:\n{}", l.1, r.1));
        c.fail("diff-maps", format!("expected tiles {want:?}, different size: {differ}\n{}", said(&o)));
        return false;
    }
    true
}

const DME: &str = "
/area/a/icon = 'icons/none.dmi'
/area/a/invisibility = 101
/turf
	icon = 'icons/solid.dmi'
	layer = 2
/turf/c0/icon_state = \"c0\"
/turf/c1/icon_state = \"c1\"
/turf/c2/icon_state = \"c2\"
/turf/c3/icon_state = \"c3\"
/turf/c4/icon_state = \"c4\"
/turf/c5/icon_state = \"c5\"
/obj/h0
	icon = 'icons/solid.dmi'
	icon_state = \"h0\"
	layer = 3
/obj/far
	icon = 'icons/dirs.dmi'
	icon_state = \"one\"
	layer = 3
/obj/big
	icon = 'icons/big.dmi'
	icon_state = \"b0\"
	layer = 4
";

fn pixel(content: usize, x: usize, y: usize) -> [u8; 4] {
    let turf = match content {
        0 | 2 | 3 | 4 => "c0",
        1 => "c1",
        5 => "c2",
        6 => "c3",
        _ => "c4",
    };
    let base = scene::sprite("solid.dmi", turf, 2).unwrap().2(x, y);
    if content == 3 || content == 4 {
        let over = scene::sprite("solid.dmi", "h0", 2).unwrap().2(x, y);
        if over[3] == 255 {
            return over;
        }
    }
    base
}
/// the part (x0,y0)-(x1,y1), one-based and inclusive, of a level
fn picture(m: &M, z: usize, x0: usize, y0: usize, x1: usize, y1: usize) -> (usize, usize, Vec<u8>) {
    let (w, h) = ((x1 - x0 + 1) * 32, (y1 - y0 + 1) * 32);
    let mut px = vec![0u8; w * h * 4];
    for py in 0..h {
        for p in 0..w {
            let c = m.cells[z - 1][y1 - 1 - py / 32][x0 - 1 + p / 32];
            px[(py * w + p) * 4..][..4].copy_from_slice(&pixel(c, p % 32, py % 32));
        }
    }
    (w, h, px)
}
fn load(p: &Path) -> Result<(usize, usize, Vec<u8>), String> {
    let b = lodepng::decode32_file(p).map_err(|e| format!("{}: {e}", p.display()))?;
    Ok((b.width, b.height, b.buffer.iter().flat_map(|p| [p.r, p.g, p.b, p.a]).collect()))
}
fn compare(c: &mut Case, what: &str, p: &Path, want: &(usize, usize, Vec<u8>)) -> bool {
    match load(p) {
        Err(e) => c.fail("picture", format!("{what}: {e}")),
        Ok(got) if (got.0, got.1) != (want.0, want.1) => c.fail("picture", format!("{what}: {}x{} pixels, expected {}x{}", got.0, got.1, want.0, want.1)),
        Ok(got) => {
            c.outcome(&got.2);
            match got.2.iter().zip(&want.2).position(|(a, b)| a != b) {
                None => return true,
                Some(k) => c.fail("picture", format!("{what}: pixel ({}, {}) is wrong", k / 4 % got.0, k / 4 / got.0)),
            }
        },
    }
    false
}
fn listing(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn check(r: &mut Runner) {
    let tool = Tool { exe: std::env::current_exe().unwrap().with_file_name("dmm-tools") };
    let dir = r.scratch();
    scene::write_icons(&dir.join("icons"));
    std::fs::write(dir.join("e.dme"), DME).unwrap();
    let tool = &tool;
    let dir = &*dir;

    let kinds = r.pick(5usize, 5);
    let n = kinds.pow(4) as u64;
    let per = 5u64;
    r.suite("diff: tiles", "every pair of 2x2 maps over tile contents that differ in turf, variable, object and number of objects", n * n.div_ceil(per), |i, c| {
        let (a, block) = (i / n.div_ceil(per), i % n.div_ceil(per));
        let cell = |v: u64| {
            let mut d = Digits(v);
            let k: Vec<usize> = (0..4).map(|_| d.take(kinds)).collect();
            M::of(2, 2, 1, |x, y, _| k[y * 2 + x])
        };
        for b in block * per..((block + 1) * per).min(n) {
            // the pair and its mirror say the same; most of the others are left to the thorough run
            if b < a || c.failed() || (!r_thorough() && (a + b) % 7 != 0) {
                continue;
            }
            let (l, m) = (cell(a), cell(b));
            let (tl, tr) = (dmm(&l, a % 2 == 1, 0, 8), dmm(&m, b % 2 == 1, (b % 8) as usize, 8));
            diff_case(c, tool, dir, i, (&l, tl), (&m, tr));
        }
    });
    let sizes: Vec<(usize, usize, usize)> = (1..=3).flat_map(|w| (1..=3).flat_map(move |h| (1..=2).map(move |d| (w, h, d)))).collect();
    let ns = sizes.len();
    r.suite("diff: sizes", "every pair of sizes up to 3x3x2, in both layouts, with no, one or many differing tiles", (ns * ns * 4) as u64, |i, c| {
        let mut d = Digits(i);
        let (a, b, t1, t2) = (sizes[d.take(ns)], sizes[d.take(ns)], d.flag(), d.flag());
        let base = |x: usize, y: usize, z: usize| (x * 3 + y * 5 + z) % 5;
        let l = M::of(a.0, a.1, a.2, base);
        let overlap = [a.0.min(b.0), a.1.min(b.1), a.2.min(b.2)];
        let cells = overlap.iter().product::<usize>();
        for v in 0..cells + 3 {
            let m = M::of(b.0, b.1, b.2, |x, y, z| {
                let at = (z * overlap[1] + y) * overlap[0] + x;
                let inside = x < overlap[0] && y < overlap[1] && z < overlap[2];
                let change = match v {
                    0 => false,
                    1 => true,
                    2 => (x + y + z) % 2 == 0,
                    v => inside && at == v - 3,
                };
                if change { (base(x, y, z) + 1) % 5 } else { base(x, y, z) }
            });
            if !diff_case(c, tool, dir, i, (&l, dmm(&l, t1, 0, 8)), (&m, dmm(&m, t2, 3, 60))) {
                return;
            }
        }
    });
    r.suite("map-info", "size, key length and number of keys of maps of every size up to 3x3x2 with 8 to 120 keys, one to three files at once", (ns * 8) as u64, |i, c| {
        let size = sizes[i as usize % ns];
        let keys = [8, 9, 52, 53, 54, 60, 104, 120][i as usize / ns];
        for files in 1..=3usize {
            let mut args = vec!["map-info".to_owned(), "--json".into()];
            let mut want = BTreeMap::new();
            for f in 0..files {
                let (w, h, d) = (size.0 + f, size.1, size.2 + f / 2);
                let k = keys + f;
                let p = dir.join(format!("info{i}_{f}.dmm"));
                std::fs::write(&p, dmm(&M::of(w, h, d, |x, y, z| (x + y + z) % 5), f == 1, f, k)).unwrap();
                args.push(p.display().to_string());
                want.insert(p.display().to_string(), serde_json::json!({"size": [w, h, d], "key_length": if k > 52 { 2 } else { 1 }, "num_keys": k}));
            }
            let o = tool.run(dir, &args, None);
            let got: Option<BTreeMap<String, serde_json::Value>> = serde_json::from_slice(&o.stdout).ok();
            for p in want.keys() {
                let _ = std::fs::remove_file(p);
            }
            c.trans(1);
            c.outcome(&text(&o.stdout));
            if got.as_ref() != Some(&want) || o.status.code() != Some(0) {
                return c.fail("map-info", format!("expected {want:?}\n{}", said(&o)));
            }
        }
    });
    passes(r, tool, dir);
    minimap(r, tool, dir);
    many(r, tool, dir);
}

fn r_thorough() -> bool {
    std::env::args().any(|a| a == "thorough")
}

fn passes(r: &mut Runner, tool: &Tool, dir: &Path) {
    r.suite("list-passes", "the list of passes in both forms", 2, |i, c| {
        let all: Vec<(&str, &str, bool)> = dmm_tools::render_passes::RENDER_PASSES.iter().map(|p| (p.name, p.desc, p.default)).collect();
        c.trans(1);
        if i == 0 {
            let o = tool.run(dir, &["list-passes".into(), "--json".into()], None);
            let want: Vec<serde_json::Value> = all.iter().map(|p| serde_json::json!({"name": p.0, "desc": p.1, "default": p.2})).collect();
            if serde_json::from_slice::<Vec<serde_json::Value>>(&o.stdout).ok() != Some(want) {
                c.fail("list-passes", said(&o));
            }
        } else {
            let o = tool.run(dir, &["list-passes".into()], None);
            let out = text(&o.stdout);
            let at = |s: &str| out.lines().position(|l| l == s);
            let split = at("additional passes:");
            for p in all {
                let l = at(&format!("{}: {}", p.0, p.1));
                if l.is_none() || split.is_none() || (l < split) != p.2 {
                    return c.fail("list-passes", format!("{} is not listed where it belongs\n{out}", p.0));
                }
            }
        }
    });
    // which passes run, seen from the areas that hide-areas hides
    const WORDS: [&str; 6] = ["", "hide-areas", "hide-areas,hide-space", "all", "hide-space", "hide-space,all"];
    r.suite("pass flags", "every list given to --enable and --disable, with the configuration's own choice", 6 * 6 * 3 * 2, |i, c| {
        let mut d = Digits(i);
        let (en, dis, conf, many) = (WORDS[d.take(6)], WORDS[d.take(6)], d.take(3), d.flag());
        // passes that hide everything else stay off
        let dis = &*if dis.is_empty() { "only-powernet,only-pipenet,only-wires-and-pipes".to_owned() } else { format!("{dis},only-powernet,only-pipenet,only-wires-and-pipes") };
        let sub = dir.join(format!("pass{i}"));
        std::fs::create_dir_all(&sub).unwrap();
        scene::write_icons(&sub.join("icons"));
        std::fs::write(sub.join("e.dme"), "/turf\n\ticon = 'icons/solid.dmi'\n\ticon_state = \"c0\"\n\tlayer = 2\n/area\n\ticon = 'icons/solid.dmi'\n\ticon_state = \"c3\"\n\tlayer = 10\n").unwrap();
        std::fs::write(sub.join("m.dmm"), "\"a\" = (/turf,/area)\n\n(1,1,1) = {\"\na\n\"}\n").unwrap();
        if conf > 0 {
            std::fs::write(sub.join("SpacemanDMM.toml"), format!("[map_renderer.render_passes]\nhide-areas = {}\n", conf == 1)).unwrap();
        }
        let default = dmm_tools::render_passes::RENDER_PASSES.iter().find(|p| p.name == "hide-areas").unwrap().default;
        let has = |l: &str, w: &str| l.split(',').any(|x| x == w);
        let on = if has(en, "hide-areas") {
            true
        } else if has(dis, "hide-areas") {
            false
        } else if has(en, "all") {
            true
        } else if has(dis, "all") {
            false
        } else if conf > 0 {
            conf == 1
        } else {
            default
        };
        let (o, file) = if many {
            let list = |l: &str| serde_json::json!(l.split(',').collect::<Vec<_>>());
            let cmd = serde_json::json!({"output_directory": "o", "enable": list(en), "disable": list(dis), "files": [{"path": "m.dmm"}]});
            (tool.run(&sub, &["-e".into(), "e.dme".into(), "render-many".into()], Some(&cmd.to_string())), "o/m_z1_chunk0.png")
        } else {
            let mut args: Vec<String> = ["-e", "e.dme", "minimap", "-o", "o"].iter().map(|s| s.to_string()).collect();
            if !en.is_empty() {
                args.extend(["--enable".to_owned(), en.to_owned()]);
            }
            if !dis.is_empty() {
                args.extend(["--disable".to_owned(), dis.to_owned()]);
            }
            args.push("m.dmm".into());
            (tool.run(&sub, &args, None), "o/m-1.png")
        };
        c.trans(1);
        c.input(|| format!("--enable {en:?} --disable {dis:?}, configured {conf}, render-many {many}"));
        match load(&sub.join(file)) {
            Err(e) => c.fail("picture", format!("{e}\n{}", said(&o))),
            Ok(p) => {
                let area = scene::sprite("solid.dmi", "c3", 2).unwrap().2(5, 5);
                let shown = p.2[..4] == area;
                c.outcome(&shown);
                if shown == on {
                    c.fail("passes", format!("areas must {}be hidden\n{}", if on { "" } else { "not " }, said(&o)));
                }
            },
        }
        let _ = std::fs::remove_dir_all(&sub);
    });
}

fn the_map() -> M {
    M::of(3, 2, 2, |x, y, z| [0, 1, 5, 6, 7, 3, 1, 0, 3, 5, 6, 7][(z * 2 + y) * 3 + x])
}

fn minimap(r: &mut Runner, tool: &Tool, dir: &Path) {
    let m = the_map();
    std::fs::write(dir.join("m.dmm"), dmm(&m, false, 0, 8)).unwrap();
    let other = M::of(2, 3, 1, |x, y, _| [7, 6, 5, 3, 1, 0][y * 2 + x]);
    std::fs::write(dir.join("other.dmm"), dmm(&other, true, 2, 8)).unwrap();
    std::fs::write(dir.join("broken.dmm"), "\"a\" = (/turf\n").unwrap();
    // x 0..=4, y 0..=3, z none/1/2/3
    let coords: Vec<Option<(usize, usize, Option<usize>)>> = std::iter::once(None).chain((0..=4).flat_map(|x| (0..=3).flat_map(move |y| [None, Some(1), Some(2), Some(3)].into_iter().map(move |z| Some((x, y, z)))))).collect();
    let n = coords.len();
    let show = |c: (usize, usize, Option<usize>)| match c.2 {
        None => format!("{},{}", c.0, c.1),
        Some(z) => format!("{},{},{z}", c.0, c.1),
    };
    let blocks = n.div_ceil(9);
    r.suite("regions", "every pair of corners inside and outside of a 3x2x2 map", (n * blocks) as u64, |i, c| {
        let a = coords[i as usize / blocks];
        for k in (i as usize % blocks * 9)..(i as usize % blocks * 9 + 9).min(n) {
            let b = coords[k];
            // corners with no level are crossed with those that have none only
            if matches!((a, b), (Some(a), Some(b)) if a.2.is_none() != b.2.is_none()) {
                continue;
            }
            if !r_thorough() && (i as usize / blocks + k) % 4 != 0 && a.is_some_and(|a| a.2.is_some()) {
                continue;
            }
            let out = format!("out{i}");
            let jobs = ["1", "2", "4"][k % 3];
            let mut args: Vec<String> = ["-e", "e.dme", "--jobs", jobs, "minimap", "-o", &out].iter().map(|s| s.to_string()).collect();
            if let Some(a) = a {
                args.extend(["--min".to_owned(), show(a)]);
            }
            if let Some(b) = b {
                args.extend(["--max".to_owned(), show(b)]);
            }
            args.push("m.dmm".into());
            let o = tool.run(dir, &args, None);
            let clamp = |v: usize, lo: usize, hi: usize| v.max(lo).min(hi);
            let lo = a.unwrap_or((0, 0, Some(0)));
            let hi = b.unwrap_or((9, 9, Some(9)));
            let (x0, y0, z0) = (clamp(lo.0, 1, 3), clamp(lo.1, 1, 2), clamp(lo.2.unwrap_or(1), 1, 2));
            let (x1, y1) = (clamp(hi.0, x0, 3), clamp(hi.1, y0, 2));
            // a far corner without a level: left open whether it goes on to the last level
            let z1s = match hi.2 {
                Some(z) => vec![clamp(z, z0, 2)],
                None => vec![z0, 2],
            };
            let names: Vec<Vec<String>> = z1s.iter().map(|z1| (z0..=*z1).map(|z| format!("m-{z}.png")).collect()).collect();
            let got = listing(&dir.join(&out));
            c.trans(1);
            c.input(|| format!("dmm-tools {}", args.join(" ")));
            if !names.contains(&got) || o.status.code() != Some(0) {
                c.fail("minimap files", format!("expected {names:?}, written {got:?}\n{}", said(&o)));
            } else {
                for f in &got {
                    let z = f[2..3].parse().unwrap();
                    compare(c, f, &dir.join(&out).join(f), &picture(&m, z, x0, y0, x1, y1));
                }
            }
            let _ = std::fs::remove_dir_all(dir.join(&out));
            if c.failed() {
                return;
            }
        }
    });
    // lists of files, good and bad
    const FILES: [&str; 4] = ["m.dmm", "other.dmm", "broken.dmm", "missing.dmm"];
    let lists = count_upto(4, 3);
    r.suite("file lists", "every list of up to three files, two good, one broken and one missing, with one to eight jobs", lists * 4, |i, c| {
        let list = word(4, i / 4);
        let jobs = ["1", "2", "3", "8"][(i % 4) as usize];
        let out = format!("files{i}");
        let mut args: Vec<String> = ["-e", "e.dme", "--jobs", jobs, "minimap", "-o", &out].iter().map(|s| s.to_string()).collect();
        args.extend(list.iter().map(|f| FILES[*f].to_owned()));
        let o = tool.run(dir, &args, None);
        let bad = list.iter().filter(|f| **f >= 2).count();
        let mut want = vec![];
        if list.contains(&0) {
            want.extend(["m-1.png".to_owned(), "m-2.png".into()]);
        }
        if list.contains(&1) {
            want.push("other-1.png".into());
        }
        let got = listing(&dir.join(&out));
        c.trans(1);
        c.input(|| format!("dmm-tools {}", args.join(" ")));
        if got != want || (o.status.code() == Some(0)) != (bad == 0) || o.status.code().is_none() || o.status.code() == Some(101) {
            c.fail("minimap files", format!("{bad} files are bad; expected {want:?}, written {got:?}\n{}", said(&o)));
        }
        // the same file twice at once writes the same picture twice; then only its presence counts
        for f in &got {
            let name = if f.starts_with('m') { 0 } else { 1 };
            if c.failed() || (jobs != "1" && list.iter().filter(|x| **x == name).count() > 1) {
                continue;
            }
            let (map, z) = if name == 0 { (&m, f[2..3].parse().unwrap()) } else { (&other, 1) };
            compare(c, f, &dir.join(&out).join(f), &picture(map, z, 1, 1, map.w, map.h));
        }
        let _ = std::fs::remove_dir_all(dir.join(&out));
    });
}

fn many(r: &mut Runner, tool: &Tool, dir: &Path) {
    let m = the_map();
    let other = M::of(2, 3, 1, |x, y, _| [7, 6, 5, 3, 1, 0][y * 2 + x]);
    // every chunk: level, corners given or not
    let mut chunks: Vec<(usize, [Option<usize>; 4])> = vec![];
    let opt = |lo: usize, hi: usize| std::iter::once(None).chain((lo..=hi).map(Some));
    for z in 1..=2 {
        for x0 in opt(0, 3) {
            for y0 in opt(0, 2) {
                for x1 in opt(1, 4) {
                    for y1 in opt(1, 3) {
                        let (a, b) = (x0.unwrap_or(1).max(1), x1.unwrap_or(3).min(3));
                        let (p, q) = (y0.unwrap_or(1).max(1), y1.unwrap_or(2).min(2));
                        if a <= b && p <= q {
                            chunks.push((z, [x0, y0, x1, y1]));
                        }
                    }
                }
            }
        }
    }
    let json = |c: &(usize, [Option<usize>; 4])| {
        let mut v = serde_json::Map::new();
        v.insert("z".into(), c.0.into());
        for (k, n) in ["min_x", "min_y", "max_x", "max_y"].iter().enumerate() {
            if let Some(x) = c.1[k] {
                v.insert(n.to_string(), x.into());
            }
        }
        serde_json::Value::Object(v)
    };
    let part = |m: &M, c: &(usize, [Option<usize>; 4])| picture(m, c.0, c.1[0].unwrap_or(1).max(1), c.1[1].unwrap_or(1).max(1), c.1[2].unwrap_or(m.w).min(m.w), c.1[3].unwrap_or(m.h).min(m.h));
    // requests: lists of (file, None or list of chunks)
    let judge = |c: &mut Case, i: u64, name: &str, jobs: &str, files: &[(&str, &M, Option<Vec<(usize, [Option<usize>; 4])>>)]| {
        let out = format!("{name}{i}");
        let req = serde_json::json!({"output_directory": out, "files": files.iter().map(|f| {
            let mut v = serde_json::Map::new();
            v.insert("path".into(), f.0.into());
            if let Some(ch) = &f.2 {
                v.insert("chunks".into(), ch.iter().map(json).collect());
            }
            serde_json::Value::Object(v)
        }).collect::<Vec<_>>()});
        let o = tool.run(dir, &["-e".into(), "e.dme".into(), "--jobs".into(), jobs.into(), "render-many".into()], Some(&req.to_string()));
        c.trans(1);
        c.input(|| format!("{req}"));
        let res: Option<serde_json::Value> = serde_json::from_slice(&o.stdout).ok();
        let names: Option<Vec<Vec<String>>> = res.as_ref().and_then(|v| v["files"].as_array()?.iter().map(|f| f["chunks"].as_array()?.iter().map(|c| Some(c["filename"].as_str()?.to_owned())).collect()).collect());
        let Some(names) = names else {
            let _ = std::fs::remove_dir_all(dir.join(&out));
            return c.fail("render-many", said(&o));
        };
        if names.len() != files.len() || o.status.code() != Some(0) {
            c.fail("render-many", format!("one result for every file is due\n{}", said(&o)));
        }
        let mut all = vec![];
        for (f, n) in files.iter().zip(&names) {
            let ch = f.2.clone().unwrap_or_else(|| (1..=f.1.d()).map(|z| (z, [None; 4])).collect());
            if ch.len() != n.len() {
                c.fail("render-many", format!("{} results for {} chunks\n{}", n.len(), ch.len(), said(&o)));
            }
            for (ch, n) in ch.iter().zip(n) {
                if !c.failed() {
                    compare(c, &format!("{n} for {} {ch:?}", f.0), &dir.join(&out).join(n), &part(f.1, ch));
                }
                all.push(n.clone());
            }
        }
        all.sort();
        if !c.failed() && listing(&dir.join(&out)) != all {
            c.fail("render-many", format!("results {all:?}, written {:?}", listing(&dir.join(&out))));
        }
        let _ = std::fs::remove_dir_all(dir.join(&out));
    };
    r.suite("chunks", "render-many with every chunk of a 3x2x2 map, bounds given, beyond the edge, or left out", chunks.len() as u64, |i, c| {
        judge(c, i, "chunk", ["1", "2", "4"][i as usize % 3], &[("m.dmm", &m, Some(vec![chunks[i as usize]]))]);
    });
    const FEW: [(usize, [Option<usize>; 4]); 4] = [(1, [None; 4]), (2, [Some(2), None, None, Some(1)]), (1, [Some(3), Some(2), Some(3), Some(2)]), (2, [None, None, Some(1), None])];
    let lists = count_upto(4, 3);
    r.suite("chunk lists", "every list of up to three chunks, and no list at all", lists + 1, |i, c| {
        let l = (i < lists).then(|| word(4, i).into_iter().map(|k| FEW[k]).collect::<Vec<_>>());
        judge(c, i, "list", "2", &[("m.dmm", &m, l)]);
    });
    std::fs::create_dir_all(dir.join("b")).unwrap();
    std::fs::write(dir.join("b/m.dmm"), dmm(&other, false, 1, 8)).unwrap();
    let f = word_count();
    r.suite("file entries", "every list of up to three entries: two maps, another of the same name, with and without chunks", f * 2, |i, c| {
        let l = word(5, i / 2);
        let entries: Vec<(&str, &M, Option<Vec<(usize, [Option<usize>; 4])>>)> = l
            .iter()
            .map(|k| match k {
                0 => ("m.dmm", &m, None),
                1 => ("other.dmm", &other, None),
                2 => ("b/m.dmm", &other, None),
                3 => ("m.dmm", &m, Some(vec![FEW[1], FEW[2]])),
                _ => ("other.dmm", &other, Some(vec![(1, [Some(2), Some(2), None, None])])),
            })
            .collect();
        judge(c, i, "entry", ["1", "4"][(i % 2) as usize], &entries);
    });
}
fn word_count() -> u64 {
    count_upto(5, 3)
}
