//! Icon smoothing and cables: every neighbourhood of every kind of source.
use crate::scene::*;
use dm::objtree::ObjectTree;
use dmm_tools::dmm::Prefab;
use dmm_tools::render_passes::{IconSmoothing, IconSmoothing2016, IconSmoothing2025, RenderPass, SmartCables};
use mc_common::*;

const CODE: &str = "
/turf/icon = 'turf.dmi'
/turf/closed/wall
/turf/closed/wall/strong
/turf/closed/rock
/turf/closed/mineral
/turf/open/floor
/turf/open/floor/plating/icon_state = \"plating\"
/turf/open/space/basic/icon_state = \"stars\"
/obj/icon = 'obj.dmi'
/obj/table
/obj/table/glass
/obj/tablecloth
/obj/structure/cable
/obj/structure/cable/yellow
/obj/structure/cable/multilayer
/obj/structure/grille
/obj/structure/cable_bridge
/obj/machinery/power/terminal
/obj/machinery/power/smes
/obj/machinery/power/apc
";

// ---- an object as the reference sees it
#[derive(Clone, Debug, PartialEq)]
struct O {
    path: &'static str,
    vars: Vec<(&'static str, &'static str)>,
}
impl O {
    fn new(path: &'static str, vars: &[(&'static str, &'static str)]) -> O {
        O { path, vars: vars.to_vec() }
    }
    fn get(&self, k: &str) -> Option<&'static str> {
        self.vars.iter().find(|v| v.0 == k).map(|v| v.1)
    }
    fn fab(&self) -> Prefab {
        fab(self.path, &self.vars)
    }
    fn flags(&self, var: &str) -> i32 {
        self.get(var).map_or(0, |v| v.parse().unwrap())
    }
    fn is(&self, path: &str) -> bool {
        self.path == path || self.path.starts_with(&format!("{path}/"))
    }
}
/// elements of a `list(...)` text
fn items(v: Option<&str>) -> Option<Vec<&str>> {
    v?.strip_prefix("list(")?.strip_suffix(')').map(|x| x.split(',').map(str::trim).filter(|x| !x.is_empty()).collect())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sys {
    Y2016,
    Y2020,
    Y2025,
}

/// dx, dy and bit in the picture number, cardinals first
const AROUND: [(i32, i32, u32); 8] = [(0, 1, 1), (0, -1, 2), (1, 0, 4), (-1, 0, 8), (1, 1, 16), (1, -1, 32), (-1, -1, 64), (-1, 1, 128)];

/// What a neighbouring tile holds; None is off the map.
type Tile<'a> = Option<&'a [O]>;

fn flags_of(sys: Sys, o: &O) -> i32 {
    o.flags(if sys == Sys::Y2016 { "smooth" } else { "smoothing_flags" })
}

fn matches(sys: Sys, src: &O, tile: Tile) -> bool {
    let tile = tile.unwrap_or(&[]);
    if tile.is_empty() {
        return flags_of(sys, src) & 8 != 0;
    }
    let Some(with) = items(src.get("canSmoothWith")) else { return tile.iter().any(|o| o.path == src.path) };
    let strip = |s: &&str| s.trim_matches('"').to_owned();
    let with: Vec<String> = with.iter().map(strip).collect();
    tile.iter().any(|o| match sys {
        Sys::Y2016 if flags_of(sys, src) & 2 != 0 => with.iter().any(|w| o.is(w)),
        Sys::Y2016 => with.iter().any(|w| w == o.path),
        _ => items(o.get("smoothing_groups")).unwrap_or_default().iter().any(|g| with.contains(&strip(g))),
    })
}

/// The set of joined directions.
fn joined(sys: Sys, src: &O, at: &dyn Fn(i32, i32) -> Option<Vec<O>>) -> u32 {
    if sys != Sys::Y2016 && !src.is("/turf") && src.get("can_be_unanchored") == Some("1") && src.get("anchored") != Some("1") {
        return 0;
    }
    let hit = |dx, dy| matches(sys, src, at(dx, dy).as_deref());
    let mut set = 0;
    for (dx, dy, bit) in AROUND {
        // a corner counts only between two joined sides
        if dx != 0 && dy != 0 && !(hit(dx, 0) && hit(0, dy)) {
            continue;
        }
        if hit(dx, dy) {
            set |= bit;
        }
    }
    set
}

/// (icon, state) of everything drawn for `src`
fn expected(sys: Sys, src: &O, at: &dyn Fn(i32, i32) -> Option<Vec<O>>) -> Vec<(String, String)> {
    let own = if src.is("/turf") { "turf.dmi" } else { "obj.dmi" };
    let state = src.get("icon_state").map_or(String::new(), |s| s.trim_matches('"').to_owned());
    let normal = vec![(own.to_owned(), state)];
    let flags = flags_of(sys, src);
    let icon = src.get("smooth_icon").map_or(own, |s| s.trim_matches('\'')).to_owned();
    let (corners, bitmask) = match sys {
        Sys::Y2016 => (flags & 3 != 0, false),
        Sys::Y2020 => (flags & 1 != 0, flags & 2 != 0),
        Sys::Y2025 => (false, flags & 1 != 0),
    };
    if !corners && !bitmask {
        return normal;
    }
    let set = joined(sys, src, at);
    // exactly two sides at a right angle, with or without the corner between them
    let sides = set & 15;
    let diagonal = [(1u32, 4u32, 16u32, 1, 1, "sw"), (1, 8, 128, -1, 1, "se"), (2, 4, 32, 1, -1, "nw"), (2, 8, 64, -1, -1, "ne")]
        .into_iter()
        .find(|d| sides == d.0 | d.1)
        .filter(|_| flags & 4 != 0);
    let mut out = vec![];
    let mut underlay = |dx: i32, dy: i32| {
        if items(src.get("fixed_underlay")).is_some_and(|f| f.contains(&"\"space\" = 1")) {
            out.push(("turf.dmi".to_owned(), "stars".to_owned()));
            return;
        }
        // the open side, then the ones to its left and right
        let (ox, oy) = (-dx, -dy);
        let ccw = |x: i32, y: i32| [(x - y).signum(), (x + y).signum()];
        let cw = |x: i32, y: i32| [(x + y).signum(), (y - x).signum()];
        for [x, y] in [[ox, oy], ccw(ox, oy), cw(ox, oy)] {
            if let Some(o) = at(x, y).unwrap_or_default().iter().find(|o| o.is("/turf/open")) {
                out.push(("turf.dmi".to_owned(), o.get("icon_state").map_or(String::new(), |s| s.trim_matches('"').to_owned())));
                return;
            }
        }
        out.push(("turf.dmi".to_owned(), "plating".to_owned()));
    };
    if corners {
        if let Some((_, _, corner, dx, dy, name)) = diagonal {
            if src.is("/turf/closed/wall") {
                underlay(dx, dy);
            }
            out.push((icon.clone(), format!("d-{name}")));
            out.push((icon, format!("d-{name}-{}", (set & corner != 0) as u8)));
            return out;
        }
        for (n, dx, dy) in [("1", -1, 1), ("2", 1, 1), ("3", -1, -1), ("4", 1, -1)] {
            let bit = |x: i32, y: i32| set & AROUND.iter().find(|a| a.0 == x && a.1 == y).unwrap().2 != 0;
            let ns = if dy > 0 { "n" } else { "s" };
            let ew = if dx > 0 { "e" } else { "w" };
            let piece = match (bit(0, dy), bit(dx, 0), bit(dx, dy)) {
                (true, true, true) => "f".to_owned(),
                (true, true, false) => format!("{ns}{ew}"),
                (true, false, _) => ns.to_owned(),
                (false, true, _) => ew.to_owned(),
                _ => "i".to_owned(),
            };
            out.push((icon.clone(), format!("{n}-{piece}")));
        }
        return out;
    }
    let mut tail = "";
    if src.is("/turf/open/floor") {
        if src.get("broken") == Some("1") || src.get("burnt") == Some("1") {
            return normal;
        }
    } else if src.is("/turf/closed") {
        if let Some((.., dx, dy, _)) = diagonal {
            underlay(dx, dy);
            tail = "-d";
        }
    }
    if sys == Sys::Y2025 && src.get("post_init_icon_state").is_some() {
        out.extend(normal);
        return out;
    }
    let base = src.get("base_icon_state").map_or("", |s| s.trim_matches('"'));
    out.push((icon, format!("{base}-{set}{tail}")));
    out
}

struct W {
    tree: ObjectTree,
    passes: [Vec<Box<dyn RenderPass>>; 4],
    rec: Recorder,
}
thread_local! {
    static WORLD: W = {
        let rec = Recorder::default();
        let with = |p: Box<dyn RenderPass>| vec![p, Box::new(rec.clone()) as _];
        W { tree: tree(CODE), passes: [with(Box::<IconSmoothing2016>::default()), with(Box::<IconSmoothing>::default()), with(Box::<IconSmoothing2025>::default()), with(Box::<SmartCables>::default())], rec }
    };
}

type Grid = Vec<Vec<Vec<O>>>;

fn smooth_case(c: &mut Case, sys: Sys, grid: &Grid, at: (usize, usize)) {
    c.input(|| format!("{sys:?}: tile {at:?} of (rows from the bottom) {grid:#?}"));
    let look = |dx: i32, dy: i32| -> Option<Vec<O>> {
        let (x, y) = (at.0 as i32 + dx, at.1 as i32 + dy);
        (x >= 0 && y >= 0).then(|| grid.get(y as usize)?.get(x as usize).cloned())?
    };
    let tile = &grid[at.1][at.0];
    let mut want = vec![];
    for o in tile {
        // a dead end of a diagonal wall: left open, the original game changed its mind about it
        let picture = sys != Sys::Y2016 && flags_of(sys, o) & if sys == Sys::Y2020 { 3 } else { 1 } == if sys == Sys::Y2020 { 2 } else { 1 };
        if picture && o.is("/turf/closed") && flags_of(sys, o) & 4 != 0 && joined(sys, o, &look).count_ones() == 1 {
            return c.outcome("not compared");
        }
        want.extend(expected(sys, o, &look));
    }
    let cells: Vec<Vec<Vec<Prefab>>> = grid.iter().map(|r| r.iter().map(|t| t.iter().map(O::fab).collect()).collect()).collect();
    let got = WORLD.with(|w| shown(&w.tree, &cells, at, &w.passes[sys as usize], &w.rec));
    let mineral = tile.first().is_some_and(|o| o.is("/turf/closed/mineral"));
    for s in &got {
        let turf_under = s.icon == "turf.dmi" && (s.state.starts_with("fl") || s.state == "plating" || s.state == "stars");
        if !turf_under {
            c.check_eq("offset", &(if mineral { (-4, -4) } else { (0, 0) }), &s.ofs);
        }
    }
    let got: Vec<_> = got.into_iter().map(|s| (s.icon, s.state)).collect();
    c.check_eq("pieces drawn", &want, &got);
    c.trans(1);
    c.validated(1);
    c.outcome(&got);
}

/// Map sizes and positions of the source, with the list of in-map neighbours.
fn places() -> Vec<((usize, usize), (usize, usize))> {
    let mut out = vec![];
    for (w, h) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3)] {
        for y in 0..h {
            for x in 0..w {
                out.push(((w, h), (x, y)));
            }
        }
    }
    out
}

const FLOORS: [&str; 9] = ["\"fl0\"", "\"fl1\"", "\"fl2\"", "\"fl3\"", "\"fl4\"", "\"fl5\"", "\"fl6\"", "\"fl7\"", "\"fl8\""];

fn floor(x: usize, y: usize) -> O {
    O::new("/turf/open/floor", &[("icon_state", FLOORS[y * 3 + x])])
}

fn with(src: &O, more: &[(&'static str, &'static str)]) -> O {
    let mut o = src.clone();
    o.vars.extend_from_slice(more);
    o
}

/// a grid with `src` (on a floor unless a turf itself) and neighbours chosen by `pick`
fn build(src: &O, (w, h): (usize, usize), at: (usize, usize), mut pick: impl FnMut(usize, usize) -> Vec<O>) -> Grid {
    (0..h)
        .map(|y| {
            (0..w)
                .map(|x| if (x, y) != at { pick(x, y) } else if src.is("/turf") { vec![src.clone()] } else { vec![floor(x, y), src.clone()] })
                .collect()
        })
        .collect()
}

/// the neighbour choices for a source: same kind, same group, a stranger, open floor
fn neighbour(src: &O, kind: usize, x: usize, y: usize) -> Vec<O> {
    let turf = src.is("/turf");
    let o = match (kind, turf) {
        (0, true) => O::new("/turf/closed/rock", &[]),
        (1, _) => O::new(src.path, &[("smoothing_groups", "list(\"g1\", \"own\")")]),
        (2, true) => O::new("/turf/closed/wall/strong", &[("smoothing_groups", "list(\"g2\")")]),
        (2, false) => O::new("/obj/table/glass", &[("smoothing_groups", "list(\"g2\")")]),
        (0, false) => O::new("/obj/tablecloth", &[]),
        _ => return vec![floor(x, y)],
    };
    if turf { vec![o] } else { vec![floor(x, y), o] }
}

fn groups_for(sys: Sys, src: &str) -> Vec<Option<&'static str>> {
    match sys {
        Sys::Y2016 if src.starts_with("/obj") => vec![None, Some("list(/obj/table)"), Some("list(/obj/table/glass, /obj/tablecloth)"), Some("list()"), Some("list(\"/obj/table/glass\")")],
        Sys::Y2016 => vec![None, Some("list(/turf/closed/wall)"), Some("list(/turf/closed/wall/strong, /turf/closed/mineral)"), Some("list()"), Some("list(/turf/closed)")],
        _ => vec![None, Some("list(\"g1\")"), Some("list(\"g3\", \"g2\")"), Some("list()"), Some("list(\"g1\", \"g2\")")],
    }
}

fn flag_sets(sys: Sys) -> &'static [&'static str] {
    match sys {
        Sys::Y2016 => &["1", "2", "3", "5", "6", "9", "14", "4", "8", "0"],
        Sys::Y2020 => &["1", "2", "5", "6", "9", "10", "13", "14", "3", "7", "4", "8", "0"],
        Sys::Y2025 => &["1", "5", "9", "13", "2", "6", "4", "0"],
    }
}

const SYSTEMS: [Sys; 3] = [Sys::Y2016, Sys::Y2020, Sys::Y2025];

fn flag_var(sys: Sys) -> &'static str {
    if sys == Sys::Y2016 { "smooth" } else { "smoothing_flags" }
}

pub fn check(r: &mut Runner) {
    let places = places();
    let places = &places;
    // ---- every neighbourhood of four kinds of neighbour around the main kinds of source
    for sys in SYSTEMS {
        let mut sources = vec![];
        for path in ["/turf/closed/wall", "/obj/table"] {
            for f in &flag_sets(sys)[..4] {
                for g in [1, 2] {
                    let g = groups_for(sys, path)[g].unwrap();
                    sources.push(O::new(path, &[(flag_var(sys), f), ("canSmoothWith", g), ("base_icon_state", "\"b\"")]));
                }
            }
        }
        let sources = &sources;
        r.suite(&format!("neighbourhoods-{sys:?}"), "every choice of matching, grouped, strange or open neighbours on all eight sides", sources.len() as u64 * pow(4, 8), |i, c| {
            let mut d = Digits(i);
            let src = d.pick(sources);
            let grid = build(src, (3, 3), (1, 1), |x, y| neighbour(src, d.take(4), x, y));
            smooth_case(c, sys, &grid, (1, 1));
        });
        // ---- every source setting in every position of small maps
        let mut sources = vec![];
        for path in ["/turf/closed/wall", "/turf/closed/rock", "/turf/closed/mineral", "/turf/open/floor", "/obj/table"] {
            for f in flag_sets(sys) {
                for g in groups_for(sys, path) {
                    let mut o = O::new(path, &[(flag_var(sys), f), ("icon_state", "\"plain\"")]);
                    if let Some(g) = g {
                        o.vars.push(("canSmoothWith", g));
                    }
                    sources.push(o);
                }
            }
        }
        let sources = &sources;
        let extras: &[&[(&str, &str)]] = &[
            &[],
            &[("base_icon_state", "\"wall\"")],
            &[("smooth_icon", "'smooth.dmi'"), ("base_icon_state", "\"x\"")],
            &[("fixed_underlay", "list(\"space\" = 1)")],
            &[("fixed_underlay", "list(\"icon\" = 1)")],
            &[("broken", "1")],
            &[("burnt", "1")],
            &[("can_be_unanchored", "1")],
            &[("can_be_unanchored", "1"), ("anchored", "1")],
            &[("can_be_unanchored", "0"), ("anchored", "0")],
            &[("post_init_icon_state", "\"done\"")],
        ];
        let nb = if r.thorough() { 3 } else { 2 };
        // small maps: every neighbourhood; the middle of 3x3 is covered with two kinds
        let mut jobs = vec![];
        for (n, ((w, h), at)) in places.iter().enumerate() {
            let k = (0..*h).flat_map(|y| (0..*w).map(move |x| (x, y))).filter(|p| p.0.abs_diff(at.0) <= 1 && p.1.abs_diff(at.1) <= 1).count() - 1;
            jobs.push((n, pow(if k == 8 { 2 } else { nb }, k), k));
        }
        let per: u64 = jobs.iter().map(|j| j.1).sum();
        let jobs = &jobs;
        r.suite(&format!("settings-{sys:?}"), "every flag set, group list and extra setting of every kind of source at every position of every map up to 3x3", per * sources.len() as u64 * extras.len() as u64, |i, c| {
            let mut d = Digits(i);
            let src = with(d.pick(sources), d.pick(extras));
            let mut rest = d.0;
            let &(place, _, k) = jobs.iter().find(|j| if rest < j.1 { true } else { rest -= j.1; false }).unwrap();
            let ((w, h), at) = places[place];
            let two = k == 8 || nb == 2;
            let mut d = Digits(rest);
            let grid = build(&src, (w, h), at, |x, y| {
                if x.abs_diff(at.0) > 1 || y.abs_diff(at.1) > 1 {
                    return neighbour(&src, 1, x, y);
                }
                let kind = if two { [3, 1][d.take(2)] } else { [3, 1, 2][d.take(3)] };
                neighbour(&src, kind, x, y)
            });
            smooth_case(c, sys, &grid, at);
        });
    }
    // ---- several smoothed objects on one tile; only the tile's own object is decided by its own settings
    r.suite("stacks", "two smoothed objects over a smoothed turf, every choice of settings for each and of neighbours on two sides", 3 * 4u64.pow(3) * 4 * 4, |i, c| {
        let mut d = Digits(i);
        let sys = *d.pick(&SYSTEMS);
        let mut one = |path: &'static str| {
            let f = flag_sets(sys)[d.take(4)];
            O::new(path, &[(flag_var(sys), f), ("icon_state", "\"own\""), ("base_icon_state", "\"b\"")])
        };
        let tile = vec![one("/turf/closed/wall"), one("/obj/table"), one("/obj/table/glass")];
        let mut side = |n: usize| match d.take(4) {
            0 => vec![O::new("/turf/closed/wall", &[]), O::new("/obj/table/glass", &[])],
            1 => vec![floor(n, 2), O::new("/obj/table", &[])],
            2 => vec![floor(n, 2)],
            _ => vec![],
        };
        let grid = vec![vec![tile, side(0)], vec![side(1), vec![floor(1, 1)]]];
        smooth_case(c, sys, &grid, (0, 0));
    });

    // ---- cables
    let tiles: Vec<Vec<O>> = {
        let cable = |v: &[(&'static str, &'static str)]| O::new("/obj/structure/cable", v);
        vec![
            vec![],
            vec![cable(&[])],
            vec![cable(&[("cable_layer", "\"l1\"")])],
            vec![O::new("/obj/structure/cable/yellow", &[("cable_layer", "\"l2\"")]), cable(&[("cable_layer", "\"l3\"")])],
            vec![cable(&[]), O::new("/obj/machinery/power/terminal", &[])],
            vec![cable(&[]), O::new("/obj/machinery/power/smes", &[])],
            vec![O::new("/obj/structure/grille", &[]), cable(&[("cable_layer", "\"l1\"")])],
            vec![O::new("/obj/machinery/power/smes", &[])],
            vec![O::new("/obj/structure/cable/multilayer", &[])],
            vec![cable(&[]), O::new("/obj/machinery/power/apc", &[]), O::new("/obj/structure/cable_bridge", &[])],
        ]
    };
    let tiles = &tiles;
    let n = tiles.len();
    r.suite("cables", "every choice of cables, terminals and storage on a tile and its four sides, with and without cables on the corners", pow(n, 5) * 2, |i, c| {
        let mut d = Digits(i);
        let mid = d.pick(tiles);
        let sides: Vec<&Vec<O>> = (0..4).map(|_| d.pick(tiles)).collect();
        let corner = if d.flag() { tiles[1].clone() } else { vec![] };
        c.input(|| format!("middle {mid:?}\nnorth, south, east, west {sides:?}\ncorners {corner:?}"));
        let has = |t: &[O], p: &str| t.iter().any(|o| o.is(p));
        let layer = |o: &O| o.get("cable_layer").unwrap_or("\"l2\"").trim_matches('"').to_owned();
        let mut want: Vec<String> = vec![];
        // as in the game, storage on the tile decides before a terminal does
        let smes = has(mid, "/obj/machinery/power/smes");
        let term = has(mid, "/obj/machinery/power/terminal");
        for o in mid {
            if !o.is("/obj/structure/cable") || o.is("/obj/structure/cable/multilayer") {
                want.push(String::new());
                continue;
            }
            let dirs: Vec<&str> = ["1", "2", "4", "8"]
                .iter()
                .zip(&sides)
                .filter(|(_, t)| !(smes && has(t, "/obj/machinery/power/terminal")) && !(term && !smes && has(t, "/obj/machinery/power/smes")))
                .filter(|(_, t)| t.iter().any(|n| n.is("/obj/structure/cable") && layer(n) == layer(o)))
                .map(|x| *x.0)
                .collect();
            let node = dirs.len() > 1 && mid.iter().any(|o| ["/obj/structure/grille", "/obj/structure/cable_bridge", "/obj/machinery/power"].iter().any(|p| o.is(p)));
            want.push(match dirs.len() {
                0 => format!("{}-noconnection", layer(o)),
                _ => format!("{}-{}{}", layer(o), dirs.join("-"), if node { "-node" } else { "" }),
            });
        }
        let f = |t: &[O]| -> Vec<Prefab> { t.iter().map(O::fab).collect() };
        let k = f(&corner);
        let cells = vec![vec![k.clone(), f(sides[1]), k.clone()], vec![f(sides[3]), f(mid), f(sides[2])], vec![k.clone(), f(sides[0]), k]];
        let got: Vec<String> = WORLD.with(|w| shown(&w.tree, &cells, (1, 1), &w.passes[3], &w.rec)).into_iter().map(|s| s.state).collect();
        c.check_eq("cable states", &want, &got);
        c.trans(1);
        c.validated(1);
        c.outcome(&got);
    });
}
