//! Render passes: which run, what they hide, replace, layer and add.
use crate::scene::*;
use dm::config::MapRenderer;
use dm::objtree::ObjectTree;
use dmm_tools::dmm::Prefab;
use dmm_tools::minimap::{Atom, Layer, Neighborhood, Sprite};
use dmm_tools::render_passes::{self, RENDER_PASSES, RenderPass};
use mc_common::*;

const CODE: &str = "
/area/icon = 'area.dmi'
/turf/icon = 'turf.dmi'
/obj/icon = 'obj.dmi'
/mob/icon = 'mob.dmi'
/area/station
/turf/template_noop
/turf/open/space/icon = 'icons/turf/space.dmi'
/turf/open/space/icon_state = \"stars\"
/turf/open/space/basic
/turf/open/spaceship
/turf/open/floor/plating
/turf/open/floor/plating/asteroid
/turf/open/floor/platingish
/turf/open/floor/wood
/turf/open/chasm
/turf/openspace
/turf/closed/mineral
/turf/closed/mineral/iron
/turf/closed/wall
/turf/closed/indestructible/fakeglass
/turf/wild
/obj/effect/turf_decal/line
/obj/effect/mapping_helpers/note
/obj/effect/spawner/xmastree/rdrod
/obj/effect/spawner/structure/window
/obj/effect/spawner/lootdrop/crate_spawner
/obj/effect/landmark
/obj/effect/landmark/start
/obj/effect/landmarks
/obj/item/box
/obj/item/toy/syndicateballoon
/obj/item/toy/syndicateballoon/gold
/obj/item/relic
/obj/item/storage/box/bandages
/obj/item/storage/box/papersack/old
/obj/structure/cable/red
/obj/structure/cablecar
/obj/structure/disposalpipe/segment
/obj/structure/lattice/catwalk
/obj/structure/grille
/obj/structure/window
/obj/structure/closet
/obj/structure/closet/wardrobe
/obj/structure/closet/crate
/obj/structure/closet/crate/secure
/obj/structure/bookcase/random
/obj/structure/tank_dispenser
/obj/structure/transit_tube
/obj/structure/transit_tube/curved
/obj/structure/transit_tube/curved/flipped
/obj/structure/transit_tube/diagonal
/obj/structure/transit_tube/junction
/obj/structure/transit_tube/junction/flipped
/obj/structure/transit_tube/station
/obj/structure/transit_tube/station/reverse
/obj/machinery/atmospherics/pipe/simple
/obj/machinery/atmospherics/pipe/simple/visible
/obj/machinery/atmospherics/components/unary/vent
/obj/machinery/atmospherics/components/binary/pump
/obj/machinery/power/terminal/icon_state = \"term\"
/obj/machinery/power/apc
/obj/machinery/power/solar_control
/obj/machinery/power/smes
/obj/machinery/navbeacon/way
/obj/machinery/computer/arcade
/obj/machinery/door/airlock/command
/obj/machinery/door/window
/obj/machinery/firealarm
/obj/machinery/vending/snack/random
/obj/machinery/vending/snack/only/icon_state = \"snack\"
/obj/machinery/gravity_generator/main/station
/obj/machinery/gravity_generator/part/icon_state = \"part\"
/obj/machinery/gravity_generator/part/layer = 7
/mob/living
";

struct W {
    tree: ObjectTree,
    rec: Recorder,
}
thread_local! {
    static WORLD: W = W { tree: tree(CODE), rec: Recorder::default() };
}

fn config(passes: &[(&str, bool)], layers: &[(&str, f32)], hidden: &[&str]) -> MapRenderer {
    let mut cfg = MapRenderer::default();
    cfg.render_passes = passes.iter().map(|&(k, v)| (k.to_owned(), v)).collect();
    cfg.fancy_layers = layers.iter().map(|&(k, v)| (k.to_owned(), v)).collect();
    cfg.hide_invisible = hidden.iter().map(|&k| k.to_owned()).collect();
    cfg
}

thread_local! {
    static PROBES: &'static [Prefab] = Box::leak(Box::new([
        fab("/turf/open/space", &[]),
        fab("/turf/template_noop", &[]),
        fab("/area/station", &[]),
        fab("/obj/effect/mapping_helpers/note", &[]),
        fab("/obj/machinery/vending/snack/random", &[]),
        fab("/obj/machinery/firealarm", &[]),
        fab("/obj/effect/spawner/structure/window", &[("spawn_list", "list(/obj/structure/grille)")]),
        fab("/obj/machinery/computer/arcade", &[("icon_screen", "\"s\"")]),
        fab("/obj/structure/transit_tube", &[("dir", "1")]),
        fab("/obj/machinery/gravity_generator/main/station", &[]),
        fab("/obj/structure/cable/red", &[]),
        fab("/obj/machinery/atmospherics/pipe/simple", &[]),
        fab("/turf/closed/wall", &[("smooth", "1")]),
        fab("/turf/closed/wall", &[("smoothing_flags", "1")]),
        fab("/turf/closed/mineral", &[]),
    ]));
}

/// passes by name
fn only(names: &[&str], cfg: &MapRenderer) -> Vec<Box<dyn RenderPass>> {
    render_passes::configure_list(cfg, names, &["all"])
}

fn run(cells: &[Prefab], mut passes: Vec<Box<dyn RenderPass>>) -> Vec<Shown> {
    WORLD.with(|w| {
        passes.push(Box::new(w.rec.clone()));
        shown(&w.tree, &[vec![cells.to_vec()]], (0, 0), &passes, &w.rec)
    })
}

fn is(path: &str, parent: &str) -> bool {
    path == parent || path.starts_with(&format!("{parent}/"))
}
fn any(path: &str, parents: &[&str]) -> bool {
    parents.iter().any(|p| is(path, p))
}

/// Everything one pass does to a set of probes, as text.
fn fingerprint(pass: &dyn RenderPass, tree: &ObjectTree) -> String {
    let bump = bumpalo::Bump::new();
    let bump: &'static bumpalo::Bump = unsafe { std::mem::transmute(&bump) };
    let mut out = String::new();
    let sp = |s: &Sprite| format!("{}:{}:{:?}:{}:{}:{}:{:?};", s.icon, s.icon_state, s.dir, s.ofs_x, s.ofs_y, s.plane, s.layer);
    let probes = PROBES.with(|p| *p);
    let tree: &'static ObjectTree = unsafe { std::mem::transmute(tree) };
    for p in probes {
        let atom = Atom::from_prefab(tree, p).unwrap();
        out += &format!("{}{}{}", pass.path_filter(&p.path) as u8, pass.early_filter(&atom, tree) as u8, pass.late_filter(&atom, tree) as u8);
        let mut made = vec![];
        out += &format!("{}{}", pass.expand(&atom, tree, &mut made) as u8, made.len());
        let mut s = Sprite::from_vars(tree, &atom);
        pass.adjust_sprite(&atom, &mut s, tree, bump);
        out += &sp(&s);
        let (mut u, mut o, mut n) = (vec![], vec![], vec![]);
        pass.overlays(&atom, tree, &mut u, &mut o, bump);
        let hood = Neighborhood::new([&[][..]; 9]);
        out += &format!("{}", pass.neighborhood_appearance(&atom, tree, &hood, &mut n, bump) as u8);
        for s in u.iter().chain(&o).chain(&n) {
            out += &sp(s);
        }
        out += &format!("{}|", pass.sprite_filter(&s) as u8);
    }
    out
}

const NAMES: [(&str, bool); 17] = [
    ("hide-space", true), ("hide-areas", true), ("hide-invisible", true), ("random", true), ("pretty", true), ("spawners", true), ("overlays", true), ("transit-tube", true),
    ("gravity-gen", true), ("only-powernet", false), ("only-pipenet", false), ("fancy-layers", true), ("icon-smoothing-2016", false), ("icon-smoothing", true),
    ("icon-smoothing-2025", false), ("smart-cables", true), ("only-wires-and-pipes", false),
];

/// objects of every kind a pass knows, and near misses
fn catalogue() -> Vec<&'static str> {
    vec![
        "/area/station", "/turf/open/space", "/turf/open/space/basic", "/turf/open/spaceship", "/turf/open/floor/plating", "/turf/open/floor/plating/asteroid", "/turf/open/floor/platingish",
        "/turf/open/floor/wood", "/turf/open/chasm", "/turf/openspace", "/turf/closed/mineral", "/turf/closed/mineral/iron", "/turf/closed/wall", "/turf/wild", "/obj/effect/turf_decal/line",
        "/obj/effect/mapping_helpers/note", "/obj/effect/spawner/xmastree/rdrod", "/obj/effect/landmark", "/obj/effect/landmark/start", "/obj/effect/landmarks", "/obj/item/box",
        "/obj/item/toy/syndicateballoon", "/obj/item/toy/syndicateballoon/gold", "/obj/structure/cable/red", "/obj/structure/cablecar", "/obj/structure/disposalpipe/segment",
        "/obj/structure/lattice/catwalk", "/obj/machinery/atmospherics/pipe/simple", "/obj/machinery/atmospherics/pipe/simple/visible", "/obj/machinery/atmospherics/components/binary/pump",
        "/obj/machinery/power/terminal", "/obj/machinery/power/smes", "/obj/machinery/navbeacon/way", "/mob/living",
    ]
}

/// the depth the game gives a path, if it is special
fn game_layer(p: &str) -> Option<f32> {
    const TABLE: &[(&str, f32)] = &[
        ("/turf/open/floor/plating", -10.), ("/turf/open/space", -10.), ("/turf/closed/mineral", -3.), ("/turf/open/floor", -2.), ("/turf/closed", -2.), ("/turf", -10.), ("/obj/effect/turf_decal", -1.),
        ("/obj/structure/disposalpipe", -6.), ("/obj/structure/cable", -4.), ("/obj/machinery/power/terminal", -3.5), ("/obj/structure/lattice", -8.), ("/obj/machinery/navbeacon", -3.),
    ];
    if is(p, "/obj/machinery/atmospherics/pipe") {
        return (!p.contains("visible")).then_some(-5.);
    }
    TABLE.iter().filter(|t| is(p, t.0)).max_by_key(|t| t.0.len()).map(|t| t.1)
}

fn usual_layer(p: &str) -> f32 {
    match p.split('/').nth(1).unwrap() {
        "area" => 1.,
        "turf" => 2.,
        "obj" => 3.,
        _ => 4.,
    }
}

fn subsets<T: Copy>(items: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    for m in 0u32..1 << items.len() {
        if m.count_ones() as usize <= max {
            out.push((0..items.len()).filter(|k| m >> k & 1 != 0).map(|k| items[k]).collect());
        }
    }
    out
}

fn own(icon: &str) -> Shown {
    Shown { icon: icon.into(), state: "".into(), dir: 2, ofs: (0, 0), plane: 0, layer: Layer::from(3), color: [255; 4] }
}
fn part(base: &Shown, state: &str) -> Shown {
    Shown { state: state.into(), ..base.clone() }
}

pub fn check(r: &mut Runner) {
    // ---- selection
    let prints: Vec<String> = WORLD.with(|w| RENDER_PASSES.iter().map(|p| fingerprint(&*(p.new)(), &w.tree)).collect());
    let prints = &prints;
    r.suite("known-passes", "every pass has its name and default, and differs from every other", NAMES.len() as u64, |i, c| {
        let i = i as usize;
        c.check_eq("number", &NAMES.len(), &RENDER_PASSES.len());
        c.check_eq("name and default", &NAMES[i], &(RENDER_PASSES[i].name, RENDER_PASSES[i].default));
        c.check_eq("passes doing the same as this one", &1, &prints.iter().filter(|p| **p == prints[i]).count());
        c.trans(1);
    });
    let selected = |c: &mut Case, got: Vec<Box<dyn RenderPass>>, want: &[usize], cache: &std::collections::HashMap<usize, usize>| {
        let _ = cache;
        let got: Vec<String> = WORLD.with(|w| got.iter().map(|p| fingerprint(&**p, &w.tree)).collect());
        let got: Vec<Option<&str>> = got.iter().map(|g| prints.iter().position(|p| p == g).map(|k| NAMES[k].0)).collect();
        let want: Vec<Option<&str>> = want.iter().map(|&k| Some(NAMES[k].0)).collect();
        c.check_eq("passes run", &want, &got);
        c.trans(1);
        c.validated(1);
        c.outcome(&want);
    };
    let none = std::collections::HashMap::new();
    let none = &none;
    let decide = |k: usize, inc: &[&str], exc: &[&str], cfg: &[(&str, bool)]| {
        let (name, default) = NAMES[k];
        if inc.contains(&name) {
            true
        } else if exc.contains(&name) {
            false
        } else if inc.contains(&"all") {
            true
        } else if exc.contains(&"all") {
            false
        } else {
            cfg.iter().find(|c| c.0 == name).map_or(default, |c| c.1)
        }
    };
    let pairs: Vec<(usize, usize)> = (0..17).flat_map(|a| (a + 1..17).map(move |b| (a, b))).collect();
    let pairs = &pairs;
    r.suite("selection", "every mention of two passes and of all passes in the two lists and the configuration", pairs.len() as u64 * 64 * 9 * 2, |i, c| {
        let mut d = Digits(i);
        let text = d.flag();
        let &(a, b) = d.pick(pairs);
        let (mut inc, mut exc, mut cfg) = (vec![], vec![], vec![]);
        for name in [NAMES[b].0, "all", NAMES[a].0] {
            if d.flag() {
                inc.push(name);
            }
            if d.flag() {
                exc.insert(0, name);
            }
        }
        for k in [a, b] {
            match d.take(3) {
                0 => {},
                v => cfg.push((NAMES[k].0, v == 1)),
            }
        }
        c.input(|| format!("include {inc:?}, exclude {exc:?}, configured {cfg:?}"));
        let conf = config(&cfg, &[], &[]);
        let got = if text { render_passes::configure(&conf, &inc.join(","), &exc.join(",")) } else { render_passes::configure_list(&conf, &inc, &exc) };
        let want: Vec<usize> = (0..17).filter(|&k| decide(k, &inc, &exc, &cfg)).collect();
        selected(c, got, &want, none);
    });
    r.suite("selection-lists", "every include list and exclude list of up to three names of a few", count_upto(6, 3).pow(2), |i, c| {
        let names = ["all", "hide-space", "only-powernet", "fancy-layers", "unknown", ""];
        let n = count_upto(6, 3);
        let get = |k: u64| -> Vec<&str> { word(6, k).iter().map(|&x| names[x]).collect() };
        let (inc, exc) = (get(i % n), get(i / n));
        c.input(|| format!("include {inc:?}, exclude {exc:?}"));
        let got = render_passes::configure(&config(&[], &[], &[]), &inc.join(","), &exc.join(","));
        let want: Vec<usize> = (0..17).filter(|&k| decide(k, &inc, &exc, &[])).collect();
        selected(c, got, &want, none);
    });

    // ---- hiding
    let kinds = catalogue();
    let kinds = &kinds;
    let hideable = ["/obj/effect/landmark", "/obj/effect/landmark/start/", "/obj/effect", "/turf/open/space", "/obj/item/", "/obj/structure/cable", "/mob"];
    let hidden = subsets(&hideable, 3);
    let hidden = &hidden;
    let visib = ["", "0", "60", "60.5", "61", "100", "101", "-5", "\"71\"", "null"];
    r.suite("hide-invisible", "every object under every short list of hidden types and every visibility", (hidden.len() * kinds.len() * visib.len() * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let list = d.pick(hidden);
        let path = *d.pick(kinds);
        let v = *d.pick(&visib);
        let order = d.take(3);
        let mut vars = vec![];
        if !v.is_empty() {
            vars.push(("invisibility", v));
        }
        if order == 1 {
            vars.extend([("icon", "'icons/obj/items_and_weapons.dmi'"), ("icon_state", "\"syndballoon\"")]);
        }
        let mut list = list.clone();
        if order == 2 {
            list.reverse();
        }
        c.input(|| format!("{path} {vars:?} with hidden {list:?}"));
        let got = run(&[fab("/obj/structure/grille", &[]), fab(path, &vars)], only(&["hide-invisible"], &config(&[], &[], &list)));
        let hide = list.iter().any(|h| is(path, h.trim_end_matches('/')))
            || v.parse::<f32>().is_ok_and(|v| v > 60.)
            || any(path, &["/obj/effect/mapping_helpers", "/obj/effect/spawner/xmastree"])
            || order == 1 && !is(path, "/obj/item/toy/syndicateballoon");
        c.check_eq("objects drawn", &(1 + !hide as usize), &got.len());
        c.trans(1);
        c.validated(1);
        c.outcome(&got.len());
    });
    r.suite("filters", "every set of hiding and selecting passes over every pair of objects", (32 * kinds.len() * kinds.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let (a, b) = (*d.pick(kinds), *d.pick(kinds));
        let names: Vec<&str> = ["hide-space", "hide-areas", "only-powernet", "only-pipenet", "only-wires-and-pipes"].into_iter().filter(|_| d.flag()).collect();
        c.input(|| format!("{names:?} over {a} and {b}"));
        let got: Vec<String> = run(&[fab(a, &[("icon_state", "\"A\"")]), fab(b, &[("icon_state", "\"B\"")])], only(&names, &config(&[], &[], &[]))).into_iter().map(|s| s.state).collect();
        let keep = |p: &str| {
            !(names.contains(&"hide-space") && is(p, "/turf/open/space"))
                && !(names.contains(&"hide-areas") && is(p, "/area"))
                && (!names.contains(&"only-powernet") || is(p, "/obj/structure/cable"))
                && (!names.contains(&"only-pipenet") || is(p, "/obj/machinery/atmospherics/pipe"))
                && (!names.contains(&"only-wires-and-pipes") || any(p, &["/obj/structure/cable", "/obj/machinery/atmospherics/pipe"]))
        };
        let want: Vec<String> = [(a, "A"), (b, "B")].into_iter().filter(|x| keep(x.0)).map(|x| x.1.to_owned()).collect();
        c.check_eq("objects drawn", &want, &got);
        c.trans(1);
        c.validated(1);
        c.outcome(&want);
    });
    r.suite("space-fill", "empty template tiles and anything drawn with the space icon", 4, |i, c| {
        c.input(|| i.to_string());
        let cells = match i {
            0 => vec![fab("/turf/template_noop", &[])],
            1 => vec![fab("/turf/template_noop", &[]), fab("/obj/item/box", &[])],
            2 => vec![fab("/obj/item/box", &[("icon", "'icons/turf/space.dmi'")])],
            _ => vec![fab("/turf/open/floor/wood", &[("icon", "'icons/turf/spaces.dmi'")])],
        };
        let got = run(&cells, only(&["hide-space"], &config(&[], &[], &[]))).len();
        c.check_eq("drawn", &[0, 1, 0, 1][i as usize], &got);
    });

    // ---- layers
    let given = [("/obj", 9.), ("/obj/structure", 2.5), ("/obj/structure/cable/", -1.25), ("/turf/open", 0.), ("/turf/open/floor/plating", -7.), ("/obj/effect/landmark", 100.), ("/turf/open/space/", -20.), ("/obj/machinery/atmospherics", 6.)];
    let layers = subsets(&given, 3);
    let layers = &layers;
    let vents = ["vent_map-1", "vent_map_on-4", "vent_map_siphon_on-2", "scrub_map-3", "scrub_map_on-1", "vent_map-5", "x"];
    let unary = "/obj/machinery/atmospherics/components/unary/vent";
    r.suite("fancy-layers", "every object, and every vent state, under every short list of configured depths", (layers.len() * (kinds.len() + vents.len()) * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let cfg = d.pick(layers);
        let k = d.take(kinds.len() + vents.len());
        let edited = d.take(3);
        let (path, state) = if k < kinds.len() { (kinds[k], "s") } else { (unary, vents[k - kinds.len()]) };
        let quoted = format!("{state:?}");
        let mut vars = vec![("icon_state", &*quoted), ("plane", "5")];
        match edited {
            1 => vars.push(("layer", "3.75")),
            2 => vars.push(("layer", "-0.5")),
            _ => {},
        }
        c.input(|| format!("{path} {vars:?} with {cfg:?}"));
        let got = run(&[fab(path, &vars)], only(&["fancy-layers"], &config(&[], cfg, &[])));
        let normal = match edited {
            1 => 3.75,
            2 => -0.5,
            _ => usual_layer(path),
        };
        let chosen = cfg.iter().filter(|l| is(path, l.0.trim_end_matches('/'))).max_by_key(|l| l.0.trim_end_matches('/').len()).map(|l| l.1);
        let layer = chosen.or(game_layer(path)).unwrap_or(normal);
        let above = match state {
            "vent_map-1" => "vent_off",
            "vent_map_on-4" => "vent_out",
            "vent_map_siphon_on-2" => "vent_in",
            "scrub_map-3" => "scrub_off",
            "scrub_map_on-1" => "scrub_on",
            _ => "",
        };
        let mut want = vec![(state.to_owned(), 0, Layer::from(if above.is_empty() { layer } else { -5. }))];
        if !above.is_empty() {
            want.push((above.to_owned(), 0, Layer::from(normal)));
        }
        let got: Vec<_> = got.into_iter().map(|s| (s.state, s.plane, s.layer)).collect();
        c.check_eq("state, plane and layer", &want, &got);
        c.trans(1);
        c.validated(1);
        c.outcome(&want.len());
    });

    // ---- spawners
    let elems: [(&str, Option<&str>); 8] = [
        ("/obj/structure/grille", Some("/obj/structure/grille")), ("/obj/structure/window", Some("/obj/structure/window")), ("\"/obj/item/box\"", Some("/obj/item/box")), ("/obj/nonesuch", None),
        ("\"/obj/none/such\"", None), ("7", None), ("null", None), ("/obj/structure/cable/red = 3", Some("/obj/structure/cable/red")),
    ];
    let n = count_upto(elems.len(), r.pick(4, 5));
    r.suite("spawners", "every spawn list up to the bound, on a spawner and on something else, next to other objects", n * 4, |i, c| {
        let mut d = Digits(i);
        let spawner = d.flag();
        let before = d.flag();
        let items: Vec<_> = word(elems.len(), d.0).iter().map(|&k| elems[k]).collect();
        let list = format!("list({})", items.iter().map(|e| e.0).collect::<Vec<_>>().join(", "));
        let path = if spawner { "/obj/effect/spawner/structure/window" } else { "/obj/item/box" };
        c.input(|| format!("{path} {list} {before}"));
        let mut cells = vec![fab(path, &[("spawn_list", &list), ("icon_state", "\"me\"")])];
        let other = fab("/turf/wild", &[("icon_state", "\"t\"")]);
        if before { cells.insert(0, other) } else { cells.push(other) }
        let got: Vec<_> = run(&cells, only(&["spawners", "only-powernet"][..1], &config(&[], &[], &[]))).into_iter().map(|s| (s.icon, s.state)).collect();
        let mut want: Vec<(String, String)> = if spawner { items.iter().filter(|e| e.1.is_some()).map(|_| ("obj.dmi".into(), "".into())).collect() } else { vec![("obj.dmi".into(), "me".into())] };
        let t = ("turf.dmi".to_owned(), "t".to_owned());
        if before { want.insert(0, t) } else { want.push(t) }
        c.check_eq("drawn", &want, &got);
        // what they are shows through the cable filter
        let cables = items.iter().filter(|e| e.1 == Some("/obj/structure/cable/red")).count();
        let got = run(&cells, only(&["spawners", "only-powernet"], &config(&[], &[], &[]))).len();
        c.check_eq("cables among them", &if spawner { cables } else { 0 }, &got);
        c.trans(2);
        c.validated(1);
        c.outcome(&want.len());
    });
    r.suite("spawners-unlisted", "a spawner whose list is missing or not a list stays", 3, |i, c| {
        let v = ["null", "\"x\"", "5"][i as usize];
        c.check_eq("drawn", &1, &run(&[fab("/obj/effect/spawner/structure/window", &[("spawn_list", v)])], only(&["spawners"], &config(&[], &[], &[]))).len());
    });
    // loot whose outcome does not depend on chance
    let loot = ["/obj/item/box", "/obj/item/relic", "/obj/structure/grille = 3", "/obj/nonesuch = 2", "/mob/living = 0"];
    r.suite("loot", "every loot list taken whole, and none or one of one", 32 * 8, |i, c| {
        let mut d = Digits(i);
        let count = d.take(8);
        let items: Vec<&str> = loot.into_iter().filter(|_| d.flag()).collect();
        if count < items.len() && !(count == 0) {
            return c.outcome("chance");
        }
        let list = format!("list({})", items.join(", "));
        c.input(|| format!("{count} of {list}"));
        let got = run(&[fab("/obj/effect/spawner/lootdrop/crate_spawner", &[("loot", &list), ("lootcount", &count.to_string())])], only(&["random"], &config(&[], &[], &[])));
        let mut got: Vec<String> = got.into_iter().map(|s| s.icon).collect();
        let mut want: Vec<String> = items.iter().filter(|_| count > 0).filter(|x| !x.contains("none") ).map(|x| if x.starts_with("/mob") { "mob.dmi" } else { "obj.dmi" }.to_owned()).collect();
        // a weight of zero may keep an item from ever being picked
        if items.iter().any(|x| x.starts_with("/mob")) {
            got.retain(|x| x != "mob.dmi");
            want.retain(|x| x != "mob.dmi");
        }
        got.sort();
        want.sort();
        c.check_eq("drawn", &want, &got);
        c.trans(1);
    });

    // ---- parts
    let ov = |cells: &[Prefab]| run(cells, only(&["overlays"], &config(&[], &[], &[])));
    let bools = ["opened", "broken", "locked", "secure", "welded"];
    r.suite("crates", "every state of a crate", 32 * 3 * 3 * 2 * 2, |i, c| {
        let mut d = Digits(i);
        let on: Vec<&str> = bools.into_iter().filter(|_| d.flag()).collect();
        let has = |n: &str| on.contains(&n);
        let mut vars: Vec<(&str, &str)> = on.iter().map(|n| (*n, "1")).collect();
        let lid = *d.pick(&["", "\"lid\"", "3"]);
        let lid_icon = *d.pick(&["", "'lid.dmi'", "null"]);
        let moved = d.flag();
        let path = *d.pick(&["/obj/structure/closet/crate", "/obj/structure/closet/crate/secure"]);
        for (k, v) in [("lid_icon_state", lid), ("lid_icon", lid_icon)] {
            if !v.is_empty() {
                vars.push((k, v));
            }
        }
        let mut base = own("obj.dmi");
        if moved {
            vars.extend([("weld_w", "3"), ("weld_z", "-4"), ("lid_w", "5"), ("lid_z", "6"), ("pixel_x", "10"), ("pixel_y", "20"), ("dir", "4"), ("alpha", "200")]);
            base.ofs = (10, 20);
            base.dir = 4;
            base.color = [255, 255, 255, 200];
        }
        let shift = |s: Shown, x: i32, y: i32| Shown { ofs: if moved { (s.ofs.0 + x, s.ofs.1 + y) } else { s.ofs }, ..s };
        let mut want = vec![base.clone()];
        if !has("opened") {
            if has("broken") {
                want.push(part(&base, "securecrateemag"));
            } else if has("locked") {
                want.push(part(&base, "securecrater"));
            } else if has("secure") {
                want.push(part(&base, "securecrateg"));
            }
        }
        if has("welded") {
            want.push(shift(part(&base, "welded"), 3, -4));
        }
        if has("opened") && lid == "\"lid\"" {
            let mut s = shift(part(&base, "lid"), 5, 6);
            if lid_icon.starts_with('\'') {
                s.icon = "lid.dmi".into();
            }
            want.push(s);
        }
        c.input(|| format!("{path} {vars:?}"));
        c.check_eq("drawn", &want, &ov(&[fab(path, &vars)]));
        c.trans(1);
        c.validated(1);
        c.outcome(&want.len());
    });
    let flags = ["enable_door_overlay", "opened", "icon_door_override", "has_closed_overlay", "welded", "secure", "broken", "locked"];
    r.suite("closets", "every state of a closet", 256 * 3 * 2 * 2, |i, c| {
        let mut d = Digits(i);
        let on: Vec<&str> = flags.into_iter().filter(|_| d.flag()).collect();
        let has = |n: &str| on.contains(&n);
        let mut vars: Vec<(&str, &str)> = on.iter().map(|n| (*n, "1")).collect();
        let door = *d.pick(&["", "\"dd\"", "null"]);
        let state = d.flag();
        let path = *d.pick(&["/obj/structure/closet", "/obj/structure/closet/wardrobe"]);
        if !door.is_empty() {
            vars.push(("icon_door", door));
        }
        let mut base = own("obj.dmi");
        if state {
            vars.push(("icon_state", "\"st\""));
            base.state = "st".into();
        }
        let mut want = vec![base.clone()];
        if has("enable_door_overlay") {
            let st = state.then_some("st");
            let dd = (door == "\"dd\"").then_some("dd");
            if has("opened") {
                let name = if has("icon_door_override") { dd } else { st };
                want.extend(name.map(|n| part(&base, &format!("{n}_open"))));
            } else {
                if has("has_closed_overlay") {
                    want.extend(dd.or(st).map(|n| part(&base, &format!("{n}_door"))));
                }
                if has("welded") {
                    want.push(part(&base, "welded"));
                }
                if has("secure") && !has("broken") {
                    want.push(part(&base, if has("locked") { "locked" } else { "unlocked" }));
                }
            }
        }
        c.input(|| format!("{path} {vars:?}"));
        c.check_eq("drawn", &want, &ov(&[fab(path, &vars)]));
        c.trans(1);
        c.validated(1);
        c.outcome(&want.len());
    });
    r.suite("machines", "every state of computers, airlocks, false windows and other machines", 3 * 3 * 2 * 2 * 3 * 6, |i, c| {
        let mut d = Digits(i);
        let path = *d.pick(&[
            "/obj/machinery/computer/arcade", "/obj/machinery/power/solar_control", "/obj/machinery/door/airlock/command", "/obj/machinery/door/window", "/turf/closed/indestructible/fakeglass", "/obj/machinery/power/smes",
        ]);
        let screen = *d.pick(&["", "\"scr\"", "null"]);
        let keys = *d.pick(&["", "\"key\"", "4"]);
        let (glass, can) = (d.flag(), d.flag());
        let file = *d.pick(&["", "'o.dmi'", "null"]);
        let mut vars = vec![];
        for (k, v) in [("icon_screen", screen), ("icon_keyboard", keys), ("overlays_file", file), ("glass", if glass { "1" } else { "" }), ("can_be_glass", if can { "1" } else { "0" })] {
            if !v.is_empty() {
                vars.push((k, v));
            }
        }
        let turf = path.starts_with("/turf");
        let mut base = own(if turf { "turf.dmi" } else { "obj.dmi" });
        if turf {
            base.layer = Layer::from(2);
        }
        let mut want = vec![base.clone()];
        if any(path, &["/obj/machinery/computer", "/obj/machinery/power/solar_control"]) {
            if screen == "\"scr\"" {
                want.push(part(&base, "scr"));
            }
            if keys == "\"key\"" {
                want.push(part(&base, "key"));
            }
        } else if is(path, "/obj/machinery/door/airlock") {
            if glass && file == "'o.dmi'" {
                want.push(Shown { icon: "o.dmi".into(), ..part(&base, "glass_closed") });
            } else if !glass && can {
                want.push(part(&base, "fill_closed"));
            }
        } else if turf {
            want.insert(0, Shown { icon: "icons/turf/floors.dmi".into(), ..part(&base, "plating") });
            want.insert(1, Shown { icon: "icons/obj/structures.dmi".into(), ..part(&base, "grille") });
        }
        c.input(|| format!("{path} {vars:?}"));
        c.check_eq("drawn", &want, &ov(&[fab(path, &vars)]));
        c.trans(1);
        c.validated(1);
        c.outcome(&want.len());
    });
    r.suite("power-controllers", "every direction of a wall controller, with and without edited offsets", 12 * 2, |i, c| {
        let dir = (i / 2) as i32;
        let moved = i % 2 == 1;
        let ds = dir.to_string();
        let mut vars = vec![("dir", &*ds)];
        if moved {
            vars.extend([("pixel_x", "7"), ("pixel_y", "9")]);
        }
        c.input(|| format!("{vars:?}"));
        let mut base = own("obj.dmi");
        base.dir = if [1, 2, 4, 8, 5, 6, 9, 10].contains(&dir) { dir } else { 2 };
        let (x, y) = if moved { (7, 9) } else { (0, 0) };
        base.ofs = match dir {
            1 => (x, 23),
            2 => (x, -23),
            4 => (24, y),
            8 => (-25, y),
            _ => (x, y),
        };
        let mut want = vec![Shown { state: "term".into(), layer: Layer::from(-3.5), dir: base.dir, ..own("obj.dmi") }, base.clone()];
        for s in ["apcox-1", "apco3-2", "apco0-3", "apco1-3", "apco2-3"] {
            want.push(part(&base, s));
        }
        c.check_eq("drawn", &want, &ov(&[fab("/obj/machinery/power/apc", &vars)]));
        c.trans(1);
    });
    r.suite("pretty", "every number of tanks, and boxes, alarms and shelves", 11 * 12 + 8, |i, c| {
        let base = own("obj.dmi");
        let mut want = vec![base.clone()];
        let tanks = ["-1", "0", "1", "2", "3", "4", "5", "6", "1.5", "null", "\"3\"", "100"];
        let (path, vars): (&str, Vec<(&str, &str)>) = if i < 132 {
            let (o, p) = (tanks[i as usize % 12], tanks[(i as usize / 12) % 12]);
            for (name, v, most) in [("oxygen", o, 4), ("plasma", p, 5)] {
                let n = v.parse::<f32>().map_or(0, |v| (v as i32).min(most));
                if n > 0 {
                    want.push(part(&base, &format!("{name}-{n}")));
                }
            }
            ("/obj/structure/tank_dispenser", vec![("oxygentanks", o), ("plasmatanks", p)])
        } else {
            match i - 132 {
                0 => {
                    want.push(part(&base, "ill"));
                    ("/obj/item/storage/box/bandages", vec![("illustration", "\"ill\"")])
                },
                1 => ("/obj/item/storage/box/papersack/old", vec![("illustration", "\"ill\"")]),
                2 => ("/obj/item/storage/box/bandages", vec![("illustration", "null")]),
                3 => {
                    want.extend([part(&base, "fire_overlay"), part(&base, "fire_disabled")]);
                    ("/obj/machinery/firealarm", vec![])
                },
                4 => {
                    want[0].state = "book-0".into();
                    ("/obj/structure/bookcase/random", vec![("icon_state", "\"empty\"")])
                },
                5 => ("/obj/item/box", vec![("illustration", "\"ill\"")]),
                6 => ("/obj/item/box", vec![("oxygentanks", "3")]),
                _ => ("/obj/structure/grille", vec![]),
            }
        };
        c.input(|| format!("{path} {vars:?}"));
        c.check_eq("drawn", &want, &run(&[fab(path, &vars)], only(&["pretty"], &config(&[], &[], &[]))));
        c.trans(1);
        c.outcome(&want.len());
    });
    let tubes = ["", "/curved", "/curved/flipped", "/diagonal", "/junction", "/junction/flipped", "/station", "/station/reverse"];
    r.suite("tubes", "every kind of tube in every direction", 8 * 12, |i, c| {
        let (n, dir) = (i as usize / 12, (i % 12) as i32);
        let path = format!("/obj/structure/transit_tube{}", tubes[n]);
        let ds = dir.to_string();
        c.input(|| format!("{path} dir {dir}"));
        // exits facing north; other directions are listed, for they are not all turns of each other
        let (no, s, e, w) = (1, 2, 4, 8);
        let d = if [1, 2, 4, 8, 5, 6, 9, 10].contains(&dir) { dir } else { 2 };
        let exits: Vec<i32> = match (n, d) {
            (0, 1 | 2) => vec![no, s],
            (0, 4 | 8) => vec![e, w],
            (1, 1) => vec![no, s + w],
            (1, 2) => vec![s, no + e],
            (1, 4) => vec![e, no + w],
            (1, 8) => vec![s + e, w],
            (2, 1) => vec![no, s + e],
            (2, 2) => vec![s, no + w],
            (2, 4) => vec![e, s + w],
            (2, 8) => vec![no + e, w],
            (3, 1 | 2) => vec![no + e, s + w],
            (3, 4 | 8) => vec![no + w, s + e],
            (4, 1) => vec![no, s + e, s + w],
            (4, 2) => vec![s, no + w, no + e],
            (4, 4) => vec![e, s + w, no + w],
            (4, 8) => vec![w, no + e, s + e],
            (5, 1) => vec![no, s + w, s + e],
            (5, 2) => vec![s, no + e, no + w],
            (5, 4) => vec![e, no + w, s + w],
            (5, 8) => vec![w, s + e, no + e],
            (6, 1 | 2) => vec![e, w],
            (6, 4 | 8) => vec![no, s],
            (7, 1) => vec![e],
            (7, 2) => vec![w],
            (7, 4) => vec![s],
            (7, 8) => vec![no],
            _ => vec![],
        };
        let base = Shown { dir: d, ..own("obj.dmi") };
        let mut want = vec![base.clone()];
        for x in exits {
            let deco = |dir, state, ofs| Shown { dir, state: String::from(state), ofs, ..own("obj.dmi") };
            if x.count_ones() == 1 {
                want.push(deco(x, "decorative", (0, 0)));
            } else if x & no != 0 {
                want.push(deco(x ^ 3, "decorative_diag", (0, 32)));
                want.push(deco(x ^ 12, "decorative_diag", (if x & e != 0 { 32 } else { -32 }, 0)));
            }
        }
        c.check_eq("drawn", &want, &run(&[fab(&path, &[("dir", &ds)])], only(&["transit-tube"], &config(&[], &[], &[]))));
        c.trans(1);
        c.outcome(&want.len());
    });
    r.suite("gravity-generator", "the generator and its part", 2, |i, c| {
        let path = ["/obj/machinery/gravity_generator/main/station", "/obj/machinery/gravity_generator/part"][i as usize];
        c.input(|| path.into());
        let got = run(&[fab(path, &[])], only(&["gravity-gen"], &config(&[], &[], &[])));
        if i == 1 {
            c.check_eq("drawn", &1, &got.len());
            return;
        }
        let mut want = vec![own("obj.dmi")];
        let p = Shown { layer: Layer::from(7), ..own("obj.dmi") };
        for (n, x, y) in [(1, 1, 2), (2, 0, 2), (3, -1, 2), (4, 1, 1), (5, 0, 1), (6, -1, 1), (7, 1, 0), (9, -1, 0)] {
            let mut s = Shown { ofs: (32 * x, 32 * y), ..part(&p, &format!("on_{n}")) };
            if n <= 3 {
                s.layer = Layer::from(4.25);
            }
            want.push(s.clone());
            if n == 5 {
                want.push(part(&s, "activated"));
            }
        }
        c.check_eq("drawn", &want, &got);
        c.trans(1);
    });
}
