//! Map images: every small scene against a reference painter.
use crate::scene::*;
use dmm_tools::dmm::{Key, Map, Prefab};
use dmm_tools::IconCache;
use dmm_tools::minimap::{self, Layer};
use dmm_tools::render_passes::RenderPass;
use mc_common::*;
use std::sync::RwLock;

/// One object of a scene; `x`, `y` are the summed offsets.
#[derive(Clone, Debug)]
struct Obj {
    path: &'static str,
    icon: &'static str,
    state: &'static str,
    dir: i32,
    x: [i32; 3],
    y: [i32; 3],
    plane: i32,
    layer: f32,
    color: &'static str,
    alpha: f32,
}
const PLAIN: Obj = Obj { path: "/obj/q", icon: "solid.dmi", state: "c0", dir: 2, x: [0; 3], y: [0; 3], plane: 0, layer: 3., color: "", alpha: 255. };

impl Obj {
    fn prefab(&self) -> Prefab {
        use dm::constants::Constant::{Float, Resource, String};
        let mut p = Prefab::from_path(self.path);
        p.vars.insert("icon".into(), Resource(self.icon.into()));
        p.vars.insert("icon_state".into(), String(self.state.into()));
        p.vars.insert("dir".into(), Float(self.dir as f32));
        for (n, v) in [("pixel_x", self.x[0]), ("pixel_w", self.x[1]), ("step_x", self.x[2]), ("pixel_y", self.y[0]), ("pixel_z", self.y[1]), ("step_y", self.y[2])] {
            if v != 0 {
                p.vars.insert(n.into(), Float(v as f32));
            }
        }
        p.vars.insert("plane".into(), Float(self.plane as f32));
        p.vars.insert("layer".into(), Float(self.layer));
        if !self.color.is_empty() {
            p.vars.insert("color".into(), String(self.color.into()));
        }
        p.vars.insert("alpha".into(), Float(self.alpha));
        p
    }
    fn tint(&self) -> [u8; 4] {
        let a = if self.alpha >= 0. && self.alpha <= 255. { self.alpha as u8 } else { 255 };
        let [r, g, b] = match self.color {
            "#ff8000" => [255, 128, 0],
            "#0f8" => [0, 255, 0x88],
            "#ABCDEF" => [0xab, 0xcd, 0xef],
            "red" => [255, 0, 0],
            "lime" => [0, 255, 0],
            "green" => [0, 0xc0, 0],
            "gray" => [0x80; 3],
            "navy" => [0, 0, 0x80],
            _ => [255; 3],
        };
        [r, g, b, a]
    }
}

/// cells\[y from the bottom]\[x]
type Scene = Vec<Vec<Vec<Obj>>>;

fn paint(scene: &Scene, min: (usize, usize), max: (usize, usize)) -> (usize, usize, Vec<[f64; 4]>) {
    let (w, h) = ((max.0 - min.0 + 1) * 32, (max.1 - min.1 + 1) * 32);
    let mut img = vec![[0f64; 4]; w * h];
    let mut draw = vec![];
    for y in (min.1..=max.1).rev() {
        for x in min.0..=max.0 {
            for o in &scene[y][x] {
                draw.push((x, y, o));
            }
        }
    }
    draw.sort_by(|a, b| (a.2.plane, a.2.layer).partial_cmp(&(b.2.plane, b.2.layer)).unwrap());
    for (x, y, o) in draw {
        let Some((iw, ih, px)) = sprite(o.icon, o.state, o.dir) else { continue };
        let tint = o.tint();
        let left = (x - min.0) as i32 * 32 + o.x.iter().sum::<i32>();
        // from the bottom edge upwards
        let bottom = (y - min.1) as i32 * 32 + o.y.iter().sum::<i32>();
        for sy in 0..ih {
            for sx in 0..iw {
                let (dx, up) = (left + sx as i32, bottom + (ih - 1 - sy) as i32);
                if dx < 0 || up < 0 || dx >= w as i32 || up >= h as i32 {
                    continue;
                }
                let src = px(sx, sy);
                let dst = &mut img[(h - 1 - up as usize) * w + dx as usize];
                let t = |k: usize| src[k] as f64 * tint[k] as f64 / 255.;
                let (sa, da) = (t(3) / 255., dst[3] / 255.);
                let oa = sa + da * (1. - sa);
                for k in 0..3 {
                    dst[k] = if oa > 0. { (t(k) * sa + dst[k] * da * (1. - sa)) / oa } else { 0. };
                }
                dst[3] = oa * 255.;
            }
        }
    }
    (w, h, img)
}

pub struct World {
    pub tree: dm::objtree::ObjectTree,
    pub cache: IconCache,
}

pub fn render(
    w: &World,
    map: &Map,
    min: (usize, usize),
    max: (usize, usize),
    passes: &[Box<dyn RenderPass>],
    errors: &RwLock<foldhash::HashSet<String>>,
) -> Result<dmm_tools::dmi::Image, ()> {
    let bump = bumpalo::Bump::new();
    minimap::generate(
        minimap::Context { objtree: &w.tree, map, level: map.z_level(0), min, max, render_passes: passes, errors, bump: &bump, print_errors: false },
        &w.cache,
    )
}

fn map_of(scene: &Scene) -> Map {
    let (h, w) = (scene.len(), scene[0].len());
    let mut map = Map::with_empty_dictionary(w, h, 1);
    let mut k = Key::default();
    for (y, row) in scene.iter().enumerate() {
        for (x, cell) in row.iter().enumerate() {
            map.dictionary.insert(k, cell.iter().map(Obj::prefab).collect());
            map.grid[(0, h - 1 - y, x)] = k;
            k = k.next();
        }
    }
    map
}

fn compare(c: &mut Case, w: &World, scene: &Scene, min: (usize, usize), max: (usize, usize), tolerance: f64) {
    c.input(|| format!("{min:?}..{max:?} of {scene:#?}"));
    let map = map_of(scene);
    let errors = Default::default();
    let img = match render(w, &map, min, max, &[], &errors) {
        Ok(i) => i,
        Err(()) => return c.fail("failed", "generate failed"),
    };
    let (ww, hh, want) = paint(scene, min, max);
    c.check_eq("size", &(ww as u32, hh as u32), &(img.width, img.height));
    for (n, (want, got)) in want.iter().zip(img.data.as_slice().unwrap()).enumerate() {
        let got = [got.r, got.g, got.b, got.a];
        let bad = (want[3] - got[3] as f64).abs() > tolerance
            || (got[3] > 8 || want[3] > 8.) && (0..3).any(|k| (want[k] - got[k] as f64).abs() > tolerance * (64. / want[3]).max(1.))
            || want[3] == 0. && got != [0; 4];
        if bad {
            return c.fail("pixel", format!("at ({}, {}) from the top left: expected {want:?}, got {got:?}", n % ww, n / ww));
        }
    }
    c.trans(1);
    c.validated(1);
    c.outcome(&img.data.as_slice().unwrap().iter().map(|p| *p.as_bytes()).collect::<Vec<_>>());
}

pub fn check(r: &mut Runner) {
    r.assume("icon files load and their states lie inside the picture; offsets, planes and layers are finite; no render pass is active (they are P26 and P27)");
    r.assume("pixels covered by translucent layers may differ from the exact blend by two levels per layer");
    let dir = r.scratch().join("icons");
    let world = world(&dir, "/obj/q\n/obj/r\n\ticon = 'solid.dmi'\n\ticon_state = \"c1\"\n\tlayer = 5\n/obj/r/s\n\tpixel_x = 4\n/obj/r/s/u\n\ticon_state = \"c2\"\n");
    let w = &world;

    // ---- stacking in one tile
    let planes = [-1, 0, 2];
    let layers = [-3.5f32, -0.25, 0., 2., 2.01, 5000.];
    let depths: Vec<(i32, f32)> = planes.iter().flat_map(|&p| layers.iter().map(move |&l| (p, l))).collect();
    let k = depths.len();
    r.suite("stacking", "every three overlapping objects on one tile over all planes and layers, with holes showing what lies beneath", pow(k, 3), |i, c| {
        let mut d = Digits(i);
        let shapes = ["h0", "h1", "c2"];
        let cell: Vec<Obj> = shapes
            .iter()
            .map(|s| {
                let (plane, layer) = *d.pick(&depths);
                Obj { state: s, plane, layer, ..PLAIN }
            })
            .collect();
        compare(c, w, &vec![vec![cell]], (0, 0), (0, 0), 0.);
        c.state(&i);
    });
    // across tiles, with icons bigger than a tile
    r.suite("overlap", "every four layers of objects bigger than a tile on four neighbouring tiles", pow(4, 4) * 16, |i, c| {
        let mut d = Digits(i);
        let mut cells = vec![];
        for n in 0..4 {
            let layer = *d.pick(&[2f32, 3., 3.5, 4.]);
            cells.push(vec![Obj { icon: "big.dmi", state: ["b0", "b1", "b2", "b3"][n], layer, ..PLAIN }]);
        }
        let order = d.take(4);
        let empty = d.take(4);
        if empty < 3 {
            cells[empty].push(Obj { state: "h0", layer: 3., ..PLAIN });
        }
        cells.rotate_left(order);
        let d = cells.split_off(2);
        compare(c, w, &vec![cells, d], (0, 0), (1, 1), 0.);
        c.state(&i);
    });
    // ---- sub-rectangles
    let mut rects = vec![];
    for dims in [(3usize, 3usize), (4, 2), (1, 4)] {
        for x0 in 0..dims.0 {
            for x1 in x0..dims.0 {
                for y0 in 0..dims.1 {
                    for y1 in y0..dims.1 {
                        rects.push((dims, (x0, y0), (x1, y1)));
                    }
                }
            }
        }
    }
    let icons = [("solid.dmi", "c0"), ("big.dmi", "b1"), ("small.dmi", "a"), ("tall.dmi", "t")];
    r.suite("sub-rectangles", "every sub-rectangle of three maps with four icon sizes and nine offsets", (rects.len() * icons.len() * 9) as u64, |i, c| {
        let mut d = Digits(i);
        let (dims, min, max) = *d.pick(&rects);
        let (icon, state) = *d.pick(&icons);
        let (ox, oy) = (*d.pick(&[-20, 0, 40]), *d.pick(&[-33, 0, 16]));
        let scene: Scene = (0..dims.1)
            .map(|y| {
                (0..dims.0)
                    .map(|x| {
                        let n = (y * dims.0 + x) % 6;
                        vec![
                            Obj { state: ["c0", "c1", "c2", "c3", "c4", "c5"][n], layer: 2., ..PLAIN },
                            Obj { icon, state, x: [ox, 0, 0], y: [oy, 0, 0], color: ["", "#ff8000", "red", "lime", "gray", "navy"][n], ..PLAIN },
                        ]
                    })
                    .collect()
            })
            .collect();
        compare(c, w, &scene, min, max, 1.);
        c.state(&i);
    });
    // ---- offsets
    let offs = [-70, -65, -64, -63, -33, -32, -31, -8, -1, 0, 1, 23, 24, 31, 32, 33, 63, 64, 65];
    r.suite("offsets", "every pair of offsets around the tile and picture edges, in each offset variable, for four icon sizes", (offs.len() * offs.len() * 9 * icons.len()) as u64, |i, c| {
        let mut d = Digits(i);
        let (ox, oy) = (*d.pick(&offs), *d.pick(&offs));
        let (vx, vy) = (d.take(3), d.take(3));
        let (icon, state) = *d.pick(&icons);
        let mut o = Obj { icon, state, ..PLAIN };
        o.x[vx] = ox;
        o.y[vy] = oy;
        let mut p = Obj { state: "h1", layer: 2., ..PLAIN };
        // a second object whose offsets add up over two variables
        p.x[vx] = 3;
        p.x[(vx + 1) % 3] += 5;
        p.y[vy] = -4;
        p.y[(vy + 1) % 3] += 1;
        compare(c, w, &vec![vec![vec![o], vec![]], vec![vec![], vec![p]]], (0, 0), (1, 1), 0.);
        c.state(&i);
    });
    // ---- states and directions
    let states = ["one", "four", "eight", "none", "", "anim"];
    r.suite("states", "every direction number and state, on two neighbouring tiles", (states.len() * 18) as u64 * (states.len() * 18) as u64, |i, c| {
        let mut d = Digits(i);
        let mut mk = || Obj { icon: "dirs.dmi", state: d.pick(&states), dir: d.take(18) as i32 - 1, ..PLAIN };
        let (a, b) = (mk(), mk());
        // which frame a diagonal shows in a four-direction state is left open
        let open = |o: &Obj| o.state == "four" && [5, 6, 9, 10].contains(&o.dir);
        if open(&a) || open(&b) {
            return;
        }
        compare(c, w, &vec![vec![vec![a], vec![b]]], (0, 0), (1, 0), 0.);
        c.state(&i);
    });
    // ---- colours
    let colors = ["", "#ff8000", "#0f8", "#ABCDEF", "red", "lime", "green", "gray", "navy", "#12345", "nonsense"];
    let alphas = [0f32, 1., 77., 128., 254., 255., 300., -1.];
    let imgs = ["c0", "h0", "g"];
    let per = colors.len() * alphas.len() * imgs.len();
    r.suite("colours", "every pair of colours, alphas and translucent pictures on top of each other", (per * per) as u64, |i, c| {
        let mut d = Digits(i);
        let mut mk = |layer| Obj { state: d.pick(&imgs), color: d.pick(&colors), alpha: *d.pick(&alphas), layer, ..PLAIN };
        let (a, b) = (mk(2.), mk(3.));
        compare(c, w, &vec![vec![vec![b, a]]], (0, 0), (0, 0), 4.);
        c.state(&i);
    });
    // ---- where the values come from
    r.suite("inherited-values", "objects with values from the map, their type, its parents or built-in defaults; unknown types and icons", 6 * 3 * 6 * 3, |i, c| {
        let mut d = Digits(i);
        let mut mk = || -> (Prefab, Option<Obj>) {
            let n = d.take(6);
            let over = d.take(3);
            let mut p = Prefab::from_path(["/obj/r", "/obj/r/s", "/obj/r/s/u", "/obj/q", "/obj/nonexistent", "/obj/r/s"][n]);
            let mut o = match n {
                0 => Some(Obj { state: "c1", layer: 5., ..PLAIN }),
                1 => Some(Obj { state: "c1", layer: 5., x: [4, 0, 0], ..PLAIN }),
                2 => Some(Obj { state: "c2", layer: 5., x: [4, 0, 0], ..PLAIN }),
                5 => {
                    p.vars.insert("icon".into(), dm::constants::Constant::Resource("missing.dmi".into()));
                    None
                },
                _ => None,
            };
            if over == 1 {
                p.vars.insert("icon_state".into(), dm::constants::Constant::String("h0".into()));
                if let Some(o) = &mut o {
                    o.state = "h0";
                }
            } else if over == 2 {
                p.vars.insert("layer".into(), dm::constants::Constant::Float(2.5));
                p.vars.insert("pixel_x".into(), dm::constants::Constant::Null(None));
                if let Some(o) = &mut o {
                    o.layer = 2.5;
                    o.x = [0; 3];
                }
            }
            (p, o)
        };
        let ((pa, a), (pb, b)) = (mk(), mk());
        c.input(|| format!("{pa:?} {pb:?}"));
        let mut map = Map::with_empty_dictionary(1, 1, 1);
        map.dictionary.insert(Key::default(), vec![pa.clone(), pb.clone()]);
        let errors = RwLock::default();
        let Ok(img) = render(w, &map, (0, 0), (0, 0), &[], &errors) else {
            return c.fail("failed", "generate failed");
        };
        let (_, _, want) = paint(&vec![vec![a.into_iter().chain(b).collect()]], (0, 0), (0, 0));
        for (n, (want, got)) in want.iter().zip(img.data.as_slice().unwrap()).enumerate() {
            if (0..4).any(|k| want[k] != got[k as u8] as f64) {
                return c.fail("pixel", format!("at {n}: expected {want:?}, got {got:?}"));
            }
        }
        let bad = pa.path.contains("nonexistent") || pb.path.contains("nonexistent");
        c.check_eq("unknown type reported", &bad, &errors.read().unwrap().iter().any(|e: &String| e.contains("/obj/nonexistent")));
        c.trans(1);
        c.state(&i);
    });
    // ---- depth order of all layers
    r.suite("layer-order", "every pair of adjacent 32-bit layers in [-32768, 32767]", 1 << 16, |i, c| {
        // blocks of 2^16 bit patterns, walked in numeric order
        let val = |n: u32| {
            // n in numeric order: negatives descending bit patterns first
            if n < 0x8000_0000 { f32::from_bits(!n) } else { f32::from_bits(n - 0x8000_0000) }
        };
        let mut prev: Option<(f32, Layer)> = None;
        let mut n = 0;
        for k in 0..=65536u64 {
            let idx = i * 65536 + k;
            if idx > u32::MAX as u64 {
                break;
            }
            let f = val(idx as u32);
            if !(f >= -32768. && f <= 32767.) {
                continue;
            }
            let l = Layer::from(f);
            if let Some((pf, pl)) = prev {
                if pl > l {
                    return c.fail("layer order", format!("{pf:?} sorts after {f:?}: {pl:?} {l:?}"));
                }
                // apart by at least a 65536th: strictly ordered
            }
            if prev.is_none() {
                // strictness against a value one step of resolution away
                let g = f + 1.0 / 32768.;
                if g as f64 - f as f64 >= 1.0 / 40000. && g <= 32767. && Layer::from(g) <= l {
                    return c.fail("layer resolution", format!("{f:?} and {g:?}"));
                }
            }
            prev = Some((f, l));
            n += 1;
        }
        c.trans(n);
        c.state(&i);
    });
    drop(std::fs::remove_dir_all(&dir));
}

fn world(dir: &std::path::Path, code: &str) -> World {
    write_icons(dir);
    let mut cache = IconCache::default();
    cache.set_icons_root(dir);
    World { tree: tree(code), cache }
}
