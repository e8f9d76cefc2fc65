//! Pictures shared by the rendering checks, as functions and as files.
use std::path::Path;

type Px = Box<dyn Fn(usize, usize) -> [u8; 4]>;

const SOLID: [[u8; 3]; 6] = [[10, 20, 30], [200, 10, 10], [10, 200, 10], [10, 10, 200], [250, 250, 0], [0, 240, 250]];

fn dirs_order(n: usize) -> &'static [i32] {
    &[2, 1, 4, 8, 6, 10, 5, 9][..n]
}

/// (state, directions, frames) of a file, with its cell size and columns
fn layout(icon: &str) -> Option<(usize, usize, usize, Vec<(&'static str, usize, usize)>)> {
    Some(match icon {
        "solid.dmi" => (32, 32, 3, vec![("c0", 1, 1), ("c1", 1, 1), ("c2", 1, 1), ("c3", 1, 1), ("c4", 1, 1), ("c5", 1, 1), ("h0", 1, 1), ("h1", 1, 1), ("g", 1, 1)]),
        "big.dmi" => (64, 48, 2, vec![("b0", 1, 1), ("b1", 1, 1), ("b2", 1, 1), ("b3", 1, 1)]),
        "small.dmi" => (8, 8, 1, vec![("a", 1, 1)]),
        "tall.dmi" => (16, 64, 1, vec![("t", 1, 1)]),
        "dirs.dmi" => (32, 32, 5, vec![("one", 1, 1), ("four", 4, 2), ("eight", 8, 1), ("anim", 4, 3), ("", 1, 1)]),
        _ => return None,
    })
}

fn pixel(icon: &str, state: &str, dirpos: usize, frame: usize, x: usize, y: usize) -> [u8; 4] {
    let op = |c: [u8; 3]| [c[0], c[1], c[2], 255];
    match (icon, state) {
        ("solid.dmi", "h0") => if x < 16 && y >= 4 { op([90, 90, 0]) } else { [0; 4] },
        ("solid.dmi", "h1") => if y < 16 && x >= 8 { op([0, 90, 90]) } else { [0; 4] },
        ("solid.dmi", "g") => [(x * 8) as u8, 100, 200, (y * 8) as u8],
        ("solid.dmi", s) => op(SOLID[(s.as_bytes()[1] - b'0') as usize]),
        ("big.dmi", s) => {
            let n = s.as_bytes()[1] - b'0';
            if (x + y) % 7 == 0 { [0; 4] } else { op([n * 60 + 10, x as u8, y as u8]) }
        },
        (_, s) => op([s.len() as u8 * 40 + 1, (dirpos * 20 + frame * 3) as u8 + 5, (x + y * 3) as u8]),
    }
}

/// size and pixels of what `state` shows for direction number `dir`, first frame
pub fn sprite(icon: &str, state: &str, dir: i32) -> Option<(usize, usize, Px)> {
    let (w, h, _, states) = layout(icon)?;
    let &(name, dirs, _) = states.iter().find(|s| s.0 == state)?;
    let dir = if [1, 2, 4, 8, 5, 6, 9, 10].contains(&dir) { dir } else { 2 };
    let pos = dirs_order(dirs).iter().position(|&d| d == dir).unwrap_or(0);
    let icon = icon.to_owned();
    Some((w, h, Box::new(move |x, y| pixel(&icon, name, pos, 0, x, y))))
}

pub fn write_icons(dir: &Path) {
    std::fs::create_dir_all(dir).unwrap();
    for icon in ["solid.dmi", "big.dmi", "small.dmi", "tall.dmi", "dirs.dmi"] {
        let (w, h, cols, states) = layout(icon).unwrap();
        let mut meta = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = {h}\n");
        let mut cells = vec![];
        for (s, dirs, frames) in &states {
            meta += &format!("state = \"{s}\"\n\tdirs = {dirs}\n\tframes = {frames}\n");
            for f in 0..*frames {
                for d in 0..*dirs {
                    cells.push((*s, d, f));
                }
            }
        }
        meta += "# END DMI\n";
        let rows = cells.len().div_ceil(cols);
        let (sw, sh) = (cols * w, rows * h);
        let mut px = vec![0u8; sw * sh * 4];
        for (n, (s, d, f)) in cells.iter().enumerate() {
            for y in 0..h {
                for x in 0..w {
                    let at = ((n / cols * h + y) * sw + n % cols * w + x) * 4;
                    px[at..at + 4].copy_from_slice(&pixel(icon, s, *d, *f, x, y));
                }
            }
        }
        let mut e = lodepng::Encoder::new();
        e.info_png_mut().add_text("Description", &meta).unwrap();
        e.info_raw_mut().colortype = lodepng::ColorType::RGBA;
        e.info_raw_mut().set_bitdepth(8);
        std::fs::write(dir.join(icon), e.encode(&px, sw, sh).unwrap()).unwrap();
    }
}

pub fn tree(code: &str) -> dm::objtree::ObjectTree {
    use dm::{Context, indents::IndentProcessor, parser::Parser, preprocessor::Preprocessor};
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, "x.dm".into(), code);
    let mut p = Parser::new(&ctx, IndentProcessor::new(&ctx, pp));
    p.enable_procs();
    let tree = p.parse_object_tree();
    for e in ctx.errors().iter() {
        assert!(e.severity() != dm::Severity::Error, "{}", e.description());
    }
    tree
}

/// Notes every sprite the renderer is about to draw and draws none of them.
#[derive(Default, Clone)]
pub struct Recorder(pub std::sync::Arc<std::sync::Mutex<Vec<Shown>>>);
#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Shown {
    pub icon: String,
    pub state: String,
    pub dir: i32,
    pub ofs: (i32, i32),
    pub plane: i32,
    pub layer: dmm_tools::minimap::Layer,
    pub color: [u8; 4],
}
impl dmm_tools::render_passes::RenderPass for Recorder {
    fn sprite_filter(&self, s: &dmm_tools::minimap::Sprite) -> bool {
        self.0.lock().unwrap().push(Shown {
            icon: s.icon.into(),
            state: s.icon_state.into(),
            dir: s.dir.to_int(),
            ofs: (s.ofs_x, s.ofs_y),
            plane: s.plane,
            layer: s.layer,
            color: s.color,
        });
        false
    }
}

/// The sprites of one tile of `cells[y from the bottom][x]`, in drawing order within a layer.
/// The last of `passes` must be `rec`.
pub fn shown(
    tree: &dm::objtree::ObjectTree,
    cells: &[Vec<Vec<dmm_tools::dmm::Prefab>>],
    at: (usize, usize),
    passes: &[Box<dyn dmm_tools::render_passes::RenderPass>],
    rec: &Recorder,
) -> Vec<Shown> {
    use dmm_tools::dmm::{Key, Map};
    rec.0.lock().unwrap().clear();
    let (h, w) = (cells.len(), cells[0].len());
    let mut map = Map::with_empty_dictionary(w, h, 1);
    let mut k = Key::default();
    for (y, row) in cells.iter().enumerate() {
        for (x, cell) in row.iter().enumerate() {
            map.dictionary.insert(k, cell.clone());
            map.grid[(0, h - 1 - y, x)] = k;
            k = k.next();
        }
    }
    let bump = bumpalo::Bump::new();
    let errors = Default::default();
    dmm_tools::minimap::generate(
        dmm_tools::minimap::Context { objtree: tree, map: &map, level: map.z_level(0), min: at, max: at, render_passes: passes, errors: &errors, bump: &bump, print_errors: false },
        &dmm_tools::IconCache::default(),
    )
    .unwrap();
    std::mem::take(&mut rec.0.lock().unwrap())
}

/// A prefab of `path` with edited variables given as source text.
pub fn fab(path: &str, vars: &[(&str, &str)]) -> dmm_tools::dmm::Prefab {
    let mut p = dmm_tools::dmm::Prefab::from_path(path);
    for (k, v) in vars {
        p.vars.insert((*k).into(), dm::constants::evaluate_str(Default::default(), v.as_bytes()).unwrap());
    }
    p
}
