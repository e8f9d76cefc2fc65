//! Icon sheets: every short list of states, located, named, timed and rendered.
use dm::dmi::*;
use dmm_tools::dmi::{IconFile, render::IconRenderer, render::RenderType};
use mc_common::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
struct Ref {
    name: String,
    dirs: usize,
    delays: Option<Vec<f32>>,
    frames: usize,
    rewind: bool,
    movement: bool,
    loop_: u32,
    explicit: bool,
}

/// text of the frame lines, number of frames, per-frame delays
const TIMINGS: [(&str, usize, Option<&[f32]>); 9] = [
    ("", 1, None),
    ("frames = 1", 1, None),
    ("frames = 2", 2, None),
    ("frames = 3\ndelay = 1,2,3", 3, Some(&[1., 2., 3.])),
    ("frames = 2\ndelay = 1,1", 2, None),
    ("frames = 2\ndelay = 2,0.5,1,1", 2, Some(&[2., 0.5])),
    ("frames = 3\ndelay = 4,2", 3, Some(&[4., 2., 1.])),
    ("frames = 2\ndelay = 1,1,5", 2, None),
    ("delay = 1.5,1", 2, Some(&[1.5, 1.])),
];
const ORDER: [Dir; 8] = [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest];

fn text(w: u32, h: u32, states: &[(Ref, Vec<String>)]) -> String {
    let mut t = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = {h}\n");
    for (s, lines) in states {
        t += &format!("state = \"{}\"\n", s.name);
        for l in lines {
            t += &format!("\t{l}\n");
        }
    }
    t + "# END DMI\n"
}

fn make(name: &str, dirs: usize, timing: usize, flags: usize) -> (Ref, Vec<String>) {
    let (tt, frames, delays) = TIMINGS[timing];
    let mut lines = vec![format!("dirs = {dirs}")];
    lines.extend(tt.lines().map(str::to_owned));
    let mut r = Ref {
        name: name.into(),
        dirs,
        delays: delays.map(|d| d.to_vec()),
        frames,
        rewind: false,
        movement: false,
        loop_: 0,
        explicit: timing != 0,
    };
    if flags & 1 != 0 {
        lines.push("rewind = 1".into());
        r.rewind = true;
    }
    if flags & 2 != 0 {
        lines.push("movement = 1".into());
        r.movement = true;
    }
    if flags & 4 != 0 {
        lines.push("loop = 3".into());
        r.loop_ = 3;
    }
    (r, lines)
}

fn compare_states(c: &mut Case, meta: &Metadata, refs: &[Ref]) -> bool {
    if !c.check_eq("number of states", &refs.len(), &meta.states.len()) {
        return false;
    }
    let mut offset = 0;
    let mut seen: BTreeMap<&str, u32> = BTreeMap::new();
    for (n, (s, r)) in meta.states.iter().zip(refs).enumerate() {
        let dup = seen.entry(&r.name).or_insert(0);
        let got = (s.name.as_str(), s.offset, s.duplicate_index, s.rewind, s.movement, s.loop_, s.dirs.count(), s.frames.count(), s.num_sprites());
        let want = (r.name.as_str(), offset, *dup, r.rewind, r.movement, r.loop_, r.dirs, r.frames, r.dirs * r.frames);
        c.check_eq("name, offset, duplicate, rewind, movement, loop, dirs, frames, sprites", &want, &got);
        for f in 0..r.frames {
            c.check_eq("delay", &r.delays.as_ref().map_or(1., |d| d[f]), &s.frames.delay(f));
        }
        c.check_eq("animated", &(r.frames > 1 || r.delays.is_some()), &s.is_animated());
        let label = if *dup == 0 { r.name.clone() } else { format!("{} ({})", r.name, dup) };
        let idx = s.get_state_name_index();
        c.check_eq("label", &label, &idx.to_string());
        c.check_eq("lookup by name", &Some(&n), &meta.state_names.get(&idx));
        if *dup == 0 {
            c.ensure(meta.get_icon_state(&r.name.as_str().into()) == Some(s) && meta.get_icon_state(&r.name.clone().into()).map(|x| x.offset) == Some(offset), "plain name finds the first such state");
        }
        *dup += 1;
        offset += r.dirs * r.frames;
    }
    c.check_eq("number of names", &refs.len(), &meta.state_names.len());
    !c.failed()
}

fn compare_rects(c: &mut Case, meta: &Metadata, refs: &[Ref], columns: u32, slack: u32) {
    let (w, h) = (meta.width, meta.height);
    let mut used = HashSet::new();
    let mut next = 0u32;
    for (s, r) in meta.states.iter().zip(refs) {
        for f in 0..r.frames as u32 {
            for d in 0..r.dirs {
                let want = (next % columns * w, next / columns * h, w, h);
                let got = meta.rect_of(columns * w + slack, &s.get_state_name_index(), ORDER[d], f);
                c.check_eq("rectangle", &Some(want), &got);
                c.check_eq("sheet index", &next, &s.index_of_frame(ORDER[d], f));
                used.insert(got);
                next += 1;
            }
            if r.dirs == 1 {
                for d in ORDER {
                    c.check_eq("any direction of a one-direction state", &(next - 1), &s.index_of_frame(d, f));
                }
            }
        }
    }
    c.check_eq("distinct cells", &(next as usize), &used.len());
    if !refs.is_empty() {
        c.check_eq("unknown state", &None, &meta.rect_of(columns * w, &"no such".into(), Dir::South, 0));
    }
    c.trans(next as u64);
}

fn png_of(desc: &str, w: usize, h: usize, px: &[[u8; 4]], compressed: bool) -> Vec<u8> {
    let mut e = dmm_lodepng::Encoder::new();
    e.info_png_mut().add_text("Description", desc).unwrap();
    e.set_text_compression(compressed);
    e.set_auto_convert(false);
    let flat: Vec<u8> = px.concat();
    e.info_raw_mut().colortype = dmm_lodepng::ColorType::RGBA;
    e.info_raw_mut().set_bitdepth(8);
    e.encode(&flat, w, h).unwrap()
}
use lodepng as dmm_lodepng;

/// a distinct colour per sheet pixel; every third cell has a transparent pixel
fn colour(n: usize, transparent: bool) -> [u8; 4] {
    if transparent { [0, 0, 0, 0] } else { [(n * 37 % 251) as u8, (n / 200) as u8 + 1, (n % 200) as u8, 255] }
}

pub fn check(r: &mut Runner) {
    r.assume("the frame shown for a diagonal of a four-direction state is only required to be one of that state's frames");
    r.assume("a delay line precedes no frames line; sheets are big enough for their states");

    // ---- directions
    r.suite("directions", "every direction number and every operation against unit vectors", 8 + 4096, |i, c| {
        let vecs = |d: Dir| d.offset();
        if i >= 8 {
            let n = (i as i64 - 8 - 2048) as i32;
            let n = if n == 2047 { i32::MAX } else if n == -2048 { i32::MIN } else { n };
            c.input(|| n.to_string());
            let want = [1, 2, 4, 8, 5, 6, 9, 10].contains(&n);
            match Dir::from_int(n) {
                Some(d) => {
                    c.ensure(want, "only facings are directions");
                    c.check_eq("number", &n, &d.to_int());
                    let x = (n & 4 != 0) as i32 - (n & 8 != 0) as i32;
                    let y = (n & 1 != 0) as i32 - (n & 2 != 0) as i32;
                    c.check_eq("offset", &(x, y), &d.offset());
                },
                None => {
                    c.ensure(!want, "every facing is a direction");
                },
            }
            return;
        }
        let d = Dir::ALL[i as usize];
        c.input(|| format!("{d:?}"));
        let (x, y) = vecs(d);
        let by = |x: i32, y: i32| *Dir::ALL.iter().find(|d| vecs(**d) == (x.signum(), y.signum())).unwrap();
        c.check_eq("flip", &by(-x, -y), &d.flip());
        c.check_eq("flip_ns", &by(x, -y), &d.flip_ns());
        c.check_eq("flip_ew", &by(-x, y), &d.flip_ew());
        c.check_eq("clockwise_90", &by(y, -x), &d.clockwise_90());
        c.check_eq("counterclockwise_90", &by(-y, x), &d.counterclockwise_90());
        c.check_eq("clockwise_45", &by(x + y, y - x), &d.clockwise_45());
        c.check_eq("counterclockwise_45", &by(x - y, y + x), &d.counterclockwise_45());
        c.check_eq("is_diagonal", &(x != 0 && y != 0), &d.is_diagonal());
        c.check_eq("cardinal list", &(x == 0 || y == 0), &Dir::CARDINALS.contains(&d));
        c.check_eq("diagonal list", &(x != 0 && y != 0), &Dir::DIAGONALS.contains(&d));
        for &e in Dir::ALL {
            c.check_eq("contains", &(d.to_int() & e.to_int() != 0), &d.contains(e));
        }
        for at in [(1, 1), (5, 9), (-3, 0)] {
            let p = dmm_tools::dmm::Coord2::new(at.0, at.1) + d;
            c.check_eq("step", &(at.0 + x, at.1 + y), &(p.x, p.y));
            let p = dmm_tools::dmm::Coord2::new(at.0, at.1) + d + d.flip();
            c.check_eq("step and back", &at, &(p.x, p.y));
        }
        c.trans(20);
        c.state(&i);
    });

    // ---- states
    let names = ["", "a", "b"];
    let per = names.len() * 3 * TIMINGS.len();
    let one = |k: usize, flags: usize| {
        let mut d = Digits(k as u64);
        let name = *d.pick(&names);
        let dirs = *d.pick(&[1, 4, 8]);
        make(name, dirs, d.take(TIMINGS.len()), flags)
    };
    let n = r.pick(3, 3);
    r.suite("states", "every list of up to three states over three names, three direction counts and nine timings", count_upto(per, n), |i, c| {
        let list: Vec<_> = word(per, i).iter().enumerate().map(|(p, &k)| one(k, (k + p * 5) % 8)).collect();
        let sizes = [(32, 32), (16, 48), (1, 2)];
        let (w, h) = sizes[i as usize % 3];
        let t = text(w, h, &list);
        c.input(|| t.clone());
        let refs: Vec<Ref> = list.into_iter().map(|x| x.0).collect();
        match Metadata::meta_from_str(&t) {
            Ok(meta) => {
                c.check_eq("size", &(w, h), &(meta.width, meta.height));
                if compare_states(c, &meta, &refs) && !refs.is_empty() {
                    compare_rects(c, &meta, &refs, 1 + (i / 3 % 9) as u32, i as u32 % w);
                }
                c.outcome(&meta.states.last().map(|s| s.offset));
            },
            Err(e) => c.fail("rejected", e.to_string()),
        }
        c.state(&t);
        c.trans(1);
    });
    r.suite("sheet-widths", "every pair of states on sheets of one to twelve columns, three cell sizes and ragged widths", (per * per * 12 * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let cols = 1 + d.take(12) as u32;
        let (w, h) = *d.pick(&[(32, 32), (7, 3), (1, 1)]);
        let list = [one(d.take(per), 0), one(d.take(per), 0)];
        let t = text(w, h, &list);
        c.input(|| format!("{cols} columns\n{t}"));
        let refs: Vec<Ref> = list.into_iter().map(|x| x.0).collect();
        match Metadata::meta_from_str(&t) {
            Ok(meta) => {
                if c.check_eq("states", &2, &meta.states.len()) {
                    compare_rects(c, &meta, &refs, cols, (i % w as u64) as u32);
                }
            },
            Err(e) => c.fail("rejected", e.to_string()),
        }
        c.state(&(cols, &t));
    });
    // attribute lines in every order
    let perms = permutations(7);
    let perms = &perms;
    r.suite("line-orders", "the lines of a state in every order (frames before delay), in first and later position", (perms.len() * 2) as u64, |i, c| {
        let lines = ["dirs = 4", "frames = 2", "delay = 3,1", "loop = 5", "rewind = 1", "movement = 1", "hotspot = 1,2,1"];
        let p = &perms[i as usize / 2];
        if p.iter().position(|&x| x == 1) > p.iter().position(|&x| x == 2) {
            return;
        }
        let r = Ref { name: "x".into(), dirs: 4, delays: Some(vec![3., 1.]), frames: 2, rewind: true, movement: true, loop_: 5, explicit: true };
        let s = (r, p.iter().map(|&k| lines[k].to_owned()).collect::<Vec<_>>());
        let list = if i % 2 == 0 { vec![s, make("a", 1, 0, 0)] } else { vec![make("a", 8, 2, 0), s, make("x", 1, 0, 0)] };
        let t = text(32, 32, &list);
        c.input(|| t.clone());
        let refs: Vec<Ref> = list.into_iter().map(|x| x.0).collect();
        match Metadata::meta_from_str(&t) {
            Ok(meta) => {
                compare_states(c, &meta, &refs);
            },
            Err(e) => c.fail("rejected", e.to_string()),
        }
        c.trans(1);
        c.state(&t);
    });
    // names
    let alpha = ["a", " ", "=", "#", "[", "'", "\u{e9}", ",", "A"];
    r.suite("names", "every state name up to four characters from letters, spaces and punctuation", count_upto(alpha.len(), 4), |i, c| {
        let name: String = word(alpha.len(), i).iter().map(|&k| alpha[k]).collect();
        let list = vec![make(&name, 1, 2, 0), make("a", 4, 0, 0), make(&name, 1, 0, 0)];
        let t = text(32, 32, &list);
        c.input(|| t.clone());
        let refs: Vec<Ref> = list.into_iter().map(|x| x.0).collect();
        match Metadata::meta_from_str(&t) {
            Ok(meta) => {
                compare_states(c, &meta, &refs);
            },
            Err(e) => c.fail("rejected", e.to_string()),
        }
        c.trans(1);
        c.state(&t);
    });

    // ---- damage
    let base = text(32, 32, &[make("a", 4, 3, 7), make("b c", 1, 2, 0)]);
    let base = &base;
    let subs: &[u8] = b"a\"= \n0198-.,#\\\t";
    r.suite("one-byte-damage", "sheet metadata with one byte deleted, replaced or inserted, or cut", (base.len() * (subs.len() * 2 + 2)) as u64, |i, c| {
        let mut d = Digits(i);
        let at = d.take(base.len());
        let k = d.take(subs.len() * 2 + 2);
        let mut t = base.clone().into_bytes();
        match k {
            0 => {
                t.remove(at);
            },
            1 => t.truncate(at),
            k if k < subs.len() + 2 => t[at] = subs[k - 2],
            k => t.insert(at, subs[k - 2 - subs.len()]),
        }
        damaged(c, std::str::from_utf8(&t).unwrap());
    });
    let lines = [
        "state = \"a\"", "state = a", "state = \"", "state = ", "dirs = 1", "dirs = 4", "dirs = 3", "dirs = 0", "frames = 2", "frames = 0", "frames = -1",
        "frames = 99999999999999999999", "frames = 18446744073709551615", "frames = 4294967295", "delay = 1,2", "delay = ", "delay = x", "rewind = 1", "rewind = 300", "loop = -1", "movement = y", "width = 0", "height = 0", "width = 99999999999",
        "color = 1", "", "dirs", "state = \"q\\\"x\"",
    ];
    let ll = r.pick(4, 5);
    r.suite("every-metadata-text", "every list of up to the bound metadata lines, well-formed or not", count_upto(lines.len(), ll), |i, c| {
        let body: Vec<&str> = word(lines.len(), i).iter().map(|&k| lines[k]).collect();
        damaged(c, &format!("# BEGIN DMI\nversion = 4.0\n{}\n# END DMI\n", body.join("\n")));
    });

    r.suite("small-sheets", "sheets from nothing like large enough to exactly large enough for what their text promises", 6 * 6 * 4 * 4 * 3 * 3, |i, c| {
        let mut d = Digits(i);
        let (bw, bh) = (1 + d.take(6), 1 + d.take(6));
        let (w, h) = (1 + d.take(4), 1 + d.take(4));
        let list = [make("a", *d.pick(&[1, 4, 8]), 2, 0), make("b", *d.pick(&[1, 4, 8]), 0, 0)];
        let t = text(w as u32, h as u32, &list);
        c.input(|| format!("{bw}x{bh} pixels\n{t}"));
        let px = vec![[1, 2, 3, 255]; bw * bh];
        match IconFile::from_bytes(&png_of(&t, bw, bh, &px, false)) {
            Ok(icon) => {
                let mut first = 0;
                for (s, _) in list {
                    for (n, dir) in ORDER[..s.dirs].iter().enumerate() {
                        let cell = first + n;
                        let cols = bw / w;
                        let want = (cols > 0 && (cell / cols + 1) * h <= bh).then(|| ((cell % cols * w) as u32, (cell / cols * h) as u32, w as u32, h as u32));
                        c.check_eq("rectangle", &want, &icon.rect_of(&s.name.as_str().into(), *dir));
                    }
                    first += s.dirs * s.frames;
                }
            },
            Err(e) => c.fail("icon rejected", e.to_string()),
        }
        c.trans(1);
    });

    // ---- rendering
    let per2 = 3 * TIMINGS.len() * 2;
    r.suite("render", "every pair of states rendered to images, PNG or GIF, on sheets of several widths", (per2 * per2 * 3) as u64, |i, c| {
        let mut d = Digits(i);
        let cols = *d.pick(&[1usize, 3, 5]);
        let list: Vec<_> = ["x", "y"]
            .iter()
            .map(|n| {
                let dirs = *d.pick(&[1, 4, 8]);
                let t = d.take(TIMINGS.len());
                make(n, dirs, t, d.take(2))
            })
            .collect();
        let (w, h) = (2usize, 1usize);
        let t = text(w as u32, h as u32, &list);
        c.input(|| format!("{cols} columns\n{t}"));
        let refs: Vec<Ref> = list.into_iter().map(|x| x.0).collect();
        let total: usize = refs.iter().map(|r| r.dirs * r.frames).sum();
        let rows = total.div_ceil(cols);
        let (sw, sh) = (cols * w, rows * h);
        let clear = |cell: usize, x: usize| cell % 3 == 2 && x == 1;
        let mut px = vec![[0; 4]; sw * sh];
        for cell in 0..total {
            for y in 0..h {
                for x in 0..w {
                    px[(cell / cols * h + y) * sw + cell % cols * w + x] = colour(cell * w + x, clear(cell, x));
                }
            }
        }
        let png = png_of(&t, sw, sh, &px, i % 2 == 0);
        let icon = match IconFile::from_bytes(&png) {
            Ok(i) => i,
            Err(e) => return c.fail("icon rejected", e.to_string()),
        };
        if !compare_states(c, &icon.metadata, &refs) {
            return;
        }
        let renderer = IconRenderer::new(&icon);
        let mut offset = 0;
        for (s, r) in icon.metadata.states.iter().zip(&refs) {
            let order: Vec<usize> = if r.rewind { (0..r.frames).chain((0..r.frames).rev()).collect() } else { (0..r.frames).collect() };
            let want: Vec<Vec<[u8; 4]>> = order
                .iter()
                .map(|f| {
                    let mut img = vec![];
                    for _y in 0..h {
                        for d in 0..r.dirs {
                            for x in 0..w {
                                let cell = offset + f * r.dirs + d;
                                img.push(colour(cell * w + x, clear(cell, x)));
                            }
                        }
                    }
                    img
                })
                .collect();
            match renderer.render_to_images(&s.get_state_name_index()) {
                Ok(imgs) => {
                    let got: Vec<Vec<[u8; 4]>> = imgs.iter().map(|i| i.data.as_slice().unwrap().iter().map(|p| *p.as_bytes()).collect()).collect();
                    c.check_eq("frames", &want, &got);
                    for i in &imgs {
                        c.check_eq("frame size", &((w * r.dirs) as u32, h as u32), &(i.width, i.height));
                    }
                },
                Err(e) => c.fail("render_to_images", e.to_string()),
            }
            let animated = r.frames > 1 || r.delays.is_some();
            let mut out = vec![];
            let guard = match renderer.prepare_render(&s.get_state_name_index()) {
                Ok(g) => g,
                Err(e) => return c.fail("prepare_render", e.to_string()),
            };
            c.check_eq("kind of file", &animated, &matches!(guard.render_type, RenderType::Gif));
            if let Err(e) = guard.render(&mut out) {
                return c.fail("render", e.to_string());
            }
            if !animated {
                match lodepng::decode32(&out) {
                    Ok(b) => {
                        c.check_eq("png size", &(w * r.dirs, h), &(b.width, b.height));
                        let got: Vec<[u8; 4]> = b.buffer.iter().map(|p| [p.r, p.g, p.b, p.a]).collect();
                        c.check_eq("png", &want[0], &got);
                    },
                    Err(e) => c.fail("png", e.to_string()),
                }
            } else {
                let mut o = gif::DecodeOptions::new();
                o.set_color_output(gif::ColorOutput::RGBA);
                let mut dec = o.read_info(&out[..]).unwrap();
                c.check_eq("gif size", &((w * r.dirs) as u16, h as u16), &(dec.width(), dec.height()));
                let mut n = 0;
                while let Some(f) = dec.read_next_frame().unwrap() {
                    let got: Vec<[u8; 4]> = f.buffer.chunks(4).map(|p| if p[3] == 0 { [0; 4] } else { [p[0], p[1], p[2], p[3]] }).collect();
                    c.check_eq("gif frame", &want.get(n), &Some(&got));
                    if n < order.len() {
                        let delay = r.delays.as_ref().map_or(1., |d| d[order[n]]);
                        c.check_eq("gif delay", &((delay * 10.) as u16), &f.delay);
                    }
                    c.check_eq("gif disposal", &gif::DisposalMethod::Background, &f.dispose);
                    n += 1;
                }
                c.check_eq("gif frames", &order.len(), &n);
            }
            offset += r.dirs * r.frames;
            c.trans(order.len() as u64);
        }
        c.ensure(renderer.render_to_images(&"no such".into()).is_err(), "unknown state");
        c.state(&(cols, &t));
    });
}

fn damaged(c: &mut Case, t: &str) {
    c.input(|| t.to_owned());
    match Metadata::meta_from_str(t) {
        Ok(meta) => {
            for s in &meta.states {
                let idx = s.get_state_name_index();
                c.ensure(meta.get_icon_state(&idx).is_some(), "every state can be looked up");
                let _ = meta.rect_of(320, &idx, Dir::West, 0);
            }
            c.outcome(&meta.states.len());
        },
        Err(_) => c.outcome("error"),
    }
    c.trans(1);
    c.state(t);
}
