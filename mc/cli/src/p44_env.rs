//! P44: every tool works on the environment it is given, or on the one the folder has.
use mc_common::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const DEFAULT: &str = "tgstation.dme";
/// The environments of the top folder and the colours they give the one tile of the map.
const ENVS: [(&str, [u8; 3]); 5] = [("a.dme", [255, 0, 0]), (DEFAULT, [0, 255, 0]), ("z.dme", [0, 0, 255]), ("m.n.dme", [255, 255, 0]), ("tgstation2.dme", [0, 255, 255])];
const SUB: (&str, [u8; 3]) = ("s.dme", [255, 0, 255]);
const ROOT_GREY: u8 = 255;
const SUB_GREY: u8 = 128;

fn word_of(env: &str) -> String {
    env.replace('.', "_")
}
fn source((env, c): (&str, [u8; 3])) -> String {
    let w = word_of(env);
    format!(
        "#warn from-{w}!\n#include \"part.dm\"\n#define A 1\n#define A 2\n/** Doc.\n\nMore.\n*/\n/datum/{w}\n\tvar/v\n/world\n\tturf = /turf/x\n\tarea = /area/y\n/turf/x\n\ticon = 'i.dmi'\n\ticon_state = \"s\"\n\tcolor = \"#{:02x}{:02x}{:02x}\"\n/area/y\n\tinvisibility = 101\n",
        c[0], c[1], c[2]
    )
}
fn icon(path: &Path, grey: u8) {
    let mut e = lodepng::Encoder::new();
    e.info_png_mut().add_text("Description", "# BEGIN DMI\nversion = 4.0\n\twidth = 32\n\theight = 32\nstate = \"s\"\n\tdirs = 1\n\tframes = 1\n# END DMI\n").unwrap();
    e.info_raw_mut().colortype = lodepng::ColorType::RGBA;
    e.info_raw_mut().set_bitdepth(8);
    let px: Vec<u8> = (0..32 * 32).flat_map(|_| [grey, grey, grey, 255]).collect();
    std::fs::write(path, e.encode(&px, 32, 32).unwrap()).unwrap();
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum From {
    Top,
    Sub,
    Elsewhere,
}
#[derive(Clone, Debug)]
struct Call {
    from: From,
    /// Folder and name of the environment given.
    given: Option<(bool, &'static str)>,
    whole_path: bool,
}

fn calls(names: &[&'static str]) -> Vec<Call> {
    let mut v = vec![];
    for from in [From::Top, From::Sub, From::Elsewhere] {
        v.push(Call { from, given: None, whole_path: false });
        let all = names.iter().map(|n| (false, *n)).chain([(true, SUB.0), (false, "none.dme"), (true, "a.dme")]);
        for g in all {
            for whole_path in [false, true] {
                v.push(Call { from, given: Some(g), whole_path });
            }
        }
    }
    v
}

/// The configurations: in the top folder and in the lower one. Each turns the redefinition off; a
/// configuration in a folder that is not the environment's says it is an error.
fn folder(dir: &Path, names: &[&str], conf: [bool; 2]) {
    let sub = dir.join("sub");
    let away = dir.join("away");
    std::fs::create_dir_all(&sub).unwrap();
    std::fs::create_dir_all(&away).unwrap();
    for n in names {
        std::fs::write(dir.join(n), source(*ENVS.iter().find(|e| e.0 == *n).unwrap())).unwrap();
    }
    for d in ["a.dme.bak", "dme", "xdme", "notes.dm", "tgstation.dmb"] {
        std::fs::write(dir.join(d), "#error decoy\n").unwrap();
    }
    std::fs::write(sub.join(SUB.0), source(SUB)).unwrap();
    std::fs::write(dir.join("part.dm"), "/** Doc.\n\nMore.\n*/\n/datum/part_top\n\tvar/v\n").unwrap();
    std::fs::write(sub.join("part.dm"), "/** Doc.\n\nMore.\n*/\n/datum/part_sub\n\tvar/v\n").unwrap();
    icon(&dir.join("i.dmi"), ROOT_GREY);
    icon(&sub.join("i.dmi"), SUB_GREY);
    for d in [dir, &sub, &away] {
        std::fs::write(d.join("m.dmm"), "\"a\" = (/turf/x,/area/y)\n\n(1,1,1) = {\"\na\n\"}\n").unwrap();
    }
    for (d, on) in [(dir, conf[0]), (&sub, conf[1]), (&away, true)] {
        if on {
            std::fs::write(d.join("SpacemanDMM.toml"), "[diagnostics]\nmacro_redefined = \"off\"\n").unwrap();
        }
    }
}

struct Did {
    code: Option<i32>,
    text: String,
}
fn run(tool: &str, cwd: &Path, args: &[String]) -> Did {
    let exe = std::env::current_exe().unwrap().with_file_name(tool);
    let o = Command::new(exe).args(args).current_dir(cwd).env("NO_COLOR", "1").env("TERM", "dumb").env_remove("GIT_DIR").env("GIT_CEILING_DIRECTORIES", "/").stdin(Stdio::null()).output().expect("running the tool");
    Did { code: o.status.code(), text: format!("{}\n{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)) }
}

pub fn check(r: &mut Runner) {
    r.assume("the environment is a file; which of several environments is found, none of them the default, is left open; the documentation generator is run from its project's folder, as its documentation asks");
    let scratch = r.scratch();
    // every order in which the environments of a folder were made
    let mut folders: Vec<Vec<&'static str>> = vec![vec![]];
    let used = if r.thorough() { 5 } else { 4 };
    for a in 0..used {
        folders.push(vec![ENVS[a].0]);
        for b in (0..used).filter(|b| *b != a) {
            folders.push(vec![ENVS[a].0, ENVS[b].0]);
            for c in (0..used).filter(|c| *c != a && *c != b) {
                if a < 3 && b < 3 && c < 3 || r.thorough() {
                    folders.push(vec![ENVS[a].0, ENVS[b].0, ENVS[c].0]);
                }
            }
        }
    }
    let tools = ["dreamchecker", "dmdoc", "dmm-tools"];
    let n = folders.len() * 4 * 3;
    r.suite("environments", "every set of environments in a folder made in every order, with or without a configuration there and in the folder below; every tool, run in it, below it or beside, told each environment there is, one there is not, or none, by a relative or a whole path", n as u64, |i, c| {
        let mut d = Digits(i);
        let (tool, conf): (&str, _) = (*d.pick(&tools), [d.flag(), d.flag()]);
        let names = &folders[d.take(folders.len())];
        let dir = scratch.join(format!("env{i}"));
        for (k, call) in calls(names).iter().enumerate() {
            // documentation is made from within the project's folder
            if tool == "dmdoc" && call.given.is_some_and(|(sub, name)| call.from != if sub { From::Sub } else { From::Top } && name != "none.dme") {
                continue;
            }
            let top = dir.join(k.to_string());
            folder(&top, names, conf);
            let cwd = match call.from {
                From::Top => top.clone(),
                From::Sub => top.join("sub"),
                From::Elsewhere => top.join("away"),
            };
            let mut args: Vec<String> = vec![];
            if let Some((sub, name)) = call.given {
                let place = match (call.whole_path, call.from, sub) {
                    (true, _, false) => top.join(name),
                    (true, _, true) => top.join("sub").join(name),
                    (_, From::Top, false) | (_, From::Sub, true) => name.into(),
                    (_, From::Top, true) => PathBuf::from("sub").join(name),
                    (_, From::Sub, false) => PathBuf::from("..").join(name),
                    (_, From::Elsewhere, false) => PathBuf::from("..").join(name),
                    (_, From::Elsewhere, true) => PathBuf::from("../sub").join(name),
                };
                args.extend(["-e".to_owned(), place.to_string_lossy().into_owned()]);
            }
            if tool == "dmm-tools" {
                args.extend(["minimap", "-o", "o", "m.dmm"].iter().map(|s| s.to_string()));
            }
            // the environments it may be
            let may: Vec<(bool, &str)> = match call.given {
                Some((sub, name)) if sub && name == SUB.0 || !sub && names.contains(&name) => vec![(sub, name)],
                Some(_) => vec![],
                None => match call.from {
                    From::Sub => vec![(true, SUB.0)],
                    From::Elsewhere => vec![],
                    From::Top => {
                        let others: Vec<(bool, &str)> = names.iter().filter(|n| **n != DEFAULT).map(|n| (false, *n)).collect();
                        if others.is_empty() { names.iter().map(|n| (false, *n)).collect() } else { others }
                    },
                },
            };
            c.input(|| format!("{tool} {} in {:?} of a folder with {names:?} (in this order), configured {conf:?}", args.join(" "), call.from));
            c.trans(1);
            let did = run(tool, &cwd, &args);
            c.validated(1);
            c.state(&(tool, may.clone(), did.code));
            let fail = |c: &mut Case, what: &str| c.fail(what, format!("{tool} {args:?} from {:?}, allowed {may:?}: status {:?}\n{}", call.from, did.code, did.text));
            let all = ENVS.iter().map(|e| (false, e.0)).chain([(true, SUB.0)]);
            match tool {
                "dreamchecker" => {
                    let seen: Vec<_> = all.filter(|e| did.text.contains(&format!("from-{}!", word_of(e.1)))).collect();
                    let redefined = did.text.matches("edefin").count();
                    if may.is_empty() {
                        if !seen.is_empty() || did.code == Some(0) {
                            fail(c, "no environment");
                        }
                    } else if seen.len() != 1 || !may.contains(&seen[0]) {
                        fail(c, "wrong environment");
                    } else {
                        let found = if conf[seen[0].0 as usize] { 1 } else { 2 };
                        if (redefined > 0) != (found == 2) || !did.text.contains(&format!("Found {found} diagnostics\n")) || did.code != Some(1) {
                            fail(c, "wrong configuration");
                        }
                    }
                },
                "dmdoc" => {
                    let page = |n: &str| cwd.join(format!("dmdoc/datum/{n}.html")).is_file();
                    let seen: Vec<_> = all.filter(|e| page(&word_of(e.1))).collect();
                    if may.is_empty() {
                        if !seen.is_empty() || did.code == Some(0) {
                            fail(c, "no environment");
                        }
                    } else if seen.len() != 1 || !may.contains(&seen[0]) || did.code != Some(0) {
                        fail(c, "wrong environment");
                    } else if page("part_sub") != seen[0].0 || page("part_top") == seen[0].0 {
                        fail(c, "wrong parts");
                    }
                },
                _ => {
                    let png = cwd.join("o/m-1.png");
                    if may.is_empty() {
                        if png.exists() || did.code == Some(0) {
                            fail(c, "no environment");
                        }
                    } else if did.code != Some(0) {
                        fail(c, "status");
                    } else {
                        match lodepng::decode32_file(&png) {
                            Err(e) => fail(c, &format!("no picture: {e}")),
                            Ok(b) => {
                                let px = b.buffer[0];
                                let ok = may.iter().any(|(sub, name)| {
                                    let col = if *sub { SUB.1 } else { ENVS.iter().find(|e| e.0 == *name).unwrap().1 };
                                    let grey = if *sub { SUB_GREY } else { ROOT_GREY };
                                    [px.r, px.g, px.b] == col.map(|v| if v == 255 { grey } else { 0 }) && px.a == 255
                                });
                                if !ok {
                                    fail(c, &format!("wrong picture: {px:?}"));
                                }
                            },
                        }
                    }
                },
            }
            let _ = std::fs::remove_dir_all(&top);
            if c.failed() {
                break;
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let _ = std::fs::remove_dir_all(&scratch);
}
