//! Constant variables that refer to each other vs. a memoised reference evaluation.
use crate::util::*;
use dm::Context;
use dm::constants::Constant;
use dm::indents::IndentProcessor;
use dm::lexer::Lexer;
use dm::objtree::ObjectTree;
use dm::parser::Parser;
use mc_common::*;
use std::collections::BTreeMap;

pub fn parse_tree(src: &str) -> (Context, ObjectTree) {
    let ctx = Context::default();
    let file = ctx.register_file("x.dm".as_ref());
    let p = Parser::new(&ctx, IndentProcessor::new(&ctx, Lexer::new(&ctx, file, src.as_bytes())));
    let tree = p.parse_object_tree();
    (ctx, tree)
}

/// Types, by index; the parent of each. Type 0 is the root (globals).
const TYPES: [&str; 5] = ["", "/datum/a", "/datum/a/b", "/datum/c", "/datum/g"];
fn parent(t: usize) -> Option<usize> {
    match t {
        0 => None,
        2 => Some(1),
        _ => Some(0), // through /datum, which has no variables of these names
    }
}

#[derive(Clone, Debug)]
enum E {
    Num(f32),
    Str(&'static str),
    NullT,
    Var(&'static str),
    /// GLOB.x
    Glob(&'static str),
    /// /type::x
    Static(usize, &'static str),
    Add(Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    EqNull(Box<E>),
    TypePath,
    List(Box<E>),
    Bad,
}
use E::*;

fn show(e: &E) -> String {
    match e {
        Num(n) => n.to_string(),
        Str(s) => format!("\"{s}\""),
        NullT => "null".into(),
        Var(v) => v.to_string(),
        Glob(v) => format!("GLOB.{v}"),
        Static(t, v) => format!("{}::{v}", TYPES[*t]),
        Add(a, b) => format!("{} + {}", show(a), show(b)),
        Cond(a, b, c) => format!("{} ? {} : {}", show(a), show(b), show(c)),
        EqNull(a) => format!("({} == null)", show(a)),
        TypePath => "__TYPE__".into(),
        List(a) => format!("list({})", show(a)),
        Bad => "rand()".into(),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    Null(Option<usize>),
    F(f32),
    S(String),
    P(usize),
    L(Box<V>),
}

struct Slot {
    ty: usize,
    name: &'static str,
    is_const: bool,
    declares: bool,
    /// declared as holding an instance of this type
    hint: Option<usize>,
    e: Option<E>,
}

struct Ref<'a> {
    slots: &'a [Slot],
    memo: BTreeMap<usize, Result<V, bool>>,
    busy: Vec<usize>,
}

impl<'a> Ref<'a> {
    fn slot(&self, t: usize, name: &str) -> Option<usize> {
        self.slots.iter().position(|s| s.ty == t && s.name == name)
    }
    fn decl(&self, t: usize, name: &str) -> Option<usize> {
        let mut t = Some(t);
        while let Some(x) = t {
            if let Some(i) = self.slot(x, name) {
                if self.slots[i].declares {
                    return Some(i);
                }
            }
            t = parent(x);
        }
        None
    }
    /// Err(true): because of a circular reference
    fn lookup(&mut self, t: usize, name: &str, must_be_const: bool) -> Result<V, bool> {
        let d = self.decl(t, name).ok_or(false)?;
        let mut x = t;
        loop {
            if let Some(i) = self.slot(x, name) {
                return self.eval_slot(i, d, must_be_const);
            }
            x = parent(x).unwrap();
        }
    }
    fn eval_slot(&mut self, i: usize, d: usize, must_be_const: bool) -> Result<V, bool> {
        let s = &self.slots[i];
        let Some(e) = &s.e else {
            return if must_be_const && !self.slots[d].is_const { Err(false) } else { Ok(V::Null(self.slots[d].hint)) };
        };
        if self.busy.contains(&i) {
            return Err(true);
        }
        if must_be_const && !self.slots[d].is_const {
            return Err(false);
        }
        if let Some(Ok(v)) = self.memo.get(&i) {
            return Ok(v.clone());
        }
        self.busy.push(i);
        let v = self.eval(e, s.ty, self.slots[d].hint);
        self.busy.pop();
        if v.is_ok() {
            self.memo.insert(i, v.clone());
        }
        v
    }
    fn eval(&mut self, e: &E, t: usize, hint: Option<usize>) -> Result<V, bool> {
        Ok(match e {
            Num(n) => V::F(*n),
            Str(s) => V::S(s.to_string()),
            NullT => V::Null(hint),
            Var(v) => self.lookup(t, v, false)?,
            Static(t, v) => self.lookup(*t, v, false)?,
            Glob(v) => match self.lookup(t, "GLOB", false)? {
                V::Null(Some(h)) => self.lookup(h, v, true)?,
                _ => return Err(false),
            },
            Add(a, b) => match (self.eval(a, t, None)?, self.eval(b, t, None)?) {
                (V::F(x), V::F(y)) => V::F(x + y),
                (V::S(x), V::S(y)) => V::S(x + &y),
                _ => return Err(false),
            },
            Cond(a, b, c) => {
                let k = match self.eval(a, t, None)? {
                    V::Null(_) => false,
                    V::F(x) => x != 0.0,
                    V::S(s) => !s.is_empty(),
                    _ => true,
                };
                self.eval(if k { b } else { c }, t, hint)?
            },
            EqNull(a) => V::F(matches!(self.eval(a, t, None)?, V::Null(_)) as u8 as f32),
            TypePath => V::P(t),
            List(a) => V::L(Box::new(self.eval(a, t, None)?)),
            Bad => return Err(false),
        })
    }
}

fn matches(v: &V, c: &Constant) -> bool {
    match (v, c) {
        (V::Null(_), Constant::Null(_)) => true,
        (V::F(x), Constant::Float(y)) => x == y,
        (V::S(x), Constant::String(y)) => x == y.as_str(),
        (V::P(t), Constant::Prefab(p)) => p.to_string() == TYPES[*t],
        (V::L(x), Constant::List(l)) => l.len() == 1 && l[0].1.is_none() && matches(x, &l[0].0),
        _ => false,
    }
}

fn case(slots: &[Slot], order: &[usize], c: &mut Case) {
    let mut src = String::new();
    let mut line_of = vec![0u32; slots.len()];
    for (n, &i) in order.iter().enumerate() {
        let s = &slots[i];
        line_of[i] = n as u32 + 1;
        let h = s.hint.map_or(String::new(), |h| TYPES[h].to_owned());
        let k = if s.is_const { "/const" } else { "" };
        src += &format!("{}/{}{}", TYPES[s.ty], if s.declares { format!("var{k}{h}/") } else { String::new() }, s.name);
        if let Some(e) = &s.e {
            src += &format!(" = {}", show(e));
        }
        src.push('\n');
    }
    c.input(|| src.clone());
    c.trans(slots.len() as u64);
    c.validated(1);
    let (ctx, tree) = parse_tree(&src);
    let mut want_bad = vec![];
    for (i, s) in slots.iter().enumerate() {
        let mut r = Ref { slots, memo: BTreeMap::new(), busy: vec![] };
        let want = match r.decl(s.ty, s.name) {
            None => Err(false),
            Some(d) => {
                if s.ty == 0 && !slots[d].is_const {
                    continue; // plain globals are not folded by themselves
                }
                r.eval_slot(i, d, false)
            },
        };
        c.state(&(i, format!("{want:?}")));
        let Some(ty) = (if s.ty == 0 { Some(tree.root()) } else { tree.find(TYPES[s.ty]) }) else {
            c.fail("no type", TYPES[s.ty].to_owned());
            return;
        };
        let got = ty.vars.get(s.name).and_then(|v| v.value.constant.clone());
        match (&want, &got) {
            (Ok(v), Some(g)) if matches(v, g) => {},
            (Err(k), None) => want_bad.push((line_of[i], *k)),
            _ => {
                c.fail("value", format!("{}/{}: expected {want:?}, got {got:?}", TYPES[s.ty], s.name));
                return;
            },
        }
    }
    want_bad.sort();
    c.outcome(&want_bad.len());
    let mut got: Vec<(u32, bool)> = ctx
        .errors()
        .iter()
        .filter(|e| e.severity() == dm::Severity::Error)
        .map(|e| (e.location().line, e.description().contains("recursive constant reference")))
        .collect();
    got.sort();
    if got != want_bad {
        c.fail("diagnostics", format!("expected (line, circular) {want_bad:?}\ngot {:?}", errors_text(&ctx)));
    }
}

fn bx(e: E) -> Box<E> {
    Box::new(e)
}

pub fn check(r: &mut Runner) {
    let exprs: Vec<E> = vec![
        Num(1.0),
        Var("x"),
        Var("y"),
        Var("z"),
        Add(bx(Var("x")), bx(Var("y"))),
        Static(1, "x"),
        Static(2, "x"),
        Bad,
        Add(bx(Var("z")), bx(Num(2.0))),
        Cond(bx(Var("y")), bx(Var("x")), bx(Str("s"))),
    ];
    let n = exprs.len();
    // 1. a: x, y; b: x overrides, z
    r.suite("inheritance", "every choice of expressions for two variables of a type, an override and a new variable in its subtype, in every order of declaration", pow(n, 4) * 24, |i, c| {
        let mut d = Digits(i);
        let e: Vec<E> = (0..4).map(|_| d.pick(&exprs).clone()).collect();
        let order = permutations(4)[d.take(24)].clone();
        let mk = |ty, name, declares, k: usize| Slot { ty, name, is_const: false, declares, hint: None, e: Some(e[k].clone()) };
        case(&[mk(1, "x", true, 0), mk(1, "y", true, 1), mk(2, "x", false, 2), mk(2, "z", true, 3)], &order, c);
    });
    // 2. globals
    let gx: Vec<E> = vec![
        Num(0.0),
        NullT,
        Var("x"),
        Var("K"),
        Var("G"),
        Glob("x"),
        Glob("q"),
        Static(4, "x"),
        EqNull(bx(Var("GLOB"))),
        EqNull(bx(Var("x"))),
        List(bx(Var("K"))),
        TypePath,
        Cond(bx(Var("G")), bx(Bad), bx(Num(7.0))),
    ];
    let m = gx.len();
    r.suite("globals", "every choice of expressions for a global constant, a plain global, variables of two types one of which is reached through a global instance, constant or not, initialised or not, in several orders", pow(m, 4) * 4 * 4, |i, c| {
        let mut d = Digits(i);
        let e: Vec<E> = (0..4).map(|_| d.pick(&gx).clone()).collect();
        let k = d.flag();
        let bare = d.flag();
        let order = [[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [4, 0, 5, 1, 3, 2], [2, 3, 1, 5, 0, 4]][d.take(4)];
        let slots = [
            Slot { ty: 0, name: "K", is_const: true, declares: true, hint: None, e: Some(e[0].clone()) },
            Slot { ty: 0, name: "G", is_const: false, declares: true, hint: None, e: Some(e[1].clone()) },
            Slot { ty: 0, name: "GLOB", is_const: false, declares: true, hint: Some(4), e: None },
            Slot { ty: 4, name: "x", is_const: k, declares: true, hint: None, e: if bare { None } else { Some(e[2].clone()) } },
            Slot { ty: 4, name: "q", is_const: true, declares: true, hint: None, e: Some(Num(5.0)) },
            Slot { ty: 3, name: "x", is_const: false, declares: true, hint: None, e: Some(e[3].clone()) },
        ];
        case(&slots, &order, c);
    });
}
