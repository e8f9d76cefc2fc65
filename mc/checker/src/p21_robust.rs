//! P21: any text whatever is analysed to the end, in the same way every time.
use dm::annotation::AnnotationTree;
use dm::lexer::LocatedToken;
use dm::{Context, DMError, Severity};
use mc_common::*;
use std::fmt::Write;

/// Everything the pipeline has to say about `src`: diagnostics, types, members, annotations.
struct Seen {
    diags: Vec<String>,
    tree: String,
    errors: usize,
    /// diagnostics about lines the text does not have
    astray: Vec<String>,
}

fn show(e: &DMError) -> String {
    let mut s = format!("{}:{}:{} {:?} [{}] {}", e.location().is_builtins(), e.location().line, e.location().column, e.severity(), e.errortype().unwrap_or(""), e.description());
    for n in e.notes() {
        let _ = write!(s, " | {}:{} {}", n.location().line, n.location().column, n.description());
    }
    s
}

fn tokens(src: &str) -> Vec<LocatedToken> {
    let ctx = Context::default();
    let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "x.dm".into(), src.to_owned());
    dm::indents::IndentProcessor::new(&ctx, pp).collect()
}

fn look(src: &str, full: bool) -> Seen {
    let ctx = Context::default();
    let mut tree_text = String::new();
    {
        let mut notes = AnnotationTree::default();
        let mut pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "x.dm".into(), src.to_owned());
        let tree = {
            let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, &mut pp));
            parser.enable_procs();
            if full {
                parser.annotate_to(&mut notes);
                parser.parse_object_tree()
            } else {
                parser.parse_object_tree_without_builtins()
            }
        };
        pp.finalize();
        if full {
            dreamchecker::run(&ctx, &tree);
            for ty in tree.iter_types() {
                if ty.location.is_builtins() && ty.path != "" {
                    continue;
                }
                let _ = writeln!(tree_text, "type {} {:?}", ty.path, ty.parent_type().map(|p| p.path.clone()));
                for (n, v) in &ty.vars {
                    if !v.value.location.is_builtins() {
                        let _ = writeln!(tree_text, " var {n} {:?} {:?}", v.declaration.as_ref().map(|d| d.var_type.to_string()), v.value.constant.as_ref().map(|c| c.to_string()));
                    }
                }
                for (n, p) in &ty.procs {
                    for v in &p.value {
                        if !v.location.is_builtins() {
                            let _ = writeln!(tree_text, " proc {n} {:?} {:?}", v.parameters.iter().map(|p| p.name.to_string()).collect::<Vec<_>>(), v.code);
                        }
                    }
                }
            }
            let _ = writeln!(tree_text, "{} annotations", notes.len());
            let mut out = String::new();
            let _ = dm::pretty_print(&mut out, tokens(src).into_iter().map(|t| t.token), true);
            tree_text.push_str(&out);
        }
    }
    let lines: Vec<&str> = src.split('\n').collect();
    let mut seen = Seen { diags: vec![], tree: tree_text, errors: 0, astray: vec![] };
    for e in ctx.errors().iter() {
        let s = show(e);
        if e.severity() == Severity::Error {
            seen.errors += 1;
        }
        let l = e.location();
        let known = l.line >= 1 && l.line as usize <= lines.len() && l.column as usize <= lines[l.line as usize - 1].len() + 2;
        if !known && !l.is_builtins() {
            seen.astray.push(s.clone());
        }
        seen.diags.push(s);
    }
    seen
}

const TOP: &[&str] = &[
    "a", "/", "var", "proc", "=", "1", "\"s\"", "\"[", "(", ")", "[", "]", "{", "}", ",", ";", "\n", "\n\t", ":", ".", "..", "as", "in", "list", "new", "\n#define A", "\n#if", "\n#endif", "\n#include", "A", "'r'", "operator", "+", "null", "/*", "//", "{\"", "static", "set", "...", "parent_type", "?",
    "///x\n", "//!x\n", "const", "#", "##", "\\", "@", "\n}",
];

const BODY: &[&str] = &[
    "a", "b(", ")", "(", "[", "]", "{", "}", ",", ";", "\n\t", "\n\t\t", "\n", "1", "\"s\"", "\"[", "var", "/", "=", "+", "-", "++", "!", "?", ":", ".", "..", "?.", "::", "as", "in", "to", "step", "if", "else", "for", "while", "do", "switch", "return", "set", "new", "list", "spawn", "try", "catch", "goto", "break", "throw", "del",
    "null", "pick", "input", "locate", "call", "~=", "<<", "&&", "**", "%%=", "{\"", "/*", "#", "@\"", "'r'", "global", "newlist",
];

const EXPR: &[&str] = &["a", "1", "\"s\"", "\"[", "]\"", "(", ")", "[", "]", ",", "?", ":", ".", "..", "?.", "::", "/", "=", "-", "++", "!", "~", "&", "in", "as", "to", "new", "list", "{", "}", ";", "null", "pick", "input", "newlist", "locate", "rgb", "call", "/a", "'r'"];

const DIRECTIVE: &[&str] = &[
    "#define", "#undef", "#if", "#ifdef", "#ifndef", "#elif", "#else", "#endif", "#include", "#error", "#warn", "#pragma", "#", "##", "A", "B", "(", ")", ",", "...", "1", "\"s\"", "\"[", "]\"", "\n", "\\\n", "defined", "&&", "/", "-", "x", "__LINE__", "__FILE__", "/*", "*/", "//", "{\"", "\"}", "@(", "'",
    "\n#line", "\t", "fexists",
];

/// Valid code of every kind, without a diagnostic of its own.
pub const VALID: &str = r#"#define ONE 1
#define ADD(x, y) ((x) + (y))
#define NAME(x) ##x##_name
#define TEXT(x, rest...) list(#x, rest)
#ifdef ONE
/// the type
/mob/one
	name = "one"
	var/list/things = list("a" = 1, 2, null)
	var/obj/two/other
	var/static/count = ONE
	var/const/LIMIT = ADD(1, 2)
	var/NAME(my) = 'icon.dmi'
	var/tmp/grid[3][2]
	proc/act(mob/one/who, amount = 1 as num, list/rest in list(1, 2))
		set waitfor = FALSE
		if(amount > 1)
			return who.act(who, amount - 1)
		else if(!amount)
			amount++
		else
			amount -= 2
		for(var/mob/one/other_one in rest)
			other_one.act(src, amount = 2)
			continue
		for(var/i in 1 to 10 step 2)
			count += i
		for(var/i = 0; i < 3; i++)
			if(i == 1) break
		while(amount)
			amount = max(amount - 1, 0)
		do
			amount++
		while(amount < 3)
		switch(amount)
			if(1, 2)
				world << "text [amount] and [who?.name]"
			if(3 to 4) return
			else
				return list("x" = things["a"], things[1])
		spawn(1)
			del(who)
		try
			throw "oops"
		catch(var/e)
			world.log << e
		var/obj/two/made = new /obj/two{name = "n"; pixel_x = 2}(src.loc, 3)
		made.grow(amount, amount ? 1 : 2, "a[1 + 2]b")
		var/t = {"long
text [made]"}
		t += @"raw"
		var/picked = pick(1;"a", 2;"b")
		outer:
			for(var/x in TEXT(a, amount, picked))
				if(x in list(t))
					break outer
		return rgb(1, 2, 3) + ~amount ** 2 << 1
#else
/mob/never
	name = ONE
#endif
/obj/two
	var/size = /mob/one::LIMIT
	New(loc, n)
		..()
		size = n
	proc/grow(a, b, c)
		. = a || b && c
		if(istype(src, /obj/two) && (locate(/obj/two) in contents))
			. = input("what", "title") as null|text
	proc/operator+(other)
		return src
/obj/two/three/grow(a, b, c) { a = 1; b = .(a, b, c); return ..() }
/obj/two/three/New()
	..()
	goto done
	size = 1
	done:
		size = 2
/proc/main() return new /mob/one
"#;

/// The byte ranges of the tokens of `VALID`, found by a crude scan of its own.
fn pieces(src: &str) -> Vec<std::ops::Range<usize>> {
    let b = src.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        if b[i].is_ascii_alphanumeric() || b[i] == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else {
            i += 1;
        }
        if b[s] != b' ' {
            v.push(s..i);
        }
    }
    v
}

fn join(alphabet: &[&str], w: &[usize]) -> String {
    let mut s = String::new();
    for &k in w {
        if !s.is_empty() && !s.ends_with(['\n', '\t']) && !alphabet[k].starts_with('\n') {
            s.push(' ');
        }
        s.push_str(alphabet[k]);
    }
    s
}

fn judge(c: &mut Case, src: &str, full: bool) -> Seen {
    c.input(|| src.to_owned());
    let s = look(src, full);
    c.trans(1);
    c.outcome(&s.diags);
    if let Some(d) = s.astray.first() {
        c.fail("location outside the text", format!("reported at a place the text does not have: {d}"));
    }
    s
}

fn twice(c: &mut Case, src: &str, s: &Seen) {
    let t = look(src, true);
    if s.diags != t.diags {
        let at = s.diags.iter().zip(&t.diags).position(|(a, b)| a != b).unwrap_or(s.diags.len().min(t.diags.len()));
        c.fail(
            "another run reports something else",
            format!("diagnostics differ between two runs, from the {at}th on:\n  {:?}\n  {:?}\n{}", s.diags.get(at), t.diags.get(at), super::util::numbered(src)),
        );
    } else if s.tree != t.tree {
        c.fail("another run builds something else", format!("the trees of two runs differ\n{}\nand\n{}\nof\n{}", s.tree, t.tree, super::util::numbered(src)));
    }
    c.validated(1);
}

pub fn check(r: &mut Runner) {
    silence_stderr();
    r.assume("texts of the printed alphabets and lengths, each alone; the stack is that of a 64 MB thread, so nesting is bounded by the text's length");
    r.suite("top level", "every sequence of tokens up to the length as a whole file", count_upto(TOP.len(), r.pick(2, 3)), |i, c| {
        let src = join(TOP, &word(TOP.len(), i));
        let s = judge(c, &src, true);
        twice(c, &src, &s);
    });
    r.suite("top level, parser alone", "every sequence of tokens up to the length as a whole file, without built-ins", count_upto(TOP.len(), r.pick(3, 4)), |i, c| {
        let src = join(TOP, &word(TOP.len(), i));
        judge(c, &src, false);
    });
    r.suite("bodies", "every sequence of tokens up to the length as the body of a proc, checked", count_upto(BODY.len(), r.pick(2, 3)), |i, c| {
        let src = format!("/proc/f(a)\n\t{}\n", join(BODY, &word(BODY.len(), i)));
        let s = judge(c, &src, true);
        if i < 10_000 {
            twice(c, &src, &s);
        }
    });
    r.suite("bodies, parser alone", "every sequence of tokens up to the length as the body of a proc, without built-ins", count_upto(BODY.len(), r.pick(3, 4)), |i, c| {
        let src = format!("/proc/f(a)\n\t{}\n", join(BODY, &word(BODY.len(), i)));
        judge(c, &src, false);
    });
    r.suite("expressions", "every sequence of tokens up to the length as an initial value", count_upto(EXPR.len(), r.pick(3, 4)), |i, c| {
        let src = format!("var/x = {}\n", join(EXPR, &word(EXPR.len(), i)));
        judge(c, &src, false);
    });
    r.suite("directives", "every sequence of tokens up to the length, directives among them", count_upto(DIRECTIVE.len(), r.pick(3, 4)), |i, c| {
        let src = join(DIRECTIVE, &word(DIRECTIVE.len(), i));
        judge(c, &src, false);
    });
    r.suite("valid", "the valid program itself", 1, |_, c| {
        let s = judge(c, VALID, true);
        twice(c, VALID, &s);
        if !s.diags.is_empty() {
            c.fail("valid", format!("{:#?}", s.diags));
        }
    });
    let ps = pieces(VALID);
    r.suite("truncations", "the valid program cut short after every byte", VALID.len() as u64, |i, c| {
        let src = &VALID[..i as usize];
        let s = judge(c, src, true);
        twice(c, src, &s);
    });
    r.suite("deletions", "every run of one to three tokens of the valid program removed", ps.len() as u64 * 3, |i, c| {
        let (k, n) = ((i / 3) as usize, (i % 3) as usize + 1);
        let last = (k + n - 1).min(ps.len() - 1);
        let src = format!("{}{}", &VALID[..ps[k].start], &VALID[ps[last].end..]);
        let s = judge(c, &src, true);
        twice(c, &src, &s);
        // a bracket opening an embedded expression may go (the rest is text then), and a brace left
        // open may be closed by the indentation that follows
        let gone = &VALID[ps[k].clone()];
        let line = &VALID[VALID[..ps[k].start].rfind('\n').map_or(0, |p| p + 1)..ps[k].start];
        let quoted = line.matches('"').count() % 2 == 1 || line.starts_with("text ");
        if n == 1 && (matches!(gone, "(" | ")" | "]" | "{") || gone == "[" && !quoted) && s.errors == 0 {
            c.fail("unbalanced bracket accepted", format!("no error though {gone:?} was removed after {line:?}"));
        }
    });
    r.suite("exchanges", "every two neighbouring tokens of the valid program exchanged, every token doubled", ps.len() as u64 * 2, |i, c| {
        let k = (i / 2) as usize;
        let src = if i % 2 == 0 {
            format!("{}{}{}", &VALID[..ps[k].end], &VALID[ps[k].clone()], &VALID[ps[k].end..])
        } else if k + 1 < ps.len() {
            format!("{}{}{}{}{}", &VALID[..ps[k].start], &VALID[ps[k + 1].clone()], &VALID[ps[k].end..ps[k + 1].start], &VALID[ps[k].clone()], &VALID[ps[k + 1].end..])
        } else {
            return;
        };
        let s = judge(c, &src, true);
        twice(c, &src, &s);
    });
    let news: Vec<&str> = if r.thorough() { BODY.iter().chain(TOP).copied().collect() } else { vec!["(", ")", "]", "{", "}", "\"", "\n", "\n\t", "/", "=", "a", "1", ";", ":", ".", ","] };
    let m = news.len() as u64;
    r.suite("insertions", "every token put in before every token of the valid program", ps.len() as u64 * m, |i, c| {
        let (k, t) = ((i / m) as usize, news[(i % m) as usize]);
        let src = format!("{}{}{}{}", &VALID[..ps[k].start], t, if t.starts_with('\n') { "" } else { " " }, &VALID[ps[k].start..]);
        let s = judge(c, &src, true);
    });
    r.suite("replacements", "every token of the valid program replaced by every token", ps.len() as u64 * m, |i, c| {
        let (k, t) = ((i / m) as usize, news[(i % m) as usize]);
        let src = format!("{}{}{}", &VALID[..ps[k].start], t, &VALID[ps[k].end..]);
        let s = judge(c, &src, true);
    });
    // mistakes inside one proc stay there
    const INNER: &[&str] = &["a", "1", "\"s\"", ",", ";", "var", "/", "=", "+", "-", "++", "!", "?", ":", ".", "..", "?.", "::", "as", "in", "to", "if", "else", "for", "while", "do", "switch", "return", "set", "new", "list", "spawn", "try", "catch", "goto", "break", "del", "null", "pick", "()", "(1", "2)", "{", "[1]", "~=", "&&", "'r'", "global"];
    r.suite("containment", "every sequence of tokens with balanced brackets up to the length as the body of the second of three procs", count_upto(INNER.len(), r.pick(2, 3)), |i, c| {
        let w = word(INNER.len(), i);
        let body = join(INNER, &w);
        if body.matches('(').count() != body.matches(')').count() || body.find("2)") < body.find("(1") || body.contains('{') {
            return;
        }
        let src = format!("/proc/f()\n\tundefined_one = 1\n\treturn\n\t.=2\n/proc/g(a)\n\t{body}\n/proc/h()\n\tundefined_two = 1\n/obj/k\n\tproc/l()\n\t\tundefined_three()\n/proc/m()\n\treturn undefined_four\n");
        let s = judge(c, &src, true);
        let outside: Vec<&String> = s.diags.iter().filter(|d| !d.starts_with("false:6:") && !d.starts_with("false:7:1 ")).collect();
        let want = ["undefined_one", "undefined_two", "undefined_three", "undefined_four"];
        for n in want {
            if outside.iter().filter(|d| d.contains(&format!("\"{n}\""))).count() != 1 {
                c.fail("another proc unchecked", format!("the mistake {n} is not reported once:\n  {}\n{}", s.diags.join("\n  "), super::util::numbered(&src)));
                return;
            }
        }
        if outside.len() != 5 {
            c.fail("another proc blamed", format!("expected five diagnostics outside the second proc:\n  {}\n{}", s.diags.join("\n  "), super::util::numbered(&src)));
        }
        c.validated(1);
    });
    // very long lines, very deep nesting, very many of anything
    const TAILS: &[&str] = &["a = 1", "a = \"x[1]y\"", "a = b.c(1)", "a = \"[\"", "a = $", "a = '", "/* x", "a = 1 // y", "#define Z 1", "if(a) return", "a(1", "a = 1.5e9 + 0x1F", "a = {\"x", "a = @(e)x(e)", "\\\n a = 1", ") a", "/// doc", "a++ b", "Q(Z)", "a = /obj/", "a.", "a?.b", "var/", "var/obj/x = a.b[1]", "a ?[1]", "new /obj/", "a = /obj/", "/obj::a", "..()", "for(var/i in a)"];
    r.suite("long lines", "lines of every length around the ends of the 16-bit columns, ending in every kind of text", TAILS.len() as u64 * 40, |i, c| {
        let mut d = Digits(i);
        let tail = TAILS[d.take(TAILS.len())];
        let len = [65_526, 131_060][d.take(2)] + d.take(20);
        for pad in [" ".repeat(len), format!("\"{}\";", "x".repeat(len)), format!("/*{}*/", "x".repeat(len))] {
            let src = format!("#define Q(x) x\n/proc/f(a)\n\t{pad}{tail}\n/proc/g()\n\treturn undefined_one\n");
            judge(c, &src, true);
        }
    });
    const NESTS: &[(&str, &str, &str)] = &[
        ("\ta = ", "(", ")"), ("\ta = ", "list(", ")"), ("\ta = ", "f(", ")"), ("\ta = ", "!", ""), ("\ta = ", "1 + ", ""), ("\ta = ", "1 ? 2 : ", ""), ("\ta = ", "1 ** ", ""), ("\ta = ", "b = ", ""), ("\ta = a", "[1", "]"), ("\ta = a", ".b", ""), ("\ta = ", "\"[", "]\""),
        ("\t", "if(a) ", ""), ("\t", "{", "}"), ("\t", "while(a) {", "}"), ("\t", "try {", "} catch {}"), ("\t", "spawn ", ""), ("\ta = ", "new /obj{x = ", "}"), ("\ta = /obj", "/x", ""), ("\ta = ", "1 in ", ""), ("\tif(1) return; ", "else if(1) return; ", ""), ("\t", "switch(1) { if(1) ", "}"), ("\t", "do ", " while(1)"),
        ("//", "/*", "*/"), ("\t", "for(a in ", ")"), ("\ta = ", "pick(1;", ")"), ("\ta = ", "input(", ") as null|anything in list()"), ("\tset a = ", "(", ")"), ("\ta", "?.b", "()"), ("\t", "x: ", ""),
    ];
    let deepest = r.pick(60, 200);
    r.suite("deep nesting", "every nesting construct at every depth", NESTS.len() as u64 * deepest as u64, |i, c| {
        let mut d = Digits(i);
        let (before, open, close) = NESTS[d.take(NESTS.len())];
        let n = d.take(deepest) + 1;
        let src = format!("/proc/f(a, b)\n{before}{}1{}\n/proc/g()\n\treturn undefined_one\n", open.repeat(n), close.repeat(n));
        judge(c, &src, true);
    });
    r.suite("deep blocks", "types, branches and macros nested in every depth", 5 * deepest as u64, |i, c| {
        let mut d = Digits(i);
        let kind = d.take(5);
        let n = d.take(deepest) + 1;
        let mut src = String::new();
        for k in 0..n {
            let _ = match kind {
                0 => writeln!(src, "{}t{k}", "\t".repeat(k)),
                1 if k == 0 => writeln!(src, "/proc/f(a)\n\tif(a)"),
                1 => writeln!(src, "{}if(a)", "\t".repeat(k + 1)),
                2 => writeln!(src, "#ifndef X{k}"),
                3 => writeln!(src, "#define M{k}(x) M{}(x)(x)", k + 1),
                _ => writeln!(src, "#if {}1{}\n#endif", "(".repeat(k), ")".repeat(k)),
            };
        }
        let _ = match kind {
            0 => writeln!(src, "{}var/x = 1", "\t".repeat(n)),
            1 => writeln!(src, "{}return", "\t".repeat(n + 1)),
            3 => writeln!(src, "/proc/f()\n\treturn M0(1)"),
            _ => Ok(()),
        };
        let s = judge(c, &src, true);
        if kind < 2 && !s.diags.is_empty() {
            c.fail("deep nesting rejected", s.diags.join("\n"));
        }
    });
}
