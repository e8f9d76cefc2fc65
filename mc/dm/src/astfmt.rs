//! Parse trees as S-expressions, written from the public tree types only.
use dm::ast::*;

fn list(es: &[Expression]) -> String {
    es.iter().map(|e| format!(" {}", ex(e))).collect()
}
fn opt(e: &Option<Expression>) -> String {
    e.as_ref().map_or("-".into(), ex)
}
fn prefab(p: &Prefab) -> String {
    let mut s: String = p.path.iter().map(|(o, i)| format!("{}{i}", match o {
        PathOp::Slash => "/",
        PathOp::Dot => ".",
        PathOp::Colon => ":",
    })).collect();
    if !p.vars.is_empty() {
        s += &format!("{{{}}}", p.vars.iter().map(|(k, v)| format!("{k}={}", ex(v))).collect::<Vec<_>>().join(";"));
    }
    s
}
fn kind(k: PropertyAccessKind) -> &'static str {
    match k {
        PropertyAccessKind::Dot => ".",
        PropertyAccessKind::Colon => ":",
        PropertyAccessKind::SafeDot => "?.",
        PropertyAccessKind::SafeColon => "?:",
        PropertyAccessKind::Scope => "::",
    }
}
fn bin(o: BinaryOp) -> &'static str {
    use BinaryOp::*;
    match o {
        Add => "+",
        Sub => "-",
        Mul => "*",
        Div => "/",
        Pow => "**",
        Mod => "%",
        FloatMod => "%%",
        Eq => "==",
        NotEq => "!=",
        Less => "<",
        Greater => ">",
        LessEq => "<=",
        GreaterEq => ">=",
        LessOrGreater => "<=>",
        Equiv => "~=",
        NotEquiv => "~!",
        BitAnd => "&",
        BitXor => "^",
        BitOr => "|",
        LShift => "<<",
        RShift => ">>",
        And => "&&",
        Or => "||",
        In => "in",
        To => "to",
    }
}
fn asg(o: AssignOp) -> &'static str {
    use AssignOp::*;
    match o {
        Assign => "=",
        AddAssign => "+=",
        SubAssign => "-=",
        MulAssign => "*=",
        DivAssign => "/=",
        ModAssign => "%=",
        FloatModAssign => "%%=",
        AssignInto => ":=",
        BitAndAssign => "&=",
        AndAssign => "&&=",
        BitOrAssign => "|=",
        OrAssign => "||=",
        BitXorAssign => "^=",
        LShiftAssign => "<<=",
        RShiftAssign => ">>=",
    }
}
fn un(o: UnaryOp) -> &'static str {
    use UnaryOp::*;
    match o {
        Neg => "neg",
        Not => "not",
        BitNot => "bitnot",
        PreIncr => "pre++",
        PostIncr => "post++",
        PreDecr => "pre--",
        PostDecr => "post--",
        Reference => "ref",
        Dereference => "deref",
    }
}
fn args(a: &Option<Box<[Expression]>>) -> String {
    a.as_ref().map_or(String::new(), |a| format!(" ({})", list(a)))
}

pub fn term(t: &Term) -> String {
    match t {
        Term::Null => "null".into(),
        Term::Int(i) => format!("{i}"),
        Term::Float(f) => format!("{f:?}f"),
        Term::Ident(i) => i.to_string(),
        Term::String(s) => format!("{s:?}"),
        Term::Resource(s) => format!("'{s}'"),
        Term::As(t) => format!("(as {t})"),
        Term::__PROC__ => "__PROC__".into(),
        Term::__TYPE__ => "__TYPE__".into(),
        Term::__IMPLIED_TYPE__ => "__IMPLIED_TYPE__".into(),
        Term::Expr(e) => ex(e),
        Term::Prefab(p) => prefab(p),
        Term::InterpString(s, p) => format!("(interp {:?}{})", s.as_str(), p.iter().map(|(e, s)| format!(" {} {s:?}", opt(e))).collect::<String>()),
        Term::Call(n, a) => format!("({n}(){})", list(a)),
        Term::SelfCall(a) => format!("(.(){})", list(a)),
        Term::ParentCall(a) => format!("(..(){})", list(a)),
        Term::NewImplicit { args: a } => format!("(new{})", args(a)),
        Term::NewPrefab { prefab: p, args: a } => format!("(new {}{})", prefab(p), args(a)),
        Term::NewMiniExpr { expr, args: a } => {
            let f: String = expr.fields.iter().map(|f| format!("{}{}", kind(f.kind), f.ident)).collect();
            format!("(new {}{f}{})", expr.ident, args(a))
        },
        Term::List(a) => format!("(list{})", list(a)),
        Term::Input { args: a, input_type, in_list } => format!(
            "(input{} as {} in {})",
            list(a),
            input_type.map_or("-".into(), |t| t.to_string()),
            in_list.as_ref().map_or("-".into(), |e| ex(e))
        ),
        Term::Locate { args: a, in_list } => format!("(locate{} in {})", list(a), in_list.as_ref().map_or("-".into(), |e| ex(e))),
        Term::Pick(p) => format!("(pick{})", p.iter().map(|(w, v)| format!(" {};{}", opt(w), ex(v))).collect::<String>()),
        Term::DynamicCall(a, b) => format!("(call ({}) ({}))", list(a), list(b)),
        Term::ExternalCall { library, function, args: a } => {
            format!("(call_ext {} {}{})", library.as_ref().map_or("-".into(), |e| ex(e)), ex(function), list(a))
        },
        Term::GlobalIdent(i) => format!("(:: {i})"),
        Term::GlobalCall(i, a) => format!("(::{i}(){})", list(a)),
    }
}

pub fn ex(e: &Expression) -> String {
    match e {
        Expression::Base { term: t, follow } => {
            let mut s = term(&t.elem);
            for f in follow.iter() {
                s = match &f.elem {
                    Follow::Index(ListAccessKind::Normal, i) => format!("([] {s} {})", ex(i)),
                    Follow::Index(ListAccessKind::Safe, i) => format!("(?[] {s} {})", ex(i)),
                    Follow::Field(k, i) => format!("({} {s} {i})", kind(*k)),
                    Follow::Call(k, i, a) => format!("({}() {s} {i}{})", kind(*k), list(a)),
                    Follow::Unary(u) => format!("({} {s})", un(*u)),
                    Follow::StaticField(i) => format!("(:: {s} {i})"),
                    Follow::ProcReference(i) => format!("(::() {s} {i})"),
                };
            }
            s
        },
        Expression::BinaryOp { op, lhs, rhs } => format!("({} {} {})", bin(*op), ex(lhs), ex(rhs)),
        Expression::AssignOp { op, lhs, rhs } => format!("({} {} {})", asg(*op), ex(lhs), ex(rhs)),
        Expression::TernaryOp { cond, if_, else_ } => format!("(? {} {} {})", ex(cond), ex(if_), ex(else_)),
    }
}

fn var_type(v: &VarType) -> String {
    let f = &v.flags;
    let mut s = String::new();
    for (on, n) in [
        (f.is_static(), "static/"),
        (f.is_const(), "const/"),
        (f.is_tmp(), "tmp/"),
        (f.is_final(), "final/"),
        (f.is_private(), "private/"),
        (f.is_protected(), "protected/"),
    ] {
        if on {
            s += n;
        }
    }
    s + &v.type_path.iter().map(|x| format!("{x}/")).collect::<String>()
}
fn var_stmt(v: &VarStatement) -> String {
    format!("{}{}={}", var_type(&v.var_type), v.name, opt(&v.value))
}
fn opt_type(v: &Option<VarType>) -> String {
    v.as_ref().map_or("-".into(), |v| format!("var/{}", var_type(v)))
}
fn label(i: &Option<Ident>) -> String {
    i.as_ref().map_or(String::new(), |i| format!(" {i}"))
}

pub fn block(b: &[Spanned<Statement>]) -> String {
    format!("{{{}}}", b.iter().map(|s| stmt(&s.elem)).collect::<Vec<_>>().join(" "))
}

pub fn stmt(s: &Statement) -> String {
    match s {
        Statement::Expr(e) => format!("[{}]", ex(e)),
        Statement::Return(e) => format!("(return {})", opt(e)),
        Statement::Throw(e) => format!("(throw {})", ex(e)),
        Statement::While { condition, block: b } => format!("(while {} {})", ex(condition), block(b)),
        Statement::DoWhile { block: b, condition } => format!("(do {} {})", block(b), ex(&condition.elem)),
        Statement::If { arms, else_arm } => format!(
            "(if{}{})",
            arms.iter().map(|(c, b)| format!(" {} {}", ex(&c.elem), block(b))).collect::<String>(),
            else_arm.as_ref().map_or(String::new(), |b| format!(" else {}", block(b)))
        ),
        Statement::ForInfinite { block: b } => format!("(for {})", block(b)),
        Statement::ForLoop { init, test, inc, block: b } => format!(
            "(for3 {} {} {} {})",
            init.as_ref().map_or("-".into(), |s| stmt(s)),
            test.as_ref().map_or("-".into(), |e| ex(e)),
            inc.as_ref().map_or("-".into(), |s| stmt(s)),
            block(b)
        ),
        Statement::ForList(f) => format!(
            "(forin {} {} as {} {} {})",
            opt_type(&f.var_type),
            f.name,
            f.input_type.map_or("-".into(), |t| t.to_string()),
            opt(&f.in_list),
            block(&f.block)
        ),
        Statement::ForKeyValue(f) => format!(
            "(forkv {} {} as {} {} {} {})",
            opt_type(&f.var_type),
            f.key,
            f.key_input_type.map_or("-".into(), |t| t.to_string()),
            f.value,
            opt(&f.in_list),
            block(&f.block)
        ),
        Statement::ForRange(f) => format!("(forrange {} {} {} {} {} {})", opt_type(&f.var_type), f.name, ex(&f.start), ex(&f.end), opt(&f.step), block(&f.block)),
        Statement::Var(v) => format!("(var {})", var_stmt(v)),
        Statement::Vars(v) => format!("(vars{})", v.iter().map(|v| format!(" {}", var_stmt(v))).collect::<String>()),
        Statement::Setting { name, mode, value } => format!(
            "(set {name} {} {})",
            match mode {
                SettingMode::Assign => "=",
                SettingMode::In => "in",
            },
            ex(value)
        ),
        Statement::Spawn { delay, block: b } => format!("(spawn {} {})", opt(delay), block(b)),
        Statement::Switch { input, cases, default } => format!(
            "(switch {}{}{})",
            ex(input),
            cases
                .iter()
                .map(|(c, b)| format!(
                    " ({}) {}",
                    c.elem
                        .iter()
                        .map(|c| match c {
                            Case::Exact(e) => ex(e),
                            Case::Range(a, b) => format!("{}..{}", ex(a), ex(b)),
                        })
                        .collect::<Vec<_>>()
                        .join(","),
                    block(b)
                ))
                .collect::<String>(),
            default.as_ref().map_or(String::new(), |b| format!(" else {}", block(b)))
        ),
        Statement::TryCatch { try_block, catch_params, catch_block } => format!(
            "(try {} ({}) {})",
            block(try_block),
            catch_params.iter().map(|p| p.iter().map(|i| format!("/{i}")).collect::<String>()).collect::<Vec<_>>().join(","),
            block(catch_block)
        ),
        Statement::Continue(l) => format!("(continue{})", label(l)),
        Statement::Break(l) => format!("(break{})", label(l)),
        Statement::Goto(l) => format!("(goto {l})"),
        Statement::Label { name, block: b } => format!("(label {name} {})", block(b)),
        Statement::Del(e) => format!("(del {})", ex(e)),
        Statement::Crash(e) => format!("(crash {})", opt(e)),
    }
}
