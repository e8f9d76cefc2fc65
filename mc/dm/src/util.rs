use dm::lexer::{LocatedToken, Token};
use dm::{Context, Severity};

pub fn has_errors(ctx: &Context) -> bool {
    ctx.errors().iter().any(|e| e.severity() == Severity::Error)
}

pub fn errors_text(ctx: &Context) -> Vec<String> {
    ctx.errors()
        .iter()
        .map(|e| format!("{}:{}: {:?}: {}", e.location().line, e.location().column, e.severity(), e.description()))
        .collect()
}

#[allow(dead_code)]
pub fn show_tokens(t: &[LocatedToken]) -> String {
    t.iter().map(|t| format!("{:?}@{}:{}", t.token, t.location.line, t.location.column)).collect::<Vec<_>>().join(" ")
}

#[allow(dead_code)]
pub fn tok_eq(a: &Token, b: &Token) -> bool {
    match (a, b) {
        (Token::Float(x), Token::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}
