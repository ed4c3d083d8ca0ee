//! Model syntax: templates as trees, printed to template source.
use crate::val::V;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Num(usize),
    Id(String),
}
#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    Var(Vec<P>),
    Cmd(String, Vec<E>),
    List(Vec<E>),
    Map(Vec<(String, E)>),
}
#[derive(Clone, Debug)]
pub enum Pt {
    Any,
    Val(V),
    List(Vec<Pt>),
    Map(Vec<(String, Pt)>),
    Filter(E),
    Cap(String, Option<Box<Pt>>),
}
#[derive(Clone, Debug)]
pub enum It {
    Text(String),
    Comment(String),
    Exp(E),
    If(Vec<(E, Vec<It>)>, Option<Vec<It>>),
    For(String, String, E, Vec<It>),
    Let(Vec<(String, E)>),
    Export(Vec<(String, E)>),
    AtLet(String, Vec<It>),
    AtExport(String, Vec<It>),
    Define(String, Vec<String>, Vec<It>),
    Global(String, Vec<String>, Vec<It>),
    Return(E),
    Switch(E, Vec<(Vec<Pt>, Vec<It>)>),
    As(E, Pt, Vec<It>),
    Block(String, Vec<E>, Vec<It>),
}
/// a template value
#[derive(Clone, Debug)]
pub struct Tm {
    pub pnames: Vec<String>,
    pub body: Vec<It>,
}

// ---- constructors
pub fn s(x: &str) -> E {
    E::Lit(V::s(x))
}
pub fn u(n: u64) -> E {
    E::Lit(V::UInt(n))
}
pub fn lit(v: V) -> E {
    E::Lit(v)
}
/// "a.b.0" or "0"
pub fn var(x: &str) -> E {
    E::Var(path(x))
}
pub fn path(x: &str) -> Vec<P> {
    x.split('.').map(|p| p.parse().map(P::Num).unwrap_or_else(|_| P::Id(p.to_string()))).collect()
}
pub fn cmd(c: &str, a: &[E]) -> E {
    E::Cmd(c.to_string(), a.to_vec())
}
pub fn text(x: &str) -> It {
    It::Text(x.to_string())
}
pub fn tm(pnames: &[&str], body: Vec<It>) -> Arc<Tm> {
    Arc::new(Tm { pnames: pnames.iter().map(|s| s.to_string()).collect(), body })
}

// ---- printing
pub fn ident(o: &mut String, s: &str) {
    let plain = s.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    if plain && !["true", "false", "null"].contains(&s) {
        o.push_str(s)
    } else {
        o.push('\'');
        o.push_str(s);
        o.push('\'');
    }
}
pub fn strlit(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn litv(o: &mut String, v: &V) {
    match v {
        V::Null => o.push_str("null"),
        V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        V::Str(s) => strlit(o, s),
        V::UInt(n) => o.push_str(&n.to_string()),
        V::Int(n) if *n < 0 => o.push_str(&n.to_string()),
        V::Int(0) => o.push_str("-0"),
        V::Int(n) => panic!("Int({}) has no literal", n),
        V::Float(f) => o.push_str(&format!("{:?}", f)),
        V::Date(y, m, d) => o.push_str(&format!("{}/{}/{}", d, m, y)),
        V::List(l) => {
            o.push('[');
            for (n, x) in l.iter().enumerate() {
                if n > 0 {
                    o.push(' ')
                }
                litv(o, x);
            }
            o.push(']');
        }
        V::Map(m) => {
            o.push('{');
            for (n, (k, x)) in m.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ")
                }
                strlit(o, k);
                o.push(':');
                litv(o, x);
            }
            o.push('}');
        }
        V::Bytes(_) | V::Tmpl(_) => panic!("no literal"),
    }
}
fn var_part(o: &mut String, p: &P) {
    match p {
        P::Num(n) => o.push_str(&n.to_string()),
        P::Id(s) => ident(o, s),
    }
}
pub fn expr(o: &mut String, e: &E, nested: bool) {
    match e {
        E::Lit(v) => litv(o, v),
        E::Var(p) => {
            if p.len() == 1 && p[0] == P::Id("@".into()) {
                o.push('@');
                return;
            }
            o.push('$');
            for (n, x) in p.iter().enumerate() {
                if n > 0 {
                    o.push('.')
                }
                var_part(o, x);
            }
        }
        E::Cmd(c, a) => {
            if nested {
                o.push('(')
            }
            ident(o, c);
            for x in a {
                o.push(' ');
                expr(o, x, true);
            }
            if nested {
                o.push(')')
            }
        }
        E::List(l) => {
            o.push('[');
            for (n, x) in l.iter().enumerate() {
                if n > 0 {
                    o.push(' ')
                }
                expr(o, x, true);
            }
            o.push(']');
        }
        E::Map(l) => {
            o.push('{');
            for (n, (k, x)) in l.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ")
                }
                ident(o, k);
                o.push(':');
                expr(o, x, true);
            }
            o.push('}');
        }
    }
}
pub fn pat(o: &mut String, p: &Pt) {
    match p {
        Pt::Any => o.push('_'),
        Pt::Val(v) => litv(o, v),
        Pt::List(l) => {
            o.push('[');
            for (n, x) in l.iter().enumerate() {
                if n > 0 {
                    o.push(' ')
                }
                pat(o, x);
            }
            o.push(']');
        }
        Pt::Map(l) => {
            o.push('{');
            for (n, (k, x)) in l.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ")
                }
                ident(o, k);
                match x {
                    Pt::Cap(c, None) if c == k => {}
                    x => {
                        o.push(':');
                        pat(o, x);
                    }
                }
            }
            o.push('}');
        }
        Pt::Filter(e) => {
            o.push_str("?(");
            expr(o, e, false);
            o.push(')');
        }
        Pt::Cap(c, None) => {
            o.push('<');
            ident(o, c);
            o.push('>');
        }
        Pt::Cap(c, Some(p)) => {
            o.push('<');
            ident(o, c);
            o.push(':');
            pat(o, p);
            o.push('>');
        }
    }
}
fn assigns(o: &mut String, kw: &str, v: &[(String, E)]) {
    o.push_str("{{");
    o.push_str(kw);
    for (n, (k, e)) in v.iter().enumerate() {
        o.push_str(if n == 0 { " " } else { "; " });
        ident(o, k);
        o.push_str(" = ");
        expr(o, e, false);
    }
    o.push_str("}}");
}
fn define(o: &mut String, kw: &str, n: &str, p: &[String], b: &[It]) {
    o.push_str("{{");
    o.push_str(kw);
    o.push(' ');
    ident(o, n);
    for x in p {
        o.push(' ');
        ident(o, x);
    }
    o.push_str("}}");
    items(o, b);
    o.push_str("{{/");
    o.push_str(kw);
    o.push_str("}}");
}
pub fn items(o: &mut String, l: &[It]) {
    for i in l {
        item(o, i)
    }
}
pub fn item(o: &mut String, i: &It) {
    match i {
        It::Text(s) => {
            // the text must denote itself
            for c in s.chars() {
                if c == '{' || c == '\\' {
                    o.push('\\');
                }
                o.push(c);
            }
        }
        It::Comment(c) => {
            o.push_str("{{#");
            o.push_str(c);
            o.push_str("#}}");
        }
        It::Exp(e) => {
            o.push_str("{{");
            let t = expr_src(e);
            if t.starts_with('-') {
                o.push(' ');
            }
            o.push_str(&t);
            o.push_str("}}");
        }
        It::If(arms, no) => {
            for (n, (c, b)) in arms.iter().enumerate() {
                o.push_str(if n == 0 { "{{if " } else { "{{elif " });
                expr(o, c, false);
                o.push_str("}}");
                items(o, b);
            }
            if let Some(b) = no {
                o.push_str("{{else}}");
                items(o, b);
            }
            o.push_str("{{/if}}");
        }
        It::For(k, v, e, b) => {
            o.push_str("{{for ");
            ident(o, k);
            o.push(' ');
            ident(o, v);
            o.push_str(" in ");
            expr(o, e, false);
            o.push_str("}}");
            items(o, b);
            o.push_str("{{/for}}");
        }
        It::Let(v) => assigns(o, "let", v),
        It::Export(v) => assigns(o, "export", v),
        It::AtLet(n, b) => {
            o.push_str("{{@let ");
            ident(o, n);
            o.push_str("}}");
            items(o, b);
            o.push_str("{{/let}}");
        }
        It::AtExport(n, b) => {
            o.push_str("{{@export ");
            ident(o, n);
            o.push_str("}}");
            items(o, b);
            o.push_str("{{/export}}");
        }
        It::Define(n, p, b) => define(o, "define", n, p, b),
        It::Global(n, p, b) => define(o, "global", n, p, b),
        It::Return(e) => {
            o.push_str("{{return ");
            expr(o, e, false);
            o.push_str("}}");
        }
        It::Switch(e, cases) => {
            o.push_str("{{switch ");
            expr(o, e, false);
            o.push_str("}}");
            for (ps, b) in cases {
                o.push_str("{{case");
                for p in ps {
                    o.push(' ');
                    pat(o, p);
                }
                o.push_str("}}");
                items(o, b);
            }
            o.push_str("{{/switch}}");
        }
        It::As(e, p, b) => {
            o.push_str("{{as ");
            expr(o, e, true);
            o.push_str(" : ");
            pat(o, p);
            o.push_str("}}");
            items(o, b);
            o.push_str("{{/as}}");
        }
        It::Block(c, a, b) => {
            o.push_str("{{@");
            ident(o, c);
            for x in a {
                o.push(' ');
                expr(o, x, true);
            }
            o.push_str("}}");
            items(o, b);
            o.push_str("{{/");
            ident(o, c);
            o.push_str("}}");
        }
    }
}
pub fn source(l: &[It]) -> String {
    let mut o = String::new();
    items(&mut o, l);
    o
}
pub fn expr_src(e: &E) -> String {
    let mut o = String::new();
    expr(&mut o, e, false);
    o
}
