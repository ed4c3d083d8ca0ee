//! C09 expressions, C10 literals and display, C11 access to data of other types.
use crate::ast::*;
use crate::common::*;
use crate::ctl::{kinds, l, probe, show};
use crate::engine::*;
use crate::gen::*;
use crate::val::V;

fn tr(e: E) -> E {
    cmd("trace", &[e])
}
fn fail(x: &str) -> E {
    cmd("fail", &[s(x)])
}
fn ex(e: E) -> Case {
    Case::new(vec![text("<"), It::Exp(e), text(">")])
}

/// One way to write an expression down
#[derive(Clone, Copy)]
pub struct Style {
    sep: usize,
    pad: bool,
    comma: usize,
    quote: bool,
    strkey: bool,
    dot: bool,
    tail: bool,
    raw: bool,
}
pub const STYLES: u64 = 6 * 2 * 3 * 2 * 2 * 2 * 2 * 2;
pub fn style(i: u64) -> Style {
    let mut d = Digits(i);
    Style {
        sep: d.take(6) as usize,
        pad: d.take(2) == 1,
        comma: d.take(3) as usize,
        quote: d.take(2) == 1,
        strkey: d.take(2) == 1,
        dot: d.take(2) == 1,
        tail: d.take(2) == 1,
        raw: d.take(2) == 1,
    }
}
fn ident_st(st: &Style, n: &str) -> String {
    let mut o = String::new();
    if st.quote {
        format!("'{}'", n)
    } else {
        ident(&mut o, n);
        o
    }
}
fn lit_st(st: &Style, v: &V) -> String {
    match v {
        V::Str(x) if st.raw && !x.contains("\"#") => format!("r#\"{}\"#", x),
        V::List(v) => seq_st(st, "[", v.iter().map(|x| lit_st(st, x)).collect(), "]", st.comma),
        v => {
            let mut o = String::new();
            litv(&mut o, v);
            o
        }
    }
}
fn join_st(st: &Style, v: &[String]) -> String {
    let mut o = String::new();
    for x in v {
        if o.is_empty() {
            o.push_str(x);
            continue;
        }
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '\'';
        let a = o.chars().last().unwrap();
        let b = x.chars().next().unwrap();
        let sep = [" ", "  ", "\n", "\t ", "\r\n", ""][st.sep];
        // without space only where the pieces cannot run together
        if sep.is_empty() && (b == '.' || (word(a) && (word(b) || b == '-'))) {
            o.push(' ');
        } else {
            o.push_str(sep);
        }
        o.push_str(x);
    }
    o
}
fn seq_st(st: &Style, a: &str, v: Vec<String>, b: &str, comma: usize) -> String {
    let pad = if st.pad { [" ", "\n", "\t", "  ", "\r\n", " "][st.sep] } else { "" };
    let inner = match comma {
        0 => join_st(st, &v),
        1 => v.join(","),
        _ => v.join(if st.pad { "\n,\t" } else { ", " }),
    };
    format!("{}{}{}{}{}", a, pad, inner, pad, b)
}
/// inside = 0 top, 1 an argument or element, 2 the last argument (may go without brackets)
pub fn styled(st: &Style, e: &E, inside: u8) -> String {
    match e {
        E::Lit(v) => lit_st(st, v),
        E::Var(p) => {
            if p.len() == 1 && p[0] == P::Id("@".into()) {
                return "@".into();
            }
            let part = |p: &P| match p {
                P::Num(n) => n.to_string(),
                P::Id(n) => ident_st(st, n),
            };
            if st.dot && p[0] == P::Num(0) && p.len() > 1 {
                return p[1..].iter().map(|x| format!(".{}", part(x))).collect();
            }
            format!("${}", p.iter().map(part).collect::<Vec<_>>().join("."))
        }
        E::Cmd(c, a) => {
            let mut v = vec![ident_st(st, c)];
            for (n, x) in a.iter().enumerate() {
                v.push(styled(st, x, if n + 1 == a.len() { 2 } else { 1 }));
            }
            let t = join_st(st, &v);
            if inside == 0 || (inside == 2 && st.tail) {
                t
            } else {
                seq_st(st, "(", vec![t], ")", 0)
            }
        }
        E::List(v) => seq_st(st, "[", v.iter().map(|x| styled(st, x, 1)).collect(), "]", st.comma),
        E::Map(v) => seq_st(
            st,
            "{",
            v.iter()
                .map(|(k, x)| {
                    let mut o = String::new();
                    if st.strkey {
                        strlit(&mut o, k);
                    } else {
                        o = ident_st(st, k);
                    }
                    format!("{}{}:{}{}", o, if st.pad { " " } else { "" }, if st.pad { "\n" } else { "" }, styled(st, x, 1))
                })
                .collect(),
            "}",
            st.comma.max(1),
        ),
    }
}

fn nested_data() -> V {
    V::map(&[
        ("a", V::map(&[("b", l(&[V::UInt(10), V::map(&[("c", V::s("deep")), ("a", V::Null)]), l(&[V::s("x"), l(&[V::s("y")])])])), ("a", V::s("aa")), ("0", V::s("zero key"))])),
        ("b", l(&[l(&[V::map(&[("a", V::UInt(1)), ("b", l(&[V::Bool(false)]))]), V::UInt(2)]), V::s("s"), V::map(&[("c", l(&[V::UInt(7), V::UInt(8), V::UInt(9)]))])])),
        ("c", V::s("text")),
        ("d", V::Null),
        ("e e", V::map(&[("é", V::UInt(5))])),
    ])
}

pub fn c09(t: Tier) -> Vec<Space> {
    // ---- every tree of depth 2
    let leaves = vec![u(1), s("a"), var("0"), var("9"), E::List(vec![])];
    let cmds = ["cat", "trace", "fail", "list", "first", "select", "add", "nosuch"];
    let lv = of(&leaves);
    fn level(sub: &G<E>, cmds: &[&str], max: u32) -> G<E> {
        let args = sub.seq(0, max);
        let c = of(&cmds.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        alt(vec![
            c.x(&args).map(|(c, a)| E::Cmd(c, a)),
            args.map(E::List),
            args.map(|a| E::Map(a.into_iter().enumerate().map(|(n, e)| (["p", "q", "r"][n].to_string(), e)).collect())),
        ])
    }
    let d1 = level(&lv, &cmds, 2);
    let sub = alt(vec![lv.clone(), d1.clone()]);
    let p = vec![V::s("P"), V::Null];
    let (p1, p2, p3) = (p.clone(), p.clone(), p.clone());
    let mut r = vec![cases("depth-1", "every command, list and map of up to 3 leaves", level(&lv, &cmds, 3).map(move |e| ex(e).params(&p1)))];
    r.push(cases("depth-2", "every expression tree of depth 2: 8 commands, lists and maps, up to 2 members, 5 leaves; output, error and the functions called", level(&sub, &cmds[..t.pick(6, 8)], 2).map(move |e| ex(e).params(&p2))));
    if t == Tier::Thorough {
        let d1 = level(&lv, &["trace", "fail", "first", "cat"], 1);
        let sub = alt(vec![lv.clone(), d1]);
        let d2 = level(&sub, &["trace", "first", "list"], 2);
        let top = of(&["trace".to_string(), "first".into(), "select".into(), "cat".into()]).x(&d2.x(&of(&leaves)));
        r.push(cases("depth-3", "depth-2 trees under each of 4 commands with a second argument", top.map(move |(c, (a, b))| ex(E::Cmd(c, vec![a, b])).params(&p3))));
        let small = alt(vec![lv.clone(), of(&["trace", "fail", "list"]).x(&lv).map(|(c, a)| cmd(c, &[a]))]);
        let p3 = vec![V::s("P"), V::Null];
        r.push(cases("wide", "select, first, trace, list of 3-5 simple arguments", fnames(&["select", "first", "trace", "list"]).x(&small.seq(3, 4)).map(move |(c, a)| ex(E::Cmd(c, a)).params(&p3))));
    }
    // ---- select
    let k = kinds();
    let n = k.len() as u64;
    let mut sels: Vec<E> = (0..n).map(|i| var(&i.to_string())).collect();
    sels.extend((0..12u64).map(u));
    sels.extend([lit(V::Int(-5)), lit(V::Float(1.0)), fail("sel"), var("nope"), cmd("trace", &[u(2)]), cmd("nosuch", &[])]);
    let opt = |i: usize, how: usize| match how {
        0 => tr(s(&format!("o{}", i))),
        1 => fail(&format!("o{}", i)),
        _ => var("nope"),
    };
    let kk = k.clone();
    r.push(cases(
        "select",
        "50 selectors of every kind x 0-6 (thorough 9) options, each option recorded, one of them failing: exactly the chosen option is evaluated",
        of(&sels).x(&of(&(0..=t.pick(6usize, 9)).collect::<Vec<_>>())).x(&of(&(0..=t.pick(6usize, 9)).collect::<Vec<_>>())).x(&of(&[1usize, 2])).map(move |(((c, n), bad), how)| {
            let mut a = vec![c];
            a.extend((0..n).map(|i| opt(i, if i == bad { how } else { 0 })));
            ex(E::Cmd("select".into(), a)).params(&kk)
        }),
    ));
    // ---- first
    let fs = vec![lit(V::Null), fail("f"), tr(s("v")), tr(lit(V::Null)), var("nope"), var("0"), lit(V::Bool(false)), cmd("nosuch", &[tr(u(1))]), E::List(vec![fail("in")])];
    r.push(cases("first", "first of every sequence of up to 5 (thorough 6) of 9 arguments: nothing after the first value is evaluated", of(&fs).seq(0, t.pick(5, 6)).map(|a| ex(E::Cmd("first".into(), a)).params(&[V::Null]))));
    let kk = k.clone();
    r.push(cases("first-kinds", "first of two values of all kinds", of(&(0..n).collect::<Vec<_>>()).seq(1, 2).map(move |a| ex(E::Cmd("first".into(), a.iter().map(|i| var(&i.to_string())).collect())).params(&kk))));
    // ---- paths
    let parts = vec![P::Num(0), P::Num(1), P::Num(2), P::Num(3), P::Id("a".into()), P::Id("b".into()), P::Id("c".into()), P::Id("e e".into()), P::Id("é".into()), P::Id("0".into())];
    r.push(cases(
        "paths",
        "every path of up to 4 (thorough 5) of 10 parts into nested data, from the parameter by number, by shorthand, by parameter name, and from a variable and a loop variable",
        of(&parts).seq(0, t.pick(4, 5)).x(&of(&[0usize, 1, 2, 3, 4])).map(|(p, how)| {
            let at = |b: P| {
                let mut v = vec![b];
                v.extend(p.clone());
                cmd("first", &[E::Var(v), s("none")])
            };
            let d = nested_data();
            match how {
                0 => ex(at(P::Num(0))).params(&[d]),
                1 => {
                    let e = at(P::Num(0));
                    let st = style(0);
                    let st = Style { dot: true, ..st };
                    let sr = format!("<{{{{{}}}}}>", styled(&st, &e, 0));
                    ex(e).params(&[d]).src(sr)
                }
                2 => ex(at(P::Id("d".into()))).pnames(&["c", "d", "a"]).params(&[V::s("x"), d, V::Null]),
                3 => Case::new(vec![It::Let(vec![("d".into(), var("1"))]), It::Exp(at(P::Id("d".into())))]).params(&[V::s("x"), d]),
                _ => Case::new(vec![It::For("k".into(), "d".into(), E::List(vec![var("0"), u(1)]), vec![It::Exp(at(P::Id("d".into()))), It::Exp(at(P::Id("k".into())))])]).params(&[d]),
            }
        }),
    ));
    r.push(cases(
        "missing",
        "a path that leads nowhere fails the whole run, wherever it is used",
        of(&parts).seq(0, 2).x(&of(&[0usize, 1, 2, 3, 4, 5])).map(|(p, how)| {
            let mut v = vec![P::Num(0)];
            v.extend(p);
            let e = E::Var(v);
            match how {
                0 => Case::new(vec![text("a"), It::Exp(e), text("b")]),
                1 => Case::new(vec![It::Exp(cmd("trace", &[s("1")])), It::Exp(cmd("cat", &[tr(s("x")), e, tr(s("y"))])), It::Exp(cmd("trace", &[s("2")]))]),
                2 => Case::new(vec![It::Exp(E::List(vec![tr(s("x")), e, tr(s("y"))]))]),
                3 => Case::new(vec![It::Exp(E::Map(vec![("k".into(), tr(s("x"))), ("l".into(), e), ("m".into(), tr(s("y")))]))]),
                4 => Case::new(vec![It::Let(vec![("q".into(), tr(s("x"))), ("r".into(), e), ("s".into(), tr(s("y")))]), text("t")]),
                _ => Case::new(vec![It::For("k".into(), "v".into(), e, vec![It::Exp(tr(var("v")))]), text("after")]),
            }
            .params(&[nested_data()])
        }),
    ));
    // ---- an error anywhere fails the whole run, what precedes it runs once and in order
    let st = vec![text("t"), It::Exp(tr(s("1"))), It::Exp(fail("f")), It::Let(vec![("x".into(), tr(s("2")))]), show("x"), It::Exp(cmd("nosuch", &[tr(s("3"))])), It::Exp(cmd("add", &[u(1), s("q")])), It::Comment("c".into()), It::If(vec![(fail("c"), vec![text("no")])], Some(vec![It::Exp(tr(s("4")))]))];
    r.push(cases("failure", "every sequence of up to 4 (thorough 5) of 9 statements, some of which fail: the run fails as a whole at the first failing statement", of(&st).seq(1, t.pick(4, 5)).map(Case::new)));
    // ---- the same expression however it is written
    let es: Vec<E> = vec![
        u(1), s("a b"), lit(V::Int(-7)), lit(V::Float(2.5)), lit(V::Bool(true)), lit(V::Null), lit(V::Date(2020, 12, 1)), var("0"), var("0.a.b.0"), var("0.a.b.1.c"), var("0.b.2.c.1"), var("1.0"), cmd("cat", &[]),
        cmd("cat", &[u(1)]), cmd("cat", &[u(1), s("b"), lit(V::Int(-3))]), cmd("cat", &[var("0.c"), var("1.0"), var("1.1")]), cmd("cat", &[cmd("cat", &[u(1), u(2)]), s("z")]), cmd("cat", &[s("z"), cmd("cat", &[u(1), u(2)])]),
        cmd("cat", &[cmd("cat", &[]), cmd("cat", &[cmd("cat", &[u(4)])])]), cmd("add", &[u(1), cmd("mul", &[u(2), cmd("sub", &[u(9), u(3)])])]), E::List(vec![]), E::List(vec![u(1), u(2), u(3)]), E::List(vec![E::List(vec![u(1)]), E::List(vec![]), s("x")]),
        E::List(vec![var("0.c"), lit(V::Null), cmd("cat", &[s("q"), u(1)]), lit(V::Float(0.5))]), E::Map(vec![]), E::Map(vec![("k".into(), u(1))]), E::Map(vec![("k".into(), u(1)), ("l".into(), E::List(vec![u(1), u(2)])), ("m".into(), E::Map(vec![("k".into(), var("0.c"))]))]),
        cmd("w_json", &[E::Map(vec![("a".into(), cmd("cat", &[u(1), u(2)])), ("b".into(), lit(V::Bool(false)))])]), cmd("w_json", &[E::List(vec![E::Map(vec![("x".into(), E::List(vec![]))]), s("]"), s(")")])]), cmd("first", &[lit(V::Null), var("0.zz"), cmd("fail", &[]), s("dflt")]),
        cmd("select", &[cmd("eq", &[u(1), u(1)]), s("yes"), s("no")]), cmd("select", &[u(2), s("zero"), s("one"), cmd("cat", &[s("t"), s("wo")])]), cmd("len", &[E::List(vec![lit(V::Float(1.5)), s("a"), var("0")])]), cmd("cat", &[s("}}"), s("{{"), s("#"), s("a\\n"), s("é漢🎉")]),
        cmd("cat", &[lit(V::Bool(true)), lit(V::Bool(false)), lit(V::Null), var("1.1")]), cmd("trace", &[E::List(vec![cmd("trace", &[u(1)]), cmd("trace", &[u(2)])]), cmd("trace", &[u(3)])]), cmd("get", &[var("0"), s("c")]), cmd("get", &[E::List(vec![s("p"), s("q")]), u(1)]),
        cmd("cat", &[lit(V::Date(2021, 2, 3)), lit(V::Date(1999, 11, 30))]), cmd("cat", &[var("0.e e.é"), var("1.0")]), cmd("run", &[s("nope")]),
    ];
    let ne = es.len() as u64;
    r.push(Space::new("spellings", "41 expressions x every spelling: separators (space, spaces, newline, tab, none), padding in brackets, commas, quoted names, string keys, .x, last command unbracketed, raw strings; as tag, in let, as condition argument", ne * STYLES * 3, move |i, cx| {
        let mut d = Digits(i);
        let e = es[d.take(ne) as usize].clone();
        let st = style(d.take(STYLES));
        let t = styled(&st, &e, 0);
        let t1 = styled(&st, &e, 1);
        let ps = [nested_data(), l(&[V::s("one"), V::UInt(2)])];
        match d.take(3) {
            0 => Case::new(vec![text("<"), It::Exp(e), text(">")]).src(format!("<{{{{ {} }}}}>", t)),
            1 => Case::new(vec![It::Let(vec![("v".into(), e)]), show("v")]).src(format!("{{{{let v = {}}}}}{{{{$v}}}}", t)),
            _ => Case::new(vec![It::Exp(cmd("cat", &[s("<"), e, s(">")]))]).src(format!("{{{{cat \"<\" {} \">\"}}}}", t1)),
        }
        .params(&ps)
        .check(cx)
    }));
    // ---- brackets around brackets
    r.push(Space::new("brackets", "an expression in up to 12 pairs of brackets with up to 3 spaces", 13 * 4 * 8, |i, cx| {
        let mut d = Digits(i);
        let (n, sp) = (d.take(13) as usize, d.take(4) as usize);
        let e = [u(5), s("x"), var("0"), cmd("cat", &[u(1), u(2)]), E::List(vec![u(1)]), E::Map(vec![("a".into(), u(1))]), lit(V::Bool(true)), cmd("cat", &[])][d.take(8) as usize].clone();
        let b = " ".repeat(sp);
        let t = format!("{}{}{}", format!("({}", b).repeat(n), expr_src(&e), format!("{})", b).repeat(n));
        let a = Case::new(vec![It::Exp(e.clone())]).src(format!("{{{{{}}}}}", t)).params(&[V::s("P")]);
        a.check(cx)?;
        if n == 0 {
            return Ok(());
        }
        Case::new(vec![It::Exp(cmd("list", &[e, u(9)]))]).src(format!("{{{{list {} 9}}}}", t)).params(&[V::s("P")]).check(cx)
    }));
    // ---- ladders
    let top = t.pick(70u64, 200);
    r.push(Space::new("arity-ladder", "n arguments, n list members, n map entries, n parameters, n path parts, n characters, n up to 70 (thorough 200)", (top + 1) * 9, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1);
        let args: Vec<E> = (0..n).map(|k| if k % 5 == 4 { s(&format!("s{}", k)) } else { u(k) }).collect();
        match d.take(9) {
            0 => ex(E::Cmd("cat".into(), args)),
            1 => ex(E::List(args)),
            2 => ex(cmd("w_json", &[E::Map(args.into_iter().enumerate().map(|(k, e)| (format!("k{}", k), e)).collect())])),
            3 => {
                let ps: Vec<V> = (0..n).map(|k| V::s(&format!("p{}", k))).collect();
                Case::new((0..=n).map(|k| It::Exp(cmd("first", &[var(&k.to_string()), s("-")]))).collect()).params(&ps)
            }
            4 => {
                let ps: Vec<V> = (0..n).map(|k| V::s(&format!("v{}", k))).collect();
                let names: Vec<String> = (0..n).map(|k| format!("n{}", k)).collect();
                let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
                Case::new((0..=n).map(|k| probe(&format!("n{}", k))).collect()).pnames(&names).params(&ps)
            }
            5 => {
                let mut v = V::s("end");
                let mut p = vec![];
                for k in 0..n {
                    if k % 2 == 0 {
                        v = V::map(&[("k", v)]);
                        p.push(P::Id("k".into()));
                    } else {
                        v = l(&[V::Null, v]);
                        p.push(P::Num(1));
                    }
                }
                p.push(P::Num(0));
                p.reverse();
                ex(cmd("list", &[E::Var(p.clone()), cmd("first", &[E::Var([p, vec![P::Num(0)]].concat()), s("no")])])).params(&[v])
            }
            6 => ex(s(&"xé\"\\\n".chars().cycle().take(n as usize).collect::<String>())),
            7 => ex(cmd("first", &(0..n).map(|k| if k % 2 == 0 { lit(V::Null) } else { fail("x") }).chain([s("found"), tr(s("not called"))]).collect::<Vec<_>>())),
            _ => ex(cmd("select", &[vec![u(n)], (0..n + 1).map(|k| if k == n { s("this") } else { fail("not called") }).collect()].concat())),
        }
        .check(cx)
    }));
    let top = t.pick(40u64, 64);
    r.push(Space::new("nesting-ladder", "commands, lists and maps nested n deep, n up to 40 (thorough 64), bracketed and not", (top + 1) * 6, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1);
        let how = d.take(6);
        let mut e = u(7);
        for k in 0..n {
            e = match how {
                0 | 1 => cmd("cat", &[s("("), e]),
                2 => E::List(vec![e]),
                3 => E::Map(vec![("m".into(), e)]),
                4 => match k % 3 {
                    0 => cmd("list", &[e, u(k)]),
                    1 => E::List(vec![u(k), e]),
                    _ => E::Map(vec![("a".into(), u(k)), ("m".into(), e)]),
                },
                _ => cmd("first", &[lit(V::Null), e]),
            };
        }
        let st = Style { tail: how == 1, ..style(0) };
        let sr = format!("{{{{{}}}}}", styled(&st, &e, 0));
        Case::new(vec![It::Exp(e)]).src(sr).check(cx)
    }));
    r.extend(crate::kinds::c09(t));
    r
}

// ------------------------------------------------------------------ C10
/// the value a template gives to the text of a literal
fn read_export(cx: &Ctx, text: &str) -> Real<V> {
    match real_src(&format!("{{{{export v = {}}}}}", text), &[], &cx.fm) {
        Real::Ok((_, m)) => match m.get("v") {
            Some(v) => Real::Ok(v.clone()),
            None => Real::Err("no export".into()),
        },
        Real::Err(e) => Real::Err(e),
        Real::Panic(p) => Real::Panic(p),
    }
}
/// the literal denotes this value in templates and in data text (None: it is rejected in templates)
fn check_lit(cx: &mut Ctx, text: &str, want: Option<&V>) -> Res {
    let got = read_export(cx, text);
    cx.trace();
    cx.trans(1);
    let w = want.map(|v| v.canon());
    cx.state(&w);
    cx.sample(|| format!("{:?} denotes {:?}", text, w));
    let key = format!("literal {:?}", text);
    match (want, &got) {
        (None, Real::Err(_)) => {}
        (Some(a), Real::Ok(b)) if a.same(b) => cx.nontrivial(),
        _ => return viol(key, format!("the literal denotes {}; a template reads {}", w.unwrap_or("nothing".into()), rv(&got))),
    }
    if let Some(a) = want {
        let d = real(|| templito::TData::from_str(text)).map(|t| V::of(&t));
        cx.trace();
        match &d {
            Real::Ok(b) if a.same(b) => {}
            _ => return viol(key, format!("the literal denotes {}; as data it is {}", a.canon(), rv(&d))),
        }
        // and in the middle of other arguments
        let o = real_src(&format!("{{{{w_json [0,{} ,0]}}}}{{{{cat \"<\" {} \">\"}}}}{{{{eq {} {}}}}}", text, text, text, text), &[], &cx.fm).map(|x| x.0);
        let e = format!("[0,{},0]<{}>{}", crate::mfun::w_json(a), a.show(), a.eq(a));
        cx.trace();
        if o != Real::Ok(e.clone()) {
            return viol(key, format!("as an argument: expected {:?}, got {:?}", e, o));
        }
    }
    Ok(())
}
fn space_lit(name: &str, bounds: &str, g: G<(String, Option<V>)>) -> Space {
    Space::new(name, bounds, g.n, move |i, cx| {
        let (t, v) = g.at(i);
        check_lit(cx, &t, v.as_ref())
    })
}
fn int_lit(t: &str) -> Option<V> {
    let n: i128 = t.replace('_', "").parse().ok()?;
    if t.starts_with('-') {
        i64::try_from(n).ok().map(V::Int)
    } else {
        u64::try_from(n).ok().map(V::UInt)
    }
}
fn month_len(y: i64, m: u64) -> u64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 31,
    }
}
const MONTHS: [&str; 12] = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"];

pub fn c10(t: Tier) -> Vec<Space> {
    // ---- integers
    let mut ints: Vec<String> = vec![];
    for k in 0..=70u32 {
        let p = 1i128 << k;
        for d in -3..=3i128 {
            ints.push((p + d).to_string());
            ints.push((-(p + d)).to_string());
        }
    }
    for k in 0..=25u32 {
        let p = 10i128.pow(k);
        for d in -2..=2i128 {
            ints.push((p * 9 + d).to_string());
            ints.push((-(p + d)).to_string());
            ints.push(format!("00{}", (p + d).abs()));
        }
    }
    ints.extend(["1_000", "1__0", "12_345_678", "18_446_744_073_709_551_615", "18_446_744_073_709_551_616", "-9_223_372_036_854_775_808", "-9_223_372_036_854_775_809", "340282366920938463463374607431768211456", "-0", "000", "-000"].iter().map(|s| s.to_string()));
    ints.sort();
    ints.dedup();
    ints.retain(|x| !x.starts_with("--"));
    let gi = of(&ints).map(|s| {
        let v = int_lit(&s);
        (s, v)
    });
    let mut r = vec![space_lit("integers", "2^k and 10^k +-3 for all k past the largest integer, both signs, leading zeros, underscores: exact or rejected", gi)];
    let small = t.pick(20_000u64, 200_000);
    r.push(space_lit("small-integers", "every integer to +-10000 (thorough 100000)", G::new(small, move |i| {
        let s = format!("{}{}", if i % 2 == 0 { "" } else { "-" }, i / 2);
        let v = int_lit(&s);
        (s, v)
    })));
    // ---- decimals
    let ip = of(&["0", "1", "7", "10", "99", "123", "007", "9007199254740993", "18446744073709551615", "18446744073709551616", "179769313486231580793", "1_0"].map(|s| s.to_string()));
    let digits: Vec<String> = "0159".chars().map(|c| c.to_string()).collect();
    let fr = alt(vec![of(&digits).seq(0, t.pick(3, 5)).map(|v| v.concat()), of(&["333333333333333333", "000000000000000000001", "49999999999999994", "50000000000000000000000001", "1_5"].map(|s| s.to_string()))]);
    let xs: Vec<String> = ["", "e0", "e1", "e-1", "E+5", "e15", "e22", "e23", "e-7", "e-30", "e308", "e309", "e-308", "e-324", "e-325", "e400", "E3"].iter().map(|s| s.to_string()).collect();
    r.push(space_lit(
        "decimals",
        "12 integer parts x every fraction of up to 3 (thorough 5) of 4 digits and 5 long ones, or none x 17 exponents x sign: the nearest double",
        of(&["".to_string(), "-".into()]).x(&ip).x(&fr.opt()).x(&of(&xs)).map(|(((sg, ip), fr), x)| {
            if fr.is_none() && x.is_empty() {
                let s = format!("{}{}", sg, ip);
                let v = int_lit(&s);
                return (s, v);
            }
            let s = format!("{}{}{}{}", sg, ip, fr.map_or(String::new(), |f| format!(".{}", f)), x);
            let v = V::Float(s.replace('_', "").parse().unwrap());
            (s, Some(v))
        }),
    ));
    // ---- dates
    let mut ms: Vec<(String, u64)> = (0..=14u64).map(|m| (m.to_string(), m)).collect();
    ms.extend(MONTHS.iter().enumerate().map(|(n, m)| (m.to_string(), n as u64 + 1)));
    ms.extend((1..=9u64).map(|m| (format!("0{}", m), m)));
    let mut ys: Vec<i64> = vec![1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2019, 2020, 2023, 2024, 2026, 2038, 2100, 2400, 9999];
    if t == Tier::Quick {
        ys = vec![4, 100, 400, 1900, 1999, 2000, 2020, 2023, 2100, 9999];
    }
    r.push(space_lit(
        "dates",
        "days 0-33 x 15 month numbers, 12 names, 9 with leading zero x 10 (thorough 26) years x leading zero of the day: the calendar day or rejected",
        of(&(0..=33u64).collect::<Vec<_>>()).x(&of(&ms)).x(&of(&ys)).x(&of(&[false, true])).map(|(((d, (ms, m)), y), z)| {
            let s = format!("{}{}/{}/{}", if z { "0" } else { "" }, d, ms, y);
            let ok = d >= 1 && m >= 1 && m <= 12 && d <= month_len(y, m);
            (s, if ok { Some(V::Date(y as i32, m as u32, d as u32)) } else { None })
        }),
    ));
    let bad: Vec<(String, Option<V>)> = [
        "1/january/2020", "1/Jan/2020", "1/13/2020", "1/1/99999999999", "1/1/4294969316", "4294967297/1/2020", "1/4294967297/2020", "1/18446744073709551617/2020", "18446744073709551617/1/2020", "1/1/18446744073709551616", "29/2/1900", "30/feb/2020", "31/apr/2020", "1//2020", "1/1/", "/1/2020",
        "1.", "-", "--1", "1e", "1e+", "1.5e", "0x10", "1a", "1.5x", "\"", "\"a", "a\"", "\"a\\\"", "r#\"", "r#\"a\"", "r#\"a#", "[", "]", "[1", "[1,", "[1,,2]", "[,1]", "1]", "{", "}", "{\"a\"}", "{\"a\":}", "{\"a\":1", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{1:2}", "{:1}", "\"\\q\"",
        "\"\\u12\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\ud800x\"", "\"\\uD83D\\uD83D\"", "\"\\u00g0\"", "\"\\x41\"", "\"\\'\"", "\"\\0\"", "[1}", "{\"a\":1]", "", " ", ",", "@ @",
    ]
    .iter()
    .map(|s| (s.to_string(), if *s == "1." { Some(V::Float(1.0)) } else { None }))
    .collect();
    r.push(space_lit("malformed", "63 malformed literals are rejected", of(&bad)));
    // ---- strings
    let toks: Vec<(&str, &str)> = vec![
        ("a", "a"), ("é", "é"), ("漢🎉", "漢🎉"), ("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\\"", "\""), ("\\\\", "\\"), ("\\/", "/"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\u00e9", "é"), ("\\u0041", "A"), ("\\ud83d\\ude00", "😀"), ("\n", "\n"), ("{{", "{{"), ("}}", "}}"),
        ("#", "#"), ("'", "'"), ("-}}", "-}}"), (" ", " "), ("\\u0000", "\0"), ("n", "n"), ("u0041", "u0041"),
    ];
    let gs = of(&toks).seq(0, t.pick(3, 4)).map(|v| {
        let s: String = v.iter().map(|x| x.0).collect();
        let o: String = v.iter().map(|x| x.1).collect();
        (format!("\"{}\"", s), Some(V::Str(o)))
    });
    r.push(space_lit("strings", "every string of up to 3 (thorough 4) of 24 characters and escapes", gs));
    r.push(space_lit("unicode", "\\u escapes: every one of the 65536 codes in lower and upper case; surrogates alone are rejected", G::new(65536 * 2, move |i| {
        let c = (i / 2) as u32;
        let h = if i % 2 == 0 { format!("{:04x}", c) } else { format!("{:04X}", c) };
        (format!("\"<\\u{}>\"", h), char::from_u32(c).map(|c| V::Str(format!("<{}>", c))))
    })));
    r.push(space_lit("surrogates", "surrogate pairs at the edges of each range (thorough: every pair)", {
        let hi: Vec<u32> = t.pick(vec![0xd800u32, 0xd801, 0xd83d, 0xdbfe, 0xdbff], (0xd800..0xdc00).collect());
        let lo: Vec<u32> = t.pick(vec![0xdc00u32, 0xdc01, 0xde00, 0xdffe, 0xdfff], (0xdc00..0xe000).collect());
        of(&hi).x(&of(&lo)).map(|(h, l)| (format!("\"\\u{:04x}\\u{:04X}\"", h, l), char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).map(|c| V::Str(c.to_string()))))
    }));
    let rt = ["a", "\"", "#", "\\", "\n", "}}", "{{", "\\n", "é", "'"].map(|s| s.to_string());
    r.push(space_lit("raw-strings", "every raw string of up to 4 (thorough 5) of 10 pieces without the terminator", of(&rt).seq(0, t.pick(4, 5)).map(|v| {
        let mut s = v.concat();
        // what would end it early is taken out
        while s.contains("\"#") {
            s = s.replace("\"#", "");
        }
        (format!("r#\"{}\"#", s), Some(V::Str(s)))
    })));
    // ---- lists and maps
    let atoms = vec![V::Null, V::Bool(true), V::UInt(7), V::Int(-7), V::Float(0.5), V::s("s, ]}"), V::Date(2020, 2, 29), V::s("")];
    let a = of(&atoms);
    fn lv(sub: &G<V>, n: u32) -> G<V> {
        let key = |i: usize| ["k", "b b", "", "é"][i].to_string();
        alt(vec![sub.seq(0, n).map(V::List), sub.seq(0, n).map(move |v| V::Map(v.into_iter().enumerate().map(|(i, x)| (key(i), x)).collect()))])
    }
    let d1 = lv(&a, t.pick(2, 3));
    let few = alt(vec![of(&atoms[2..6]), lv(&of(&atoms[2..5]), 2)]);
    let d2 = lv(&few, 2);
    let all = alt(vec![a.clone(), d1, d2]);
    r.push(space_lit("structures", "lists and maps of depth 2 x 24 spellings", all.x(&of(&(0..24u64).collect::<Vec<_>>())).map(|(v, st)| (data_text(&v, st), Some(v)))));
    r.push(space_lit("structure-ladder", "n members, n nested, n up to 60 (thorough 200 members)", of(&(0..=t.pick(60usize, 200)).collect::<Vec<_>>()).x(&of(&[0usize, 1, 2, 3])).map(|(n, how)| {
        let v = match how {
            0 => V::List((0..n).map(|i| V::UInt(i as u64)).collect()),
            1 => V::Map((0..n).map(|i| (format!("k{}", i), V::UInt(i as u64))).collect()),
            2 => (0..n.min(40)).fold(V::s("x"), |v, _| l(&[v])),
            _ => (0..n.min(40)).fold(V::UInt(1), |v, i| V::map(&[("k", v), ("i", V::UInt(i as u64))])),
        };
        (data_text(&v, n as u64 % 24), Some(v))
    })));
    r.push(space_lit("same-key", "a repeated key keeps the last value", of(&["1", "\"x\"", "[1]"]).seq(2, 5).map(|v| {
        let t = v.iter().map(|x| format!("\"k\":{}", x)).collect::<Vec<_>>().join(",");
        let last = match *v.last().unwrap() {
            "1" => V::UInt(1),
            "[1]" => l(&[V::UInt(1)]),
            _ => V::s("x"),
        };
        (format!("{{{}}}", t), Some(V::map(&[("k", last)])))
    })));
    // ---- words that start like a literal are names
    let words: Vec<String> = ["null", "true", "false"].iter().flat_map(|k| ["s", "_", "1", "able", "_x", "X", "true", "null0"].iter().map(move |x| format!("{}{}", k, x))).chain(["nul", "tru", "fals", "Null", "TRUE", "False", "r", "e5", "jan", "_"].iter().map(|s| s.to_string())).collect();
    let mut words = words;
    words.retain(|w| w != "_");
    r.push(cases("words", "names that begin with null, true, false or look like parts of literals are names: as template, variable, parameter name, map key", of(&words).x(&of(&[0usize, 1, 2, 3])).map(|(w, how)| match how {
        0 => Case::new(vec![It::Exp(E::Cmd(w.clone(), vec![u(1)])), It::Exp(cmd("cat", &[E::Cmd(w.clone(), vec![])]))]).temp(&w, &[], vec![text("T")]),
        1 => Case::new(vec![It::Let(vec![(w.clone(), u(4))]), It::Exp(E::Var(vec![P::Id(w)]))]),
        2 => Case::new(vec![It::Exp(E::Var(vec![P::Id(w.clone()), P::Id(w.clone())]))]).pnames(&[&w]).params(&[V::map(&[(&w, V::UInt(8))])]),
        _ => Case::new(vec![It::Exp(cmd("w_json", &[E::Map(vec![(w.clone(), u(1))])])), It::For(w.clone(), "v".into(), u(2), vec![It::Exp(E::Var(vec![P::Id(w)]))])]),
    })));
    // ---- display
    let mut vs = kinds();
    for k in 0..=63u32 {
        vs.push(V::UInt(1u64 << k));
        vs.push(V::Int(-(1i64 << k.min(62))));
        vs.push(V::UInt((1u64 << k) - 1));
        vs.push(V::Float(2f64.powi(k as i32)));
        vs.push(V::Float(-2f64.powi(-(k as i32))));
    }
    for k in 0..=20i32 {
        vs.push(V::Float(10f64.powi(k)));
        vs.push(V::Float(1.1 * 10f64.powi(-k)));
        vs.push(V::UInt(10u64.pow(k.min(19) as u32)));
    }
    for m in 1..=12 {
        for d in [1, 9, 10, 28] {
            vs.push(V::Date(2021, m, d));
        }
    }
    vs.extend([V::Float(f64::MAX), V::Float(f64::MIN_POSITIVE), V::Float(f64::NEG_INFINITY), V::Float(0.1 + 0.2), V::Float(1e21), V::Float(123456789.125), V::Date(1, 1, 1), V::Date(999, 12, 31), V::Bytes(vec![0, 255, 10]), V::s("a\nb\"c<&>{{}}"), V::s("é漢🎉"), V::Int(i64::MAX), V::UInt(u64::MAX)]);
    let nv = vs.len() as u64;
    let b = of(&kinds());
    let nest = alt(vec![
        b.seq(0, 2).map(V::List),
        b.x(&b).map(|(x, y)| V::map(&[("b", x), ("a", y)])),
        b.map(|x| l(&[l(&[x.clone()]), V::map(&[("k", x.clone()), ("\"", l(&[x]))])])),
    ]);
    let g = alt(vec![of(&vs), nest]);
    r.push(Space::new("display", "every kind of value with its edges, alone and in lists and maps: as tag, in cat, through let, as TData text, and read back where it is a literal", g.n, move |i, cx| {
        let v = g.at(i);
        Case::new(vec![text("["), show("0"), text("]"), It::Exp(cmd("cat", &[var("0"), s("|"), var("0")])), It::Let(vec![("x".into(), var("0"))]), It::Exp(cmd("list", &[var("x")]))]).params(&[v.clone()]).check(cx)?;
        let d = v.td().to_string();
        cx.trace();
        if d != v.show() {
            return viol(format!("display {}", v.canon()), format!("should be {:?} but is {:?}", v.show(), d));
        }
        // scalars read back as an equal value
        let back = matches!(v, V::Null | V::Bool(_) | V::Int(_) | V::UInt(_) | V::Date(..)) || matches!(v, V::Float(f) if f.is_finite() && f.abs() < 1e15);
        if back {
            let t = if matches!(v, V::Null) { "null".to_string() } else { d };
            match read_export(cx, &t) {
                Real::Ok(b) if b.eq(&v) => {}
                o => return viol(format!("display {}", v.canon()), format!("shown as {:?}, which reads as {}", t, rv(&o))),
            }
        }
        Ok(())
    }));
    let _ = nv;
    r.extend(crate::chars::c10());
    r
}
/// data text of a value in one of 24 spellings
pub fn data_text(v: &V, st: u64) -> String {
    let mut d = Digits(st);
    let pad = ["", " ", "\n\t"][d.take(3) as usize];
    let comma = [",", ", ", " ,", "\r\n,\n"][d.take(4) as usize];
    let colon = [":", " : "][d.take(2) as usize];
    fn go(v: &V, pad: &str, comma: &str, colon: &str) -> String {
        match v {
            V::List(l) => format!("[{}{}{}]", pad, l.iter().map(|x| go(x, pad, comma, colon)).collect::<Vec<_>>().join(comma), pad),
            V::Map(m) => {
                let e: Vec<String> = m
                    .iter()
                    .map(|(k, x)| {
                        let mut o = String::new();
                        strlit(&mut o, k);
                        format!("{}{}{}", o, colon, go(x, pad, comma, colon))
                    })
                    .collect();
                format!("{{{}{}{}}}", pad, e.join(comma), pad)
            }
            v => {
                let mut o = String::new();
                litv(&mut o, v);
                o
            }
        }
    }
    go(v, pad, comma, colon)
}

// ------------------------------------------------------------------ C11
use card_format::{CData, Card};
use std::collections::HashMap;
use templito::tparam::TCow;
use templito::{TParam, KV};

fn to_json(v: &V) -> serde_json::Value {
    use serde_json::Value as J;
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Str(s) => J::String(s.clone()),
        V::Int(i) => J::from(*i),
        V::UInt(i) => J::from(*i),
        V::Float(f) => J::from(*f),
        V::List(l) => J::Array(l.iter().map(to_json).collect()),
        V::Map(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        _ => panic!(),
    }
}
fn to_toml(v: &V) -> toml::Value {
    use toml::Value as T;
    match v {
        V::Bool(b) => T::Boolean(*b),
        V::Str(s) => T::String(s.clone()),
        V::Int(i) => T::Integer(*i),
        V::UInt(i) => T::Integer(*i as i64),
        V::Float(f) => T::Float(*f),
        V::List(l) => T::Array(l.iter().map(to_toml).collect()),
        V::Map(m) => T::Table(m.iter().map(|(k, v)| (k.clone(), to_toml(v))).collect()),
        V::Null => T::Datetime("2020-01-02T03:04:05Z".parse().unwrap()),
        _ => panic!(),
    }
}
fn to_cdata(v: &V) -> CData {
    match v {
        V::Str(s) => CData::S(s.clone()),
        V::Int(i) => CData::N(*i as isize),
        V::UInt(i) => CData::N(*i as isize),
        V::List(l) => CData::L(l.iter().map(to_cdata).collect()),
        V::Map(m) => CData::M(m.iter().map(|(k, v)| (k.clone(), to_cdata(v))).collect()),
        v => CData::S(v.show()),
    }
}
/// the value another representation gives, leaf by leaf
fn leaves(v: &V, f: &dyn Fn(&V) -> V) -> V {
    match v {
        V::List(l) => V::List(l.iter().map(|x| leaves(x, f)).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, x)| (k.clone(), leaves(x, f))).collect()),
        v => f(v),
    }
}
fn signed(v: &V) -> V {
    match v {
        V::UInt(n) if *n <= i64::MAX as u64 => V::Int(*n as i64),
        v => v.clone(),
    }
}
fn parts() -> Vec<P> {
    vec![P::Num(0), P::Num(1), P::Num(2), P::Id("a".into()), P::Id("b".into()), P::Id("Name".into()), P::Id("0".into()), P::Id("".into()), P::Id("Num".into())]
}
fn vp(p: &[P]) -> Vec<templito::expr::VarPart> {
    use templito::expr::VarPart as W;
    p.iter()
        .map(|x| match x {
            P::Num(n) => W::Num(*n),
            P::Id(s) => W::Id(s.clone()),
        })
        .collect()
}
fn path_str(p: &[P]) -> String {
    p.iter()
        .map(|x| match x {
            P::Num(n) => format!(".{}", n),
            P::Id(s) => format!(".'{}'", s),
        })
        .collect()
}
/// every path up to the length into a parameter gives what the model value has there
fn agree(cx: &mut Ctx, what: &str, p: &dyn TParam, model: &V, paths: &[Vec<P>]) -> Res {
    agree_f(cx, what, p, model, paths, &|q| model.at(q).cloned())
}
fn agree_f(cx: &mut Ctx, what: &str, p: &dyn TParam, model: &V, paths: &[Vec<P>], want: &dyn Fn(&[P]) -> Option<V>) -> Res {
    for q in paths {
        let w = want(q);
        let g = real(|| -> Result<_, String> { Ok(p.get_v(&vp(q)).map(|c| V::of(&c))) });
        cx.trans(1);
        let ok = match (&w, &g) {
            (None, Real::Ok(None)) => true,
            (Some(a), Real::Ok(Some(b))) => a.same(b),
            _ => false,
        };
        if !ok {
            return viol(format!("{} {} at {}", what, model.canon(), path_str(q)), format!("should be {:?}, is {:?}", w.map(|v| v.canon()), g.map(|v| v.map(|v| v.canon()))));
        }
    }
    cx.trace();
    cx.nontrivial();
    cx.state(&(what, model.canon()));
    cx.sample(|| format!("{} {}", what, model.canon()));
    Ok(())
}
fn tree(leaf: &G<V>, n: u32) -> G<V> {
    let k = leaf.clone();
    let keys: Vec<Vec<&'static str>> = vec![vec![], vec!["a"], vec!["b"], vec!["0"], vec!["a", "b"], vec!["a", "Name"], vec!["", "0"]];
    let mut alts = vec![leaf.clone(), leaf.seq(0, n).map(V::List)];
    for ks in keys {
        let ks: Vec<String> = ks.iter().map(|s| s.to_string()).collect();
        let m = ks.len() as u32;
        alts.push(k.seq(m, m).map(move |v| V::Map(ks.iter().cloned().zip(v).collect())));
    }
    alt(alts)
}

pub fn c11(t: Tier) -> Vec<Space> {
    let atoms = of(&[V::s("s"), V::s(""), V::Int(-3), V::UInt(5), V::UInt(0), V::Float(0.5), V::Bool(true), V::Null]);
    let few = of(&[V::s("s"), V::UInt(5), V::Null]);
    let one = tree(&few, 1);
    let mid = alt(vec![few.clone(), one.clone()]);
    let two = if t == Tier::Quick { tree(&alt(vec![few.clone(), tree(&of(&[V::UInt(5), V::Null]), 1)]), 2) } else { tree(&mid, 2) };
    let wrap = two.x(&of(&[0usize, 1, 2])).map(|(v, h)| match h {
        0 => l(&[v]),
        1 => l(&[V::Null, v]),
        _ => V::map(&[("b", v)]),
    });
    let all = if t == Tier::Quick { alt(vec![tree(&atoms, 2), two.clone(), wrap]) } else { alt(vec![tree(&atoms, 2), two.clone(), wrap, tree(&alt(vec![of(&[V::s("q")]), tree(&tree(&of(&[V::UInt(1)]), 1), 1)]), 1)]) };
    // deep and wide values with the paths along them and off them
    let deep = t.pick(30usize, 60);
    let ladder = Space::new("ladder", "values n deep and n wide, n up to 30 (thorough 60), in every representation: the path at each depth and beside it", (deep as u64 + 1) * 3, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(deep as u64 + 1) as usize;
        let mut v = V::s("end");
        let mut paths = vec![vec![]];
        match d.take(3) {
            0 => {
                let mut p = vec![];
                for k in 0..n {
                    v = if k % 2 == 0 { V::map(&[("a", v), ("z", V::UInt(k as u64))]) } else { l(&[V::UInt(k as u64), v]) };
                }
                for k in (0..n).rev() {
                    for off in [P::Num(0), P::Num(1), P::Num(2), P::Id("a".into()), P::Id("z".into()), P::Id("b".into())] {
                        paths.push([p.clone(), vec![off]].concat());
                    }
                    p.push(if k % 2 == 0 { P::Id("a".into()) } else { P::Num(1) });
                    paths.push(p.clone());
                }
                paths.push([p, vec![P::Num(0)]].concat());
            }
            1 => {
                v = V::List((0..n).map(|k| V::s(&format!("m{}", k))).collect());
                paths.extend((0..=n + 1).map(|k| vec![P::Num(k)]));
            }
            _ => {
                v = V::Map((0..n).map(|k| (format!("k{}", k), V::List(vec![V::s("x"); k]))).collect());
                paths.extend((0..=n + 1).flat_map(|k| [vec![P::Id(format!("k{}", k))], vec![P::Id(format!("k{}", k)), P::Num(k)], vec![P::Id(format!("k{}", k)), P::Num(k.max(1) - 1)]]));
            }
        }
        let m = leaves(&v, &signed);
        agree(cx, "TData", &v.td(), &v, &paths)?;
        agree(cx, "json", &to_json(&v), &m, &paths)?;
        agree(cx, "toml", &to_toml(&v), &m, &paths)?;
        agree(cx, "card data", &to_cdata(&v), &m, &paths)
    });
    let gp = of(&parts()).seq(0, 3);
    let paths: Vec<Vec<P>> = (0..gp.n).map(|i| gp.at(i)).collect();
    let n = all.n;
    let a1 = all.clone();
    let p1 = paths.clone();
    let mut r = vec![Space::new("types", "nested values of depth 3 as TData, json, toml, card data, string-keyed maps: every path of up to 3 of 9 parts", n, move |i, cx| {
        let v = a1.at(i);
        let td = v.td();
        agree(cx, "TData", &td, &v, &p1)?;
        agree(cx, "TCow", &TCow::Borrowed(&td), &v, &p1)?;
        let j = to_json(&v);
        let m = leaves(&v, &signed);
        agree(cx, "json", &j, &m, &p1)?;
        let w = real(|| -> Result<_, String> { Ok(templito::TData::from_json(j.clone())) }).map(|t| V::of(&t));
        if !matches!(&w, Real::Ok(x) if x.same(&m)) {
            return viol(format!("from_json {}", j), format!("should be {} is {}", m.canon(), rv(&w)));
        }
        let tv = to_toml(&v);
        let mt = leaves(&v, &|x| if matches!(x, V::Null) { V::s("2020-01-02T03:04:05Z") } else { signed(x) });
        agree(cx, "toml", &tv, &mt, &p1)?;
        let cd = to_cdata(&v);
        let mc = leaves(&v, &|x| match x {
            V::Int(_) | V::UInt(_) => signed(x),
            V::Str(_) => x.clone(),
            x => V::Str(x.show()),
        });
        agree(cx, "card data", &cd, &mc, &p1)?;
        if let V::Map(m) = &v {
            let h: HashMap<String, templito::TData> = m.iter().map(|(k, v)| (k.clone(), v.td())).collect();
            agree(cx, "HashMap<String,TData>", &h, &v, &p1)?;
            let h: HashMap<&str, templito::TData> = m.iter().map(|(k, v)| (k.as_str(), v.td())).collect();
            agree(cx, "HashMap<&str,TData>", &h, &v, &p1)?;
            let hs: HashMap<String, String> = m.iter().map(|(k, v)| (k.clone(), v.show())).collect();
            let ms = V::Map(m.iter().map(|(k, v)| (k.clone(), V::Str(v.show()))).collect());
            agree(cx, "HashMap<String,String>", &hs, &ms, &p1)?;
            let hs: HashMap<&str, &str> = hs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            agree(cx, "HashMap<&str,&str>", &hs, &ms, &p1)?;
            let hu: HashMap<String, usize> = m.iter().enumerate().map(|(n, (k, _))| (k.clone(), n)).collect();
            let mu = V::Map(m.iter().enumerate().map(|(n, (k, _))| (k.clone(), V::UInt(n as u64))).collect());
            agree(cx, "HashMap<String,usize>", &hu, &mu, &p1)?;
            let data = m.iter().map(|(k, v)| (k.clone(), to_cdata(v))).collect();
            let card = Card { name: "N".into(), num: 4, data };
            let mut mc2 = match &mc {
                V::Map(m) => m.clone(),
                _ => unreachable!(),
            };
            mc2.insert("Name".into(), V::s("N"));
            mc2.insert("Num".into(), V::UInt(4));
            agree(cx, "Card", &card, &V::Map(mc2), &p1)?;
            // a key and a value
            for (k, x) in m {
                let kv = KV(k.as_str(), x.td());
                let kvs = KV(k.clone(), x.td());
                let one = V::Map([(k.clone(), x.clone())].into_iter().collect());
                let want = |q: &[P]| if q.is_empty() { None } else { one.at(q).cloned() };
                agree_f(cx, "KV", &kv, &one, &p1, &want)?;
                agree_f(cx, "KV", &kvs, &one, &p1, &want)?;
            }
        }
        if let V::List(l) = &v {
            let ss: Vec<String> = l.iter().map(|x| x.show()).collect();
            let s: Vec<&str> = ss.iter().map(|x| x.as_str()).collect();
            agree(cx, "Vec<&str>", &s, &V::List(ss.iter().map(|x| V::s(x)).collect()), &p1)?;
        }
        Ok(())
    })];
    r.push(ladder);
    // leaves of every size and kind, in every representation and position
    let lv: Vec<V> = {
        let mut v: Vec<V> = [0u64, 1, 2, 9, 10, 127, 128, 255, 256, 65535, 65536, i32::MAX as u64, u32::MAX as u64, 1 << 53, i64::MAX as u64].iter().map(|n| V::UInt(*n)).collect();
        v.extend([0i64, 1, -1, -2, -128, -129, i32::MIN as i64, i64::MIN, i64::MAX, -(1 << 53) - 1].iter().map(|n| V::Int(*n)));
        v.extend([0.0, -0.0, 1.0, -1.0, 1.5, -0.1, 0.1, 1e10, 1e-10, 1e300, 5e-324, f64::MAX, f64::MIN, 123456789.125].iter().map(|n| V::Float(*n)));
        v.extend(["", " ", "0", "1", "true", "false", "null", "2020-01-02", "-", "é", "日本", "\n", "\"", "\\", "<&>", "a.b", "a b ", "{{x}}", "Name", "N"].iter().map(|n| V::s(n)));
        v.extend([1usize, 7, 8, 15, 16, 31, 32, 63, 64, 255, 256, 300].iter().map(|n| V::s(&"é".repeat(*n))));
        v.extend([V::Bool(true), V::Bool(false), V::Null, l(&[]), V::map(&[]), l(&[l(&[]), V::map(&[])])]);
        v
    };
    let lv2 = lv.clone();
    r.push(Space::new("leaves", "every one of 80 leaf values of all sizes alone, in a list, in a map and two deep, in every representation, with the paths to it and beside it; and read back by the accessors of TData", lv.len() as u64 * 4, move |i, cx| {
        let mut d = Digits(i);
        let x = d.pick(&lv2).clone();
        let (v, q) = match d.0 {
            0 => (x.clone(), vec![]),
            1 => (l(&[V::s("o"), x.clone()]), vec![P::Num(1)]),
            2 => (V::map(&[("a", V::s("o")), ("b", x.clone())]), vec![P::Id("b".into())]),
            _ => (V::map(&[("b", l(&[V::map(&[("Name", x.clone())])]))]), vec![P::Id("b".into()), P::Num(0), P::Id("Name".into())]),
        };
        let paths = vec![vec![], q.clone(), q[..q.len() / 2].to_vec(), [q.clone(), vec![P::Num(0)]].concat(), [q.clone(), vec![P::Id("a".into())]].concat()];
        let td = v.td();
        agree(cx, "TData", &td, &v, &paths)?;
        agree(cx, "TCow", &TCow::Owned(v.td()), &v, &paths)?;
        agree(cx, "json", &to_json(&v), &leaves(&v, &signed), &paths)?;
        agree(cx, "toml", &to_toml(&v), &leaves(&v, &|x| if matches!(x, V::Null) { V::s("2020-01-02T03:04:05Z") } else { signed(x) }), &paths)?;
        let tc = |x: &V| match x {
            V::Int(_) | V::UInt(_) => signed(x),
            V::Str(_) => x.clone(),
            x => V::Str(x.show()),
        };
        agree(cx, "card data", &to_cdata(&v), &leaves(&v, &tc), &paths)?;
        if let V::Map(m) = &v {
            let card = Card { name: "N".into(), num: 4, data: m.iter().map(|(k, v)| (k.clone(), to_cdata(v))).collect() };
            let mut mc: std::collections::BTreeMap<String, V> = m.iter().map(|(k, v)| (k.clone(), leaves(v, &tc))).collect();
            mc.insert("Name".into(), V::s("N"));
            mc.insert("Num".into(), V::UInt(4));
            agree(cx, "Card", &card, &V::Map(mc), &paths)?;
            let h: HashMap<&str, templito::TData> = m.iter().map(|(k, v)| (k.as_str(), v.td())).collect();
            agree(cx, "HashMap<&str,TData>", &h, &v, &paths)?;
        }
        let kv = KV("a", v.td());
        let one = V::map(&[("a", v.clone())]);
        let mut kp: Vec<Vec<P>> = paths.iter().map(|q| [vec![P::Id("a".into())], q.clone()].concat()).collect();
        kp.push(vec![]);
        kp.push(vec![P::Id("b".into())]);
        agree_f(cx, "KV", &kv, &one, &kp, &|q| if q.is_empty() { None } else { one.at(q).cloned() })?;
        // the accessors
        let key = format!("accessors of {}", v.canon());
        let num = match &v {
            V::UInt(n) => Some(*n as f64),
            V::Int(n) => Some(*n as f64),
            V::Float(f) => Some(*f),
            _ => None,
        };
        let idx = match &v {
            V::UInt(n) => Some(*n as usize),
            V::Int(n) if *n >= 0 => Some(*n as usize),
            _ => None,
        };
        let st = match &v {
            V::Str(s) => Some(s.as_str()),
            _ => None,
        };
        let got = real(|| -> Result<_, String> { Ok((td.as_float().map(|f| f.to_bits()), td.as_usize(), td.as_bool(), td.as_str().map(|s| s.to_string()))) });
        let want = (num.map(|f| f.to_bits()), idx, v.truth(), st.map(|s| s.to_string()));
        cx.trans(4);
        match got {
            Real::Ok(g) if g == want => {}
            o => return viol(key, format!("as_float, as_usize, as_bool, as_str should be {:?}, are {:?}", want, o)),
        }
        for k in ["a", "b", "Name", ""] {
            let part = match &v {
                V::Map(m) => m.get(k),
                _ => None,
            };
            let want = (part.and_then(|p| if let V::Str(s) = p { Some(s.clone()) } else { None }), part.map(|p| p.show()));
            let got = real(|| -> Result<_, String> { Ok((td.get_key_str(k).map(|s| s.to_string()), td.get_key_string(k))) });
            cx.trans(2);
            match got {
                Real::Ok(g) if g == want => {}
                o => return viol(key, format!("get_key_str, get_key_string of '{}' should be {:?}, are {:?}", k, want, o)),
            }
        }
        Ok(())
    }));
    // keys of every kind
    let ks: Vec<String> = {
        let al = of(&['a', 'N', '0', '_', '-', '.', ' ', 'é', '$', '@']);
        let g = al.seq(0, 2);
        let mut v: Vec<String> = (0..g.n).map(|i| g.at(i).iter().collect()).collect();
        v.extend(["Name", "Num", "name", "num", "Nam", "Names", "key", "value", "len", "first", "_", "type", "path", "NAME", "true", "null"].iter().map(|s| s.to_string()));
        v.extend([3usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100].iter().flat_map(|n| ["k".repeat(*n), "é".repeat(*n)]));
        v
    };
    r.push(Space::new("keys", "a key out of 150 (every one of up to 2 characters of 10, special and long ones) next to one that it is not: in every representation the part under each, in the order asked", ks.len() as u64 * ks.len() as u64, move |i, cx| {
        let mut d = Digits(i);
        let (a, b) = (d.pick(&ks).clone(), d.pick(&ks).clone());
        let v = V::map(&[(a.as_str(), V::map(&[(a.as_str(), V::s("in"))])), ("zz", V::s("z"))]);
        let paths: Vec<Vec<P>> = vec![vec![P::Id(a.clone())], vec![P::Id(b.clone())], vec![P::Id(a.clone()), P::Id(a.clone())], vec![P::Id(a.clone()), P::Id(b.clone())], vec![P::Id(b.clone()), P::Id(a.clone())]];
        agree(cx, "TData", &v.td(), &v, &paths)?;
        agree(cx, "json", &to_json(&v), &v, &paths)?;
        agree(cx, "toml", &to_toml(&v), &v, &paths)?;
        agree(cx, "card data", &to_cdata(&v), &v, &paths)?;
        let m = match &v {
            V::Map(m) => m,
            _ => unreachable!(),
        };
        let h: HashMap<&str, templito::TData> = m.iter().map(|(k, v)| (k.as_str(), v.td())).collect();
        agree(cx, "HashMap<&str,TData>", &h, &v, &paths)?;
        let h: HashMap<String, templito::TData> = m.iter().map(|(k, v)| (k.clone(), v.td())).collect();
        agree(cx, "HashMap<String,TData>", &h, &v, &paths)?;
        let card = Card { name: "N".into(), num: 4, data: m.iter().map(|(k, v)| (k.clone(), to_cdata(v))).collect() };
        let mut mc = m.clone();
        mc.insert("Name".into(), V::s("N"));
        mc.insert("Num".into(), V::UInt(4));
        agree(cx, "Card", &card, &V::Map(mc), &paths)?;
        let kv = KV(a.clone(), V::map(&[(b.as_str(), V::UInt(1))]).td());
        let kvm = V::map(&[(a.as_str(), V::map(&[(b.as_str(), V::UInt(1))]))]);
        agree(cx, "KV", &kv, &kvm, &paths)?;
        agree_f(cx, "(KV,TData)", &(&kv, &v.td()), &kvm, &paths, &|q| kvm.at(q).or_else(|| v.at(q)).cloned())
    }));
    // slices as values
    let g = of(&["", "a", "0", "é b", "true"]).seq(0, 4);
    r.push(Space::new("slices", "lists of up to 4 of 5 texts given as slices of &str and of String, alone and under a key", g.n, move |i, cx| {
        let v = g.at(i);
        let w = V::List(v.iter().map(|s| V::s(s)).collect());
        let o: Vec<String> = v.iter().map(|s| s.to_string()).collect();
        let paths: Vec<Vec<P>> = (0..6).map(|n| vec![P::Num(n)]).chain([vec![], vec![P::Num(0), P::Num(0)], vec![P::Id("0".into())]]).collect();
        agree(cx, "&[&str]", &templito::TData::from(&v[..]), &w, &paths)?;
        agree(cx, "&[String]", &templito::TData::from(&o[..]), &w, &paths)?;
        agree(cx, "Vec<&str>", &v, &w, &paths)?;
        let kp: Vec<Vec<P>> = paths.iter().map(|q| [vec![P::Id("k".into())], q.clone()].concat()).collect();
        let one = V::map(&[("k", w)]);
        agree(cx, "KV of &[&str]", &KV("k", &v[..]), &one, &kp)?;
        agree(cx, "KV of &[String]", &KV("k", &o[..]), &one, &kp)?;
        for s in &v {
            agree(cx, "KV of &str", &KV("k", *s), &V::map(&[("k", V::s(s))]), &kp)?;
            agree(cx, "&str", s, &V::s(s), &paths)?;
        }
        Ok(())
    }));
    // scalars
    let p2 = paths.clone();
    r.push(Space::new("scalars", "strings, numbers, booleans as parameters: the value at the empty path and nothing below", 14, move |i, cx| match i {
        0 => agree(cx, "&str", &"x", &V::s("x"), &p2),
        1 => agree(cx, "&str", &"", &V::s(""), &p2),
        2 => agree(cx, "String", &"é\n".to_string(), &V::s("é\n"), &p2),
        3 => agree(cx, "String", &String::new(), &V::s(""), &p2),
        4 => agree(cx, "usize", &0usize, &V::UInt(0), &p2),
        5 => agree(cx, "usize", &usize::MAX, &V::UInt(u64::MAX), &p2),
        6 => agree(cx, "f64", &0.5f64, &V::Float(0.5), &p2),
        7 => agree(cx, "f64", &f64::NAN, &V::Float(f64::NAN), &p2),
        8 => agree(cx, "f64", &-0.0f64, &V::Float(-0.0), &p2),
        9 => agree(cx, "bool", &true, &V::Bool(true), &p2),
        10 => agree(cx, "bool", &false, &V::Bool(false), &p2),
        11 => agree(cx, "json", &serde_json::Value::from(u64::MAX), &V::UInt(u64::MAX), &p2),
        12 => agree(cx, "json", &serde_json::Value::from(i64::MIN), &V::Int(i64::MIN), &p2),
        _ => agree(cx, "toml", &toml::Value::Integer(i64::MIN), &V::Int(i64::MIN), &p2),
    }));
    // pairs: the first has precedence, path by path
    let pv = of(&[V::map(&[]), V::map(&[("a", V::UInt(1))]), V::map(&[("a", V::map(&[("b", V::UInt(2))])), ("b", V::s("x"))]), V::map(&[("b", l(&[V::UInt(3), V::Null]))]), l(&[V::UInt(4)]), l(&[V::map(&[("a", V::UInt(5))]), V::UInt(6)]), V::s("str"), V::UInt(7), V::Null]);
    let g = pv.x(&pv).x(&pv);
    let p3 = paths.clone();
    r.push(Space::new("pairs", "pairs and pairs of pairs of 9 values: each path is looked up in the first, then in the second", g.n, move |i, cx| {
        let ((a, b), c) = g.at(i);
        let (ta, tb, tc) = (a.td(), b.td(), c.td());
        let two = V::List(vec![a.clone(), b.clone()]);
        agree_f(cx, "(first,second)", &(&ta, &tb), &two, &p3, &|q| a.at(q).or_else(|| b.at(q)).cloned())?;
        let ab = (&ta, &tb);
        let three = V::List(vec![a.clone(), b.clone(), c.clone()]);
        agree_f(cx, "((first,second),third)", &(&ab, &tc), &three, &p3, &|q| a.at(q).or_else(|| b.at(q)).or_else(|| c.at(q)).cloned())?;
        let j = to_json(&b);
        let kv = KV("a", "kv");
        agree_f(cx, "(KV,json)", &(&kv, &j), &two, &p3, &|q| if q == [P::Id("a".into())] { Some(V::s("kv")) } else { b.at(q).map(|v| leaves(v, &signed)) })
    }));
    // the same in a template
    let reps = 6u64;
    let small = if t == Tier::Quick { tree(&alt(vec![few.clone(), of(&[l(&[V::s("z"), V::UInt(1)]), V::map(&[("a", V::s("y"))])])]), 2) } else { tree(&alt(vec![few.clone(), tree(&of(&[V::s("z")]), 1)]), 2) };
    let gp = of(&parts()[..7]).seq(0, 2);
    let g = small.x(&gp);
    r.push(Space::new("rendered", "the value at each path as a template shows it, loops over it and tests it, for each of 6 parameter types", g.n * reps, move |i, cx| {
        let mut d = Digits(i);
        let rep = d.take(reps);
        let (v, q) = g.at(d.0);
        let f = |x: &V| -> V {
            match rep {
                0 => x.clone(),
                1 => signed(x),
                2 => if matches!(x, V::Null) { V::s("2020-01-02T03:04:05Z") } else { signed(x) },
                3 => match x {
                    V::Int(_) | V::UInt(_) => signed(x),
                    V::Str(_) => x.clone(),
                    x => V::Str(x.show()),
                },
                _ => x.clone(),
            }
        };
        let m = leaves(&v, &f);
        let (td, j, tv, cd) = (v.td(), to_json(&v), to_toml(&v), to_cdata(&v));
        let h: HashMap<String, templito::TData> = if let V::Map(m) = &v { m.iter().map(|(k, v)| (k.clone(), v.td())).collect() } else { HashMap::new() };
        let cow = TCow::Borrowed(&td);
        let p: &dyn TParam = match rep {
            0 => &td,
            1 => &j,
            2 => &tv,
            3 => &cd,
            4 => &cow,
            _ => {
                if !matches!(v, V::Map(_)) {
                    return Ok(());
                }
                &h
            }
        };
        let e = E::Var([vec![P::Num(1)], q.clone()].concat());
        let body = vec![It::Exp(cmd("first", &[e.clone(), s("none")])), It::If(vec![(e.clone(), vec![text(" yes")])], Some(vec![text(" no")])), It::Let(vec![("x".into(), cmd("first", &[e.clone(), E::List(vec![])]))]), It::Exp(cmd("type_of", &[var("x")])), It::For("k".into(), "v".into(), cmd("first", &[e, u(0)]), vec![text(","), show("k"), text("="), show("v")])];
        let mut w = crate::interp::World::new();
        let want = w.run(&Tm { pnames: vec![], body: body.clone() }, &[V::Null, m.clone()]);
        cx.trans(w.steps);
        let t = match parse(&source(&body)) {
            Real::Ok(t) => t,
            o => return viol("rendered", format!("{:?}", o.map(|_| ()))),
        };
        let nul = templito::TData::Null;
        let got = real(|| t.run(&[&nul as &dyn TParam, p], &mut templito::temp_man::BasicTemps::new(), &cx.fm));
        cx.trace();
        let key = format!("template with {} of type {} at {}", m.canon(), ["TData", "json", "toml", "card data", "TCow", "HashMap"][rep as usize], path_str(&q));
        cx.sample(|| key.clone());
        match (&want, &got) {
            (Ok(a), Real::Ok(b)) if a.0 == *b => cx.nontrivial(),
            (Err(_), Real::Err(_)) => {}
            _ => return viol(key, format!("should be {:?}, is {:?}", want.map(|x| x.0), got)),
        }
        Ok(())
    }));
    r.extend(crate::chars::c11_paths());
    r
}
