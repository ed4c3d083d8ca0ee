//! Every kind of value through every mechanism of the language: pairs of values where one may replace, follow or hide the other.
use crate::ast::*;
use crate::common::*;
use crate::ctl::{kinds, l, probe, show};
use crate::engine::*;
use crate::gen::*;
use crate::val::V;

/// values of all kinds and texts that look like other kinds
pub fn all() -> Vec<V> {
    let mut v = kinds();
    v.extend(["29/02/2020", "2020-02-29", " a", "a ", "a\n", "\ta", "\n", "NULL", "null", "true", "1", "-1", "0.5", "1.0", "[]", "{}", "[NULL]", "TEMPLATE", "b\"[0]\"", "é", "<b>&", "{{x}}", "'q'"].iter().map(|x| V::s(x)));
    v.extend([
        V::Int(2), V::UInt(3), V::Float(1.0), V::Float(2.0), V::Date(1999, 12, 31), V::Date(2020, 2, 28), l(&[V::UInt(1), V::UInt(2)]), l(&[V::Null, V::UInt(1)]), l(&[l(&[])]), l(&[V::s("a")]), V::map(&[("a", V::UInt(1))]), V::map(&[("a", V::Null), ("b", V::s(""))]),
        V::map(&[("k", l(&[V::Null]))]), V::Bytes(vec![255]),
    ]);
    v
}
pub fn can_write(v: &V) -> bool {
    match v {
        V::Bytes(_) | V::Tmpl(_) => false,
        V::Int(n) => *n <= 0,
        V::Float(f) => f.is_finite() && f.abs() > 1e-9,
        V::List(l) => l.iter().all(can_write),
        V::Map(m) => m.values().all(can_write),
        _ => true,
    }
}
fn ex(k: &str, e: E) -> It {
    It::Export(vec![(k.into(), e)])
}
fn lt(k: &str, e: E) -> It {
    It::Let(vec![(k.into(), e)])
}
/// kind and value of a variable that is there
fn see(x: &str) -> Vec<It> {
    vec![It::Exp(cmd("type_of", &[cmd("trace", &[var(x)])])), text(";")]
}
fn see2(x: &str) -> Vec<It> {
    vec![It::Exp(cmd("type_of", &[cmd("trace", &[cmd("first", &[var(x), s("absent")])])])), text(";")]
}
/// every pair of indices
fn two(n: usize) -> G<(usize, usize)> {
    let i = of(&(0..n).collect::<Vec<_>>());
    i.x(&i)
}
fn ix(n: usize) -> G<usize> {
    of(&(0..n).collect::<Vec<_>>())
}
/// texts a body can consist of, over letters and white space
fn texts(max: u32) -> G<String> {
    of(&["a", " ", "\n", "\t", "\r", "é", "<"]).seq(0, max).map(|v| v.concat())
}

pub fn c03(_: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    let a1 = a.clone();
    let mut r = vec![cases(
        "pairs-of-kinds",
        "two conditions, each of 69 values, as if and elif, nested in yes and in no, as arms with failing bodies, the values written out or given",
        two(n).x(&ix(6)).map(move |((i, j), how)| {
            let (e1, e2) = if how == 5 { (if can_write(&a1[i]) { lit(a1[i].clone()) } else { var("0") }, if can_write(&a1[j]) { lit(a1[j].clone()) } else { var("1") }) } else { (var("0"), var("1")) };
            let t = |x: &str| vec![text(x)];
            let b = match how {
                1 => It::If(vec![(e1, vec![It::If(vec![(e2, t("A"))], Some(t("B")))])], Some(t("C"))),
                2 => It::If(vec![(e1, t("A"))], Some(vec![It::If(vec![(e2, t("B"))], Some(t("C")))])),
                3 => It::If(vec![(cmd("and", &[e1, e2]), t("A"))], Some(t("B"))),
                4 => It::If(vec![(cmd("first", &[e1, e2]), t("A"))], Some(t("B"))),
                _ => It::If(vec![(e1, t("A")), (e2, t("B"))], Some(t("C"))),
            };
            Case::new(vec![b]).params(&[a1[i].clone(), a1[j].clone()])
        }),
    )];
    let a1 = a.clone();
    r.push(cases(
        "results-as-conditions",
        "what functions and templates give for each of 69 values, as conditions",
        ix(n).x(&ix(14)).map(move |(i, how)| {
            let x = || var("0");
            let c = match how {
                0 => cmd("list", &[x()]),
                1 => cmd("cat", &[x()]),
                2 => cmd("len", &[x()]),
                3 => cmd("type_of", &[x(), s("null")]),
                4 => cmd("is_null", &[x()]),
                5 => cmd("eq", &[x(), u(0)]),
                6 => cmd("get", &[E::List(vec![x()]), u(0)]),
                7 => cmd("get", &[E::Map(vec![("k".into(), x())]), s("k")]),
                8 => E::List(vec![x()]),
                9 => E::Map(vec![("k".into(), x())]),
                10 => cmd("run", &[var("t"), x()]),
                11 => cmd("run", &[var("r"), x()]),
                12 => cmd("select", &[E::Lit(V::Bool(true)), x(), u(1)]),
                _ => cmd("trace", &[x()]),
            };
            Case::new(vec![
                It::Define("t".into(), vec![], vec![It::If(vec![(var("0"), vec![text("x")])], None)]),
                It::Define("r".into(), vec![], vec![It::Return(var("0"))]),
                It::If(vec![(c.clone(), vec![text("Y")])], Some(vec![text("N")])),
                It::If(vec![(E::Lit(V::Null), vec![]), (c, vec![text("Y")])], None),
            ])
            .params(&[a1[i].clone()])
        }),
    ));
    r
}

pub fn c04(_: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    let a1 = a.clone();
    vec![cases(
        "members-of-kinds",
        "lists and maps of every two of 69 values, looped over: kind and value of each, variables of the same name before, loops over the members, conditions and matches on them",
        two(n).x(&ix(7)).map(move |((i, j), how)| {
            let (p, q) = (a1[i].clone(), a1[j].clone());
            let d = if how % 2 == 0 { l(&[p.clone(), q.clone(), p.clone()]) } else { V::map(&[("b", p.clone()), ("a", q.clone())]) };
            let body = match how {
                0 | 1 => [see("k"), see("v")].concat(),
                2 => vec![It::If(vec![(cmd("eq", &[var("v"), var("1")]), see("k"))], Some([see("v"), vec![lt("last", var("v"))], see2("last")].concat()))],
                3 => vec![It::Switch(var("v"), vec![(vec![Pt::Val(V::Null), Pt::Val(V::s(""))], vec![text("null")]), (vec![Pt::Cap("c".into(), None)], see("c"))])],
                4 => vec![It::For("i".into(), "w".into(), cmd("list", &[var("v")]), [see("i"), see("w"), see("v")].concat())],
                5 => [vec![It::Exp(cmd("len", &[cmd("cat", &[var("k"), E::List(vec![var("v")])])]))], see("v"), vec![ex("last", var("v"))]].concat(),
                _ => [see2("old"), vec![ex("old", var("v")), lt("v", var("k"))], see("v")].concat(),
            };
            Case::new([vec![lt("v", var("1"))], vec![It::For("k".into(), "v".into(), var("0"), body)], see("v"), see2("k"), see2("last")].concat()).params(&[d, q])
        }),
    )]
}

pub fn c05(_: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    let a1 = a.clone();
    let mut r = vec![cases(
        "kinds-hide-kinds",
        "a variable, a named parameter or nothing with one of 69 values, hidden by or set to another, in 9 blocks: seen inside and after",
        two(n).x(&ix(9)).map(move |((i, j), how)| {
            let set = lt("x", var("1"));
            let b: Vec<It> = match how {
                0 => vec![It::If(vec![(u(1), [vec![set], see("x")].concat())], None)],
                1 => vec![It::If(vec![(u(0), vec![])], Some([see("x"), vec![ex("x", var("1"))], see("x")].concat()))],
                2 => vec![It::For("k".into(), "x".into(), E::List(vec![var("1"), var("x")]), see("x"))],
                3 => vec![It::As(var("1"), Pt::Cap("x".into(), None), see("x"))],
                4 => vec![It::Switch(E::List(vec![var("x"), var("1")]), vec![(vec![Pt::List(vec![Pt::Cap("y".into(), None), Pt::Cap("x".into(), None)])], [see("x"), see("y")].concat())])],
                5 => vec![set],
                6 => vec![It::AtLet("t".into(), [vec![set], see("x")].concat()), show("t")],
                7 => vec![It::Define("d".into(), vec!["x".into()], [see("x"), vec![lt("x", var("1"))], see("x")].concat()), It::Exp(cmd("run", &[var("d"), var("x"), var("1")]))],
                _ => vec![It::Block("cat".into(), vec![var("@")], [vec![set], see("x")].concat())],
            };
            let mut body = if how % 2 == 0 { vec![lt("x", var("0"))] } else { vec![] };
            body.extend(see("x"));
            body.extend(b);
            body.extend(see("x"));
            body.extend(see2("y"));
            Case::new(body).pnames(&["x"]).params(&[a1[i].clone(), a1[j].clone()])
        }),
    )];
    let a1 = a.clone();
    r.push(cases(
        "paths-into-kinds",
        "each of 69 values in a variable that hides a parameter which has what the path asks for: no falling through, in 4 places",
        ix(n).x(&of(&["x.0", "x.a", "x.k", "x.k.0", "x.b.c", "x"])).x(&ix(4)).map(move |((i, p), how)| {
            let deep = V::map(&[("a", V::s("PA")), ("k", l(&[V::s("PK")])), ("b", V::map(&[("c", V::s("PC"))]))]);
            let b = match how {
                0 => [vec![lt("x", var("1"))], see2(p)].concat(),
                1 => vec![It::As(var("1"), Pt::Cap("x".into(), None), see2(p))],
                2 => vec![It::For("k".into(), "x".into(), E::List(vec![var("1")]), see2(p))],
                _ => [vec![ex("x", var("1")), It::If(vec![(u(1), see2(p))], None)], see2(p)].concat(),
            };
            Case::new([see2(p), b, see2(p)].concat()).pnames(&["x"]).params(&[deep, a1[i].clone()])
        }),
    ));
    r
}

pub fn c06(_: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    // arguments
    let a1 = a.clone();
    let looks = |m: usize, names: &[&str]| -> Vec<It> {
        let mut b = vec![];
        for k in 0..m {
            b.extend(see(&k.to_string()));
        }
        b.extend(see2(&m.to_string()));
        for x in names {
            b.extend(see2(x));
        }
        b
    };
    let mut r = vec![cases(
        "argument-kinds",
        "2-4 arguments, two of them of 69 values, read by number and by name, by define+run, global, manager template and block, twice over",
        two(n).x(&ix(8)).map(move |((i, j), how)| {
            let args: Vec<E> = match how / 2 {
                0 => vec![var("0"), var("1")],
                1 => vec![var("0"), s("mid"), var("1")],
                2 => vec![s("1st"), var("0"), var("1"), s("last")],
                _ => vec![var("0"), var("1"), var("0")],
            };
            let m = args.len();
            let body = looks(m, &["p", "q", "r", "s", "t"]);
            let p: Vec<String> = ["p", "q", "r", "s"].iter().map(|x| x.to_string()).collect();
            let mut c = Case::new(vec![]).params(&[a1[i].clone(), a1[j].clone()]).pnames(&["t"]);
            let mut ra = vec![var("f")];
            ra.extend(args.clone());
            c.body = match how % 2 {
                0 => vec![It::Define("f".into(), p, body), It::Exp(cmd("run", &ra))],
                _ => vec![It::Global("g".into(), p.clone(), body), It::Exp(cmd("g", &args)), It::Block("g".into(), args, vec![text("B")]), It::Exp(cmd("g", &[]))],
            };
            c
        }),
    )];
    // returned values
    let a1 = a.clone();
    r.push(cases(
        "return-kinds",
        "bodies with text that return each of 69 values, once, after another, in a block, or export `return`: called by run, by name, by argument, by block; kind and value at the caller",
        two(n).x(&ix(6)).map(move |((i, j), how)| {
            let body = match how {
                0 => vec![text("lost"), It::Return(var("0"))],
                1 => vec![It::Return(var("1")), text("lost"), It::Return(var("0"))],
                2 => vec![text("lost"), It::If(vec![(u(1), vec![It::Return(var("0")), text("also")])], None)],
                3 => vec![ex("return", var("0")), text("x")],
                4 => vec![text("x"), It::Return(cmd("run", &[var("2"), var("0"), var("1")]))],
                _ => vec![It::For("k".into(), "v".into(), E::List(vec![var("1"), var("0")]), vec![It::Return(var("v"))])],
            };
            let call = |f: &str| E::Cmd(f.into(), vec![var("0"), var("1"), var("inner")]);
            let catch = |e: E| vec![lt("got", e), It::Exp(cmd("type_of", &[cmd("trace", &[var("got")])])), It::If(vec![(cmd("is_null", &[var("got")]), vec![text("N")])], None)];
            let mut b = vec![It::Define("inner".into(), vec![], vec![text("I"), It::Return(var("0"))]), It::Global("g".into(), vec![], body.clone()), It::Define("f".into(), vec![], body)];
            b.extend(catch(cmd("run", &[var("f"), var("0"), var("1"), var("inner")])));
            b.extend(catch(call("g")));
            b.extend(catch(cmd("list", &[call("g")])));
            b.push(It::Block("g".into(), vec![var("0"), var("1"), var("inner")], vec![text("blk")]));
            b.push(It::Export(vec![("seen".into(), call("g"))]));
            Case::new(b).params(&[a1[i].clone(), a1[j].clone()])
        }),
    ));
    // what run is given
    let mut a1 = a.clone();
    a1.push(V::Tmpl(Some(tm(&["p"], vec![text("in "), probe("p")]))));
    let n = a1.len();
    r.push(cases(
        "run-kinds",
        "run of each of 69 values with each of 69 arguments, and run as a variable of that kind named like a function",
        two(n).x(&ix(3)).map(move |((i, j), how)| {
            let b = match how {
                0 => vec![text("a"), It::Exp(cmd("run", &[var("0"), var("1")]))],
                1 => vec![lt("t", var("0")), It::Exp(cmd("first", &[cmd("run", &[var("t"), var("1")]), s("fails")]))],
                _ => vec![lt("len", var("0")), It::Exp(cmd("first", &[cmd("len", &[var("1")]), s("fails")]))],
            };
            Case::new(b).params(&[a1[i].clone(), a1[j].clone()])
        }),
    ));
    r
}

pub fn c07(t: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    let w: Vec<V> = a.iter().filter(|v| can_write(v) && !matches!(v, V::List(_) | V::Map(_))).cloned().collect();
    let nw = w.len();
    let (a1, w1) = (a.clone(), w.clone());
    let mut r = vec![cases(
        "literal-kinds",
        "every literal pattern of 50 values x every one of 69 values, alone, in a list, in a map, under a capture, second of two, in as and switch",
        ix(nw).x(&ix(n)).x(&ix(6)).map(move |((p, v), how)| {
            let lp = Pt::Val(w1[p].clone());
            let v = a1[v].clone();
            let (pat, v) = match how {
                0 | 1 => (lp, v),
                2 => (Pt::List(vec![Pt::Any, lp]), l(&[V::UInt(0), v])),
                3 => (Pt::Map(vec![("k".into(), lp)]), V::map(&[("k", v)])),
                4 => (Pt::Cap("c".into(), Some(Box::new(lp))), v),
                _ => (Pt::Cap("c".into(), Some(Box::new(Pt::List(vec![lp, Pt::Cap("d".into(), None)])))), l(&[v.clone(), v])),
            };
            let y = [vec![text("Y")], see2("c"), see2("d")].concat();
            let b = if how == 1 { It::Switch(var("0"), vec![(vec![Pt::Val(V::s("other")), pat], y), (vec![Pt::Any], vec![text("N")])]) } else { It::As(var("0"), pat, y) };
            Case::new([vec![b], see2("c")].concat()).params(&[v])
        }),
    )];
    // filters give values of every kind
    let a1 = a.clone();
    r.push(cases(
        "filter-kinds",
        "filters whose value is each of 69 values, or a comparison of it, on every one of 69 values",
        two(n).x(&ix(4)).map(move |((i, j), how)| {
            let p = match how {
                0 => Pt::Filter(var("1")),
                1 => Pt::Filter(cmd("eq", &[var("@"), var("1")])),
                2 => Pt::List(vec![Pt::Cap("c".into(), None), Pt::Filter(cmd("eq", &[var("@"), var("c")]))]),
                _ => Pt::Filter(cmd("select", &[cmd("is_null", &[var("@")]), var("1"), var("@")])),
            };
            let subject = if how == 2 { E::List(vec![var("0"), var("1")]) } else { var("0") };
            Case::new([vec![It::Switch(subject, vec![(vec![p], [vec![text("Y")], see2("c")].concat()), (vec![Pt::Any], vec![text("N")])])], see2("@")].concat()).params(&[a1[i].clone(), a1[j].clone()])
        }),
    ));
    // captures of every kind, over variables of every kind
    let a1 = a.clone();
    r.push(cases(
        "capture-kinds",
        "captures of each of 69 values over a variable with each of 69, in 6 patterns: seen inside and after, also when the rest of the pattern does not match",
        two(n).x(&ix(6)).map(move |((i, j), how)| {
            let cap = |x: &str| Pt::Cap(x.into(), None);
            let (e, p) = match how {
                0 => (var("0"), cap("c")),
                1 => (E::List(vec![var("0"), var("1")]), Pt::List(vec![cap("c"), cap("c")])),
                2 => (E::List(vec![var("0"), var("1")]), Pt::List(vec![cap("c"), Pt::Val(V::Null)])),
                3 => (E::Map(vec![("c".into(), var("0")), ("d".into(), var("1"))]), Pt::Map(vec![("d".into(), cap("c")), ("c".into(), cap("d"))])),
                4 => (E::Map(vec![("c".into(), var("0"))]), Pt::Map(vec![("c".into(), cap("c")), ("d".into(), cap("d"))])),
                _ => (E::List(vec![E::List(vec![var("0")]), var("1")]), Pt::List(vec![Pt::Cap("c".into(), Some(Box::new(Pt::List(vec![cap("d")])))), Pt::Any])),
            };
            let y = [vec![text("Y")], see2("c"), see2("d")].concat();
            Case::new([vec![lt("c", var("1")), It::As(e.clone(), p.clone(), y.clone())], see2("c"), see2("d"), vec![It::Switch(e, vec![(vec![p], y), (vec![cap("d")], [vec![text("N")], see2("c"), see2("d")].concat())])], see2("c"), see2("d")].concat())
                .params(&[a1[i].clone(), a1[j].clone()])
        }),
    ));
    // maps with keys that are there, missing or null
    let mv: Vec<V> = (0..4usize.pow(3))
        .map(|b| V::Map([("a", b % 4), ("b", b / 4 % 4), ("c", b / 16)].iter().filter(|x| x.1 > 0).map(|(k, x)| (k.to_string(), [V::Null, V::Null, V::UInt(1), V::s("")][*x].clone())).collect()))
        .collect();
    let sub: Vec<Pt> = vec![Pt::Any, Pt::Cap("a".into(), None), Pt::Val(V::Null), Pt::Val(V::UInt(1)), Pt::Filter(cmd("is_null", &[var("@")]))];
    let g = ix(mv.len()).x(&of(&["a", "b", "c"].map(String::from)).x(&of(&sub)).seq(0, t.pick(2, 3)));
    r.push(cases(
        "map-keys",
        "every map of 3 keys that are missing, null, a number or empty x every pattern of up to 2 (thorough 3) entries, also of the same key, of 5 sub-patterns",
        g.map(move |(m, p)| Case::new([vec![It::Switch(var("0"), vec![(vec![Pt::Map(p)], [vec![text("Y")], see2("a")].concat()), (vec![Pt::Any], vec![text("N")])])], see2("a")].concat()).params(&[mv[m].clone()])),
    ));
    r
}

pub fn c08(t: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    let a1 = a.clone();
    let mut r = vec![];
    let g = two(n).x(&ix(7));
    r.push(cases(
        "kinds-replace-kinds",
        "an export of each of 69 values, then of each of 69 under the same name, with let, blocks, @export between: what is seen and exported",
        g.map(move |((i, j), how)| {
            let b = match how {
                0 => vec![ex("a", var("0")), ex("a", var("1"))],
                1 => [vec![ex("a", var("0"))], see("a"), vec![It::If(vec![(u(1), [vec![lt("a", var("1")), ex("a", var("a"))], see("a")].concat())], None)], see("a")].concat(),
                2 => [vec![lt("a", var("0")), ex("a", var("1"))], see("a"), vec![ex("b", var("a"))]].concat(),
                3 => vec![ex("a", var("0")), It::AtExport("a".into(), [see("a"), vec![ex("b", var("1"))]].concat()), ex("c", E::List(vec![var("a"), var("b")]))],
                4 => vec![It::Return(var("0")), ex("return", var("1")), ex("r", var("return"))],
                5 => vec![It::For("k".into(), "v".into(), E::List(vec![var("0"), var("1")]), [see2("a"), vec![ex("a", var("v"))], see("a")].concat()), ex("b", var("a"))],
                _ => vec![It::Export(vec![("a".into(), var("0")), ("b".into(), var("a")), ("a".into(), var("1")), ("c".into(), var("a"))])],
            };
            Case::new(b).params(&[a1[i].clone(), a1[j].clone()])
        }),
    ));
    // front matter has no parameters: values that can be written, and some that are made by functions
    let mut es: Vec<E> = a.iter().filter(|v| can_write(v)).map(|v| lit(v.clone())).collect();
    es.extend([cmd("cat", &[]), cmd("fail", &[]), var("nope"), cmd("first", &[]), cmd("list", &[]), cmd("add", &[u(1), u(2)]), cmd("first", &[var("a"), s("no a")]), cmd("list", &[var("a")]), var("a"), cmd("sub", &[u(1), u(2)]), cmd("div", &[u(1), u(2)]), cmd("eq", &[u(1), u(1)])]);
    let ne = es.len();
    let es1 = es.clone();
    let g = two(ne).x(&ix(5));
    r.push(Space::new("front-kinds", "front matter: each of 67 expressions exported, then each under the same name, in one tag or two, by @export, in a block, then looked at", g.n, move |i, cx| {
        let ((i, j), how) = g.at(i);
        let (p, q) = (es1[i].clone(), es1[j].clone());
        let b = match how {
            0 => vec![ex("a", p), ex("a", q), ex("b", var("a"))],
            1 => vec![It::Export(vec![("a".into(), p), ("b".into(), var("a")), ("a".into(), q), ("c".into(), var("a"))])],
            2 => vec![ex("a", p), It::AtExport("b".into(), vec![text("<"), It::Exp(q), text(">"), It::Exp(cmd("type_of", &[var("a")]))]), ex("c", var("b"))],
            3 => vec![It::AtExport("a".into(), vec![It::Exp(p)]), ex("a", q), ex("b", E::List(vec![var("a")]))],
            _ => vec![ex("a", p), It::If(vec![(u(1), vec![ex("a", q.clone())])], None), lt("a", q.clone()), It::AtExport("b".into(), vec![lt("a", q), ex("c", var("a"))]), ex("d", E::Map(vec![("k".into(), var("a"))]))],
        };
        crate::ctl::check_front(cx, &Tm { pnames: vec![], body: b.clone() })?;
        if how < 2 {
            Case::new(b).check(cx)?;
        }
        Ok(())
    }));
    let g = texts(t.pick(4, 5)).x(&ix(3));
    r.push(Space::new("front-texts", "@export around every text of up to 4 (thorough 5) of white space, letters, markup: run and front matter hold exactly that", g.n, move |i, cx| {
        let (x, how) = g.at(i);
        let b = match how {
            0 => vec![It::AtExport("a".into(), vec![text(&x)])],
            1 => vec![It::AtExport("a".into(), vec![It::Exp(s(&x)), text("\n")]), ex("b", cmd("len", &[var("a")]))],
            _ => vec![It::AtExport("a".into(), vec![It::If(vec![(u(1), vec![text(&x)])], None)]), It::AtExport("b".into(), vec![show("a"), text(" ")])],
        };
        Case::new(b.clone()).check(cx)?;
        crate::ctl::check_front(cx, &Tm { pnames: vec![], body: b })
    }));
    r
}

pub fn c09(t: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    // repeated keys
    let vals: Vec<E> = vec![cmd("trace", &[u(1)]), cmd("trace", &[s("x")]), E::Lit(V::Null), cmd("fail", &[s("f")]), var("nope"), var("0"), cmd("no_such", &[]), cmd("trace", &[E::List(vec![])])];
    let g = of(&["a", "b"].map(String::from)).x(&of(&vals)).seq(0, t.pick(4, 5)).x(&ix(2));
    let mut r = vec![cases(
        "repeated-keys",
        "maps of up to 4 (thorough 5) entries under two keys, each of 8 expressions, some failing: each evaluated once in order, the last of a key remains",
        g.map(|(m, how)| {
            let e = E::Map(m);
            Case::new(vec![if how == 0 { ex("m", e) } else { ex("m", cmd("first", &[e, s("failed")])) }]).params(&[V::s("P")])
        }),
    )];
    // every kind of value in every place of an expression
    let a1 = a.clone();
    r.push(cases(
        "kinds-in-places",
        "every two of 69 values in lists, maps, arguments, options, first, nested: exactly those values come out",
        two(n).x(&ix(9)).map(move |((i, j), how)| {
            let (x, y) = (|| var("0"), || var("1"));
            let e = match how {
                0 => E::List(vec![x(), y()]),
                1 => E::Map(vec![("k".into(), x()), ("l".into(), y())]),
                2 => E::Map(vec![("k".into(), x()), ("k".into(), y())]),
                3 => cmd("list", &[x(), y(), x()]),
                4 => cmd("first", &[x(), y(), s("none")]),
                5 => cmd("select", &[x(), y(), s("no")]),
                6 => cmd("trace", &[x(), y()]),
                7 => E::List(vec![E::List(vec![x()]), E::Map(vec![("k".into(), E::List(vec![y(), x()]))])]),
                _ => cmd("get", &[E::List(vec![x(), y()]), u(1)]),
            };
            Case::new(vec![ex("e", e.clone()), lt("v", e), ex("f", var("v"))]).params(&[a1[i].clone(), a1[j].clone()])
        }),
    ));
    // paths into values of every kind
    let a1 = a.clone();
    let parts = vec![P::Num(0), P::Num(1), P::Id("a".into()), P::Id("k".into()), P::Id("0".into()), P::Id("len".into())];
    r.push(cases(
        "paths-into-kinds",
        "every path of up to 2 of 6 parts into each of 69 values, in the value, in a list of it, in a map of it",
        ix(n).x(&of(&parts).seq(0, 2)).x(&ix(3)).map(move |((i, p), how)| {
            let v = a1[i].clone();
            let mut path = vec![P::Num(0)];
            let d = match how {
                0 => v,
                1 => {
                    path.push(P::Num(1));
                    l(&[V::s("x"), v])
                }
                _ => {
                    path.push(P::Id("m".into()));
                    V::map(&[("m", v)])
                }
            };
            path.extend(p);
            Case::new(vec![ex("e", cmd("first", &[E::Var(path.clone()), s("none")])), It::Exp(cmd("type_of", &[E::Var(path)]))]).params(&[d])
        }),
    ));
    r
}

pub fn c29(_: Tier) -> Vec<Space> {
    use templito::temp_man::BasicTemps;
    let a = all();
    let n = a.len();
    let a1 = a.clone();
    let g = two(n).x(&ix(3));
    vec![Space::new("kinds-then-kinds", "the same parsed template run with each of 69 values, then with each, over the same managers: the second run does not remember the first", g.n, move |i, cx| {
        let ((i, j), how) = g.at(i);
        let body = match how {
            0 => [see("0"), see2("old"), vec![lt("old", var("0")), ex("e", E::List(vec![var("0"), var("0")]))], see("old")].concat(),
            1 => [vec![It::Global("g".into(), vec!["x".into()], [see2("x"), vec![It::Return(var("x"))]].concat()), ex("e", cmd("g", &[var("0")]))], vec![It::Exp(cmd("type_of", &[cmd("g", &[var("0")])]))]].concat(),
            _ => vec![It::Switch(var("0"), vec![(vec![Pt::List(vec![Pt::Cap("c".into(), None)]), Pt::Map(vec![("a".into(), Pt::Cap("c".into(), None))])], see("c")), (vec![Pt::Cap("d".into(), None)], [see2("c"), see("d")].concat())]), ex("e", cmd("first", &[var("c"), var("0"), s("none")]))],
        };
        let t = Tm { pnames: vec![], body };
        let src = source(&t.body);
        let parsed = match parse(&src) {
            Real::Ok(t) => t,
            r => return viol(src, format!("does not parse: {:?}", r.map(|_| ()))),
        };
        let mut temps = BasicTemps::new();
        let mut w = crate::interp::World::new();
        for k in [i, j, i] {
            let ps = [a1[k].clone()];
            w.steps = 0;
            w.calls.clear();
            take_log();
            let want = w.run(&t, &ps);
            let got = real_run(&parsed, &ps, &mut temps, &cx.fm);
            cx.trace();
            cx.trans(w.steps);
            cx.state(&want.as_ref().map(|o| outs(o)).map_err(|_| ()));
            if want.is_ok() {
                cx.nontrivial();
            }
            if !crate::hist::agree(&want, &got) {
                return viol(format!("{} with {} then {}", src, a1[i].canon(), a1[j].canon()), format!("the reference gives {:?}; templito gives {:?}", want.map(|o| outs(&o)), got.map(|o| outs(&o))));
            }
            if take_log() != w.calls {
                return viol(format!("{} with {} then {}", src, a1[i].canon(), a1[j].canon()), format!("functions called differ from {:?}", w.calls));
            }
        }
        Ok(())
    })]
}

pub fn c31(t: Tier) -> Vec<Space> {
    let a = all();
    let n = a.len();
    let a1 = a.clone();
    let mut r = vec![cases(
        "argument-kinds",
        "block commands with two arguments of 69 values and @ before, between, after, missing: given as they are; @ and variables of every kind before and after",
        two(n).x(&ix(6)).map(move |((i, j), how)| {
            let at = || var("@");
            let args = match how {
                0 => vec![var("0"), at(), var("1")],
                1 => vec![at(), var("0"), var("1")],
                2 => vec![var("0"), var("1")],
                3 => vec![var("0"), at(), at()],
                4 => vec![E::List(vec![var("0"), at()]), var("1")],
                _ => vec![cmd("select", &[cmd("is_null", &[var("0")]), at(), var("0")]), at()],
            };
            let body = [vec![text("b")], see("0"), vec![lt("x", var("1"))], see("x")].concat();
            Case::new([vec![lt("x", var("0"))], see2("@"), vec![It::Block("tmpl".into(), args.clone(), body.clone()), It::Block("list".into(), args, body)], see2("@"), see("x")].concat())
                .params(&[a1[i].clone(), a1[j].clone()])
                .temp("tmpl", &["p"], [see2("0"), see2("1"), see2("2"), see2("3"), see2("p"), vec![It::Return(cmd("list", &[cmd("first", &[var("0"), s("-")]), cmd("first", &[var("1"), s("-")])]))]].concat())
        }),
    )];
    let g = texts(t.pick(4, 5)).x(&ix(6));
    r.push(cases(
        "texts",
        "every text of up to 4 (thorough 5) of white space, letters, markup as a body of @let, @cat, @len, a template, within blocks: exactly that text",
        g.map(|(x, how)| {
            let b = vec![text(&x)];
            let b = match how {
                0 => vec![It::AtLet("v".into(), b), ex("v", var("v"))],
                1 => vec![It::Block("cat".into(), vec![var("@")], b)],
                2 => vec![It::Block("len".into(), vec![], b)],
                3 => vec![It::AtLet("v".into(), vec![It::If(vec![(u(1), b.clone())], None), It::Exp(s(&x)), It::For("k".into(), "w".into(), u(2), b)]), ex("v", var("v"))],
                4 => vec![It::Block("t".into(), vec![], b)],
                _ => vec![It::AtLet("v".into(), vec![It::Block("cat".into(), vec![var("@"), s("|")], b)]), ex("v", var("v")), show("v")],
            };
            Case::new([vec![text("[")], b, vec![text("]")]].concat()).temp("t", &["p"], vec![text("("), show("0"), text(")"), It::Exp(cmd("len", &[var("p")]))])
        }),
    ));
    r
}
