//! C03 conditionals, C04 loops, C05 scopes, C06 sub-templates, C07 patterns, C08 exports, C31 block commands.
use crate::ast::*;
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::val::V;

pub fn l(v: &[V]) -> V {
    V::List(v.to_vec())
}
pub fn show(x: &str) -> It {
    It::Exp(var(x))
}
/// the variable, or "-" if there is none
pub fn probe(x: &str) -> It {
    It::Exp(cmd("first", &[var(x), s("-")]))
}
fn tr(x: &str, e: E) -> E {
    cmd("trace", &[s(x), e])
}

/// Values of every kind, with the edges of each
pub fn kinds() -> Vec<V> {
    vec![
        V::Null, V::Bool(true), V::Bool(false), V::s(""), V::s("a"), V::s("0"), V::s("false"), V::s(" "), V::UInt(0), V::UInt(1), V::UInt(2), V::UInt(u64::MAX),
        V::Int(0), V::Int(1), V::Int(-1), V::Int(i64::MIN), V::Float(0.0), V::Float(-0.0), V::Float(0.5), V::Float(-1.0), V::Float(f64::NAN), V::Float(f64::INFINITY),
        V::Float(5e-324), l(&[]), l(&[V::Null]), l(&[V::Bool(false)]), V::map(&[]), V::map(&[("k", V::Null)]), V::Date(2020, 2, 29), V::Bytes(vec![]), V::Bytes(vec![0]), V::Tmpl(None),
    ]
}

// ------------------------------------------------------------------ C03
pub fn c03(t: Tier) -> Vec<Space> {
    let vals = kinds();
    // condition expressions: each value as a parameter, and failing ones
    let mut conds: Vec<E> = (0..vals.len()).map(|n| var(&n.to_string())).collect();
    conds.extend([var("99"), var("nope"), cmd("fail", &[s("f")]), cmd("no_such", &[]), cmd("eq", &[]), var("0.x"), cmd("select", &[s("a")])]);
    let params = vals.clone();
    let mk = {
        let params = params.clone();
        move |cs: Vec<E>, no: bool| {
            let arms = cs.into_iter().enumerate().map(|(n, c)| (tr(&format!("c{}", n), c), vec![text(&format!("A{}", n)), It::Exp(tr(&format!("b{}", n), u(n as u64)))])).collect();
            Case::new(vec![text("<"), It::If(arms, if no { Some(vec![text("E"), It::Exp(tr("e", s("e")))]) } else { None }), text(">")]).params(&params)
        }
    };
    let m1 = mk.clone();
    let g = of(&conds).seq(1, 2).x(&of(&[false, true])).map(move |(c, n)| m1(c, n));
    let mut r = vec![cases("arms-1-2", "every 1-2 arms over 32 values of all kinds and 7 failing conditions, with and without else; each evaluation is logged", g)];
    let few: Vec<E> = vec![var("1"), var("2"), var("0"), var("9"), cmd("fail", &[s("f")]), var("nope"), var("28"), var("22"), cmd("not_a_func", &[var("1")])];
    let m1 = mk.clone();
    let g = of(&few).seq(3, t.pick(4, 5)).x(&of(&[false, true])).map(move |(c, n)| m1(c, n));
    r.push(cases("arms-3-4", "every 3-4 (thorough 5) arms over 9 conditions", g));
    // bare condition, no wrapper
    let p2 = params.clone();
    let g = of(&conds).x(&of(&[0usize, 1, 2, 3])).map(move |(c, how)| {
        let b = match how {
            0 => vec![It::If(vec![(c, vec![text("Y")])], Some(vec![text("N")]))],
            1 => vec![It::If(vec![(c, vec![])], Some(vec![text("N")]))],
            2 => vec![It::If(vec![(c, vec![text("Y")])], Some(vec![]))],
            _ => vec![It::If(vec![(E::Lit(V::Bool(false)), vec![text("X")]), (c, vec![text("Y")])], None), text("Z")],
        };
        Case::new(b).params(&p2)
    });
    r.push(cases("bare", "conditions without wrapper, empty branches", g));
    // nested conditionals: every truth assignment of trees
    fn nest(d: u32, c: &G<E>, leaf: &G<Vec<It>>) -> G<Vec<It>> {
        if d == 0 {
            return leaf.clone();
        }
        let b = nest(d - 1, c, leaf);
        alt(vec![
            b.clone(),
            c.x(&b).x(&b.opt()).map(|((c, y), n)| vec![text("("), It::If(vec![(c, y)], n), text(")")]),
            c.x(&c).x(&b).map(|((c, k), y)| vec![It::If(vec![(c, vec![text("1")]), (k, y)], Some(vec![text("2")]))]),
        ])
    }
    let c3 = of(&[var("0"), var("1"), cmd("fail", &[s("x")])]);
    let c2 = of(&[var("0"), var("1")]);
    let l3 = of(&[vec![text("p")], vec![], vec![It::Exp(cmd("trace", &[s("q")]))]]);
    let l1 = of(&[vec![It::Exp(cmd("trace", &[s("q")]))]]);
    let two = |b| Case::new(b).params(&[V::Bool(true), V::Bool(false)]);
    r.push(cases("nested", "every tree of nested conditionals of depth 2 over true, false and failing conditions and 3 leaves", nest(2, &c3, &l3).map(two)));
    r.push(cases("nested-3", "every tree of nested conditionals of depth 3 over true and false (thorough: and failing) conditions", nest(3, t.pick(&c2, &c3), &l1).map(two)));
    // the truth of a value is the same wherever it is asked
    let p3 = params.clone();
    let n = vals.len() as u64;
    let wheres = 9u64;
    r.push(Space::new("one-truth", "32 values x if, elif, and, or, nand, nor, select, filter, negated select: one notion of truth", n * wheres, move |i, cx| {
        let mut d = Digits(i);
        let v = d.take(n);
        let x = var(&v.to_string());
        let yes = vec![text("T")];
        let no = Some(vec![text("F")]);
        let b = match d.take(wheres) {
            0 => It::If(vec![(x, yes)], no),
            1 => It::If(vec![(E::Lit(V::Null), vec![]), (x, yes)], no),
            2 => It::If(vec![(cmd("and", &[x]), yes)], no),
            3 => It::If(vec![(cmd("or", &[x]), yes)], no),
            4 => It::If(vec![(cmd("nand", &[x]), vec![text("F")])], Some(yes)),
            5 => It::If(vec![(cmd("nor", &[x]), vec![text("F")])], Some(yes)),
            6 => It::If(vec![(cmd("select", &[x, s("y"), s("")]), yes)], no),
            7 => {
                let f = crate::mfun::know_filter(&var("0"));
                It::Exp(cmd("len", &[cmd("filter", &[E::List(vec![x]), s(&f)])]))
            }
            _ => It::If(vec![(cmd("and", &[E::Lit(V::Bool(true)), x, s("a")]), yes)], no),
        };
        Case::new(vec![b]).params(&p3).check(cx)
    }));
    // ladders: which of n arms is taken
    let top = t.pick(40usize, 100);
    let g = of(&(1..=top).collect::<Vec<_>>()).x(&of(&(0..=top).collect::<Vec<_>>())).x(&of(&[false, true]));
    r.push(cases(
        "arm-ladder",
        "n arms of which the k-th is the first true one, n and k up to 40 (thorough 100)",
        g.map(|((n, k), e)| {
            let arms = (0..n).map(|j| (tr(&j.to_string(), if j >= k { var("0") } else if j % 3 == 2 { cmd("fail", &[]) } else { var("1") }), vec![text(&format!("arm{}", j))])).collect();
            Case::new(vec![It::If(arms, if e { Some(vec![text("else")]) } else { None })]).params(&[V::s("x"), V::s("")])
        }),
    ));
    let g = of(&(1..=t.pick(30usize, 60)).collect::<Vec<_>>()).x(&of(&[0usize, 1, 2]));
    r.push(cases(
        "deep",
        "conditionals nested to depth 30 (thorough 60) in the yes branch, the else branch, alternating",
        g.map(|(n, how)| {
            let mut b = vec![text("core")];
            for k in 0..n {
                let yes = how == 0 || (how == 2 && k % 2 == 0);
                b = if yes { vec![text("y"), It::If(vec![(var("0"), b)], Some(vec![text("no")])), text("Y")] } else { vec![text("n"), It::If(vec![(var("1"), vec![text("no")])], Some(b)), text("N")] };
            }
            Case::new(b).params(&[V::UInt(1), V::UInt(0)])
        }),
    ));
    r.extend(crate::kinds::c03(t));
    r
}

// ------------------------------------------------------------------ C04
pub fn c04(t: Tier) -> Vec<Space> {
    let mut it = kinds();
    it.retain(|v| !matches!(v, V::UInt(u64::MAX)));
    it.extend([
        l(&[V::UInt(5), V::s("b"), V::Null]), l(&[l(&[V::UInt(1)]), l(&[])]), V::map(&[("b", V::UInt(1)), ("a", V::UInt(2))]), V::map(&[("", V::Null), ("é", V::UInt(1)), ("Z", V::UInt(2)), ("a", V::UInt(3))]),
        V::UInt(3), V::UInt(17), V::Int(4), V::Int(-7), V::s("abc"), V::map(&[("10", V::UInt(1)), ("9", V::UInt(2)), ("2", l(&[V::UInt(1), V::UInt(2)]))]),
    ]);
    let its = it.clone();
    let body_of = |how: usize| -> Vec<It> {
        match how {
            0 => vec![show("k"), text("="), show("v"), text(";")],
            1 => vec![text("x")],
            2 => vec![],
            3 => vec![It::Exp(cmd("trace", &[var("k"), var("v")]))],
            4 => vec![It::If(vec![(cmd("eq", &[var("k"), u(1)]), vec![text("one")])], Some(vec![show("k")]))],
            5 => vec![It::Exp(cmd("type_of", &[var("k")])), text(":"), It::Exp(cmd("type_of", &[var("v")]))],
            6 => vec![It::Let(vec![("v".into(), s("over"))]), show("v"), show("k")],
            7 => vec![It::Exp(cmd("select", &[cmd("eq", &[var("k"), u(2)]), cmd("fail", &[s("two")]), var("k")]))],
            8 => vec![probe("v.0"), probe("v.a"), text(",")],
            _ => vec![It::Export(vec![("last".into(), var("k"))]), probe("last")],
        }
    };
    let n = its.len();
    let g = of(&(0..n).collect::<Vec<_>>()).x(&of(&(0..10usize).collect::<Vec<_>>())).x(&of(&[("k", "v"), ("v", "k"), ("k", "k"), ("0", "v")]));
    let its2 = its.clone();
    let mut r = vec![cases(
        "iterables",
        "42 values of every kind (each iterable and each that is not) x 10 bodies x 4 choices of loop names; loop variables probed after the loop",
        g.map(move |((n, how), (k, v))| {
            Case::new(vec![text("["), It::For(k.into(), v.into(), var("0"), body_of(how)), text("]"), probe("k"), probe("v"), probe("last")]).params(&[its2[n].clone()])
        }),
    )];
    // nested loops over every pair/triple
    let small: Vec<V> = vec![V::UInt(0), V::UInt(2), V::Int(2), l(&[]), l(&[V::s("a"), V::s("b"), V::s("c")]), V::map(&[("y", V::UInt(1)), ("x", V::UInt(0))]), l(&[V::UInt(2), V::UInt(0), V::UInt(1)]), V::s("no"), V::Float(2.0)];
    let ns = small.len();
    let sm = small.clone();
    let g = of(&(0..ns).collect::<Vec<_>>()).seq(2, t.pick(3, 4)).x(&of(&[0usize, 1, 2]));
    r.push(cases(
        "nested",
        "2-3 (thorough 4) nested loops over every combination of 9 values, with distinct, shadowing and shared names",
        g.map(move |(ix, names)| {
            let d = ix.len();
            let mut b = vec![];
            for k in 0..d {
                b.push(probe(&format!("k{}", if names == 1 { 0 } else { k })));
                b.push(probe(&format!("v{}", if names == 0 { k } else { 0 })));
            }
            b.push(text(";"));
            for k in (0..d).rev() {
                let kn = format!("k{}", if names == 1 { 0 } else { k });
                let vn = format!("v{}", if names == 0 { k } else { 0 });
                b = vec![text("("), It::For(kn.clone(), vn, var(&k.to_string()), b), text(")"), probe(&kn)];
            }
            Case::new(b).params(&ix.iter().map(|i| sm[*i].clone()).collect::<Vec<_>>())
        }),
    ));
    // loop over the variable of the outer loop
    let data: Vec<V> = vec![
        l(&[l(&[V::UInt(1), V::UInt(2)]), l(&[]), l(&[V::s("a")])]),
        V::map(&[("b", l(&[V::UInt(1)])), ("a", V::UInt(2)), ("c", V::map(&[("z", V::Null), ("y", V::Bool(true))]))]),
        l(&[V::UInt(3), V::Int(2), V::map(&[("q", V::s("r"))])]),
        l(&[V::UInt(1), V::s("stop"), V::UInt(1)]),
        V::UInt(4),
        V::Int(3),
    ];
    let g = of(&data).x(&of(&["v", "k", "0"])).x(&of(&["w", "v", "k"]));
    r.push(cases(
        "inner-of-outer",
        "loops over the loop variable of the enclosing loop",
        g.map(|((d, over), name)| {
            Case::new(vec![It::For("k".into(), "v".into(), var("0"), vec![show("k"), text("{"), It::For("j".into(), name.into(), var(over), vec![show("j"), text(":"), show(name), text(" ")]), text("}")])]).params(&[d])
        }),
    ));
    // every map over key sets, in order whatever the insertion order; every list over 3 values
    let keys = ["", "a", "b", "B", "é", "aa", "_", "1", "10", "2"];
    let g = G::new(1 << keys.len(), move |bits| {
        let m = keys.iter().enumerate().filter(|(n, _)| bits >> n & 1 == 1).map(|(n, k)| (k.to_string(), V::UInt(n as u64))).collect();
        Case::new(vec![It::For("k".into(), "v".into(), var("0"), vec![show("k"), text("="), show("v"), text(";")])]).params(&[V::Map(m)])
    });
    r.push(cases("map-keys", "maps over every subset of 10 keys: key order", g));
    let g = of(&[V::Null, V::UInt(7), V::s("s"), l(&[V::UInt(1)])]).seq(0, t.pick(6, 8)).map(|v| Case::new(vec![It::For("k".into(), "v".into(), var("0"), vec![show("k"), text("="), show("v"), text(";")])]).params(&[V::List(v)]));
    r.push(cases("lists", "every list of up to 6 (thorough 8) of 4 values", g));
    // sizes
    let sizes: Vec<u64> = (0..=t.pick(70, 300)).chain([512, 1000]).collect();
    let g = of(&sizes).x(&of(&(0..8usize).collect::<Vec<_>>()));
    r.push(cases(
        "sizes",
        "lists, maps, UInt and Int of every size up to 70 (thorough 300) and beyond, as parameter and as expression",
        g.map(|(n, how)| {
            let list = V::List((0..n).map(|x| V::UInt(x * 7 % 13)).collect());
            let map = V::Map((0..n).map(|x| (format!("k{}", x * 37 % 1009), V::UInt(x))).collect());
            let b = vec![show("k"), text("="), show("v"), text(";")];
            let (e, p) = match how {
                0 => (var("0"), list),
                1 => (var("0"), map),
                2 => (var("0"), V::UInt(n)),
                3 => (var("0"), V::Int(n as i64)),
                4 => (u(n), V::Null),
                5 => (cmd("append", &[var("0"), var("0")]), list),
                6 => (var("0.l"), V::map(&[("l", list)])),
                _ => (E::Lit(list), V::Null),
            };
            let b = if how == 7 { vec![It::If(vec![(cmd("eq", &[cmd("mod", &[var("k"), u(2)]), u(1)]), vec![show("v")])], Some(vec![text(".")]))] } else { b };
            Case::new(vec![text("["), It::For("k".into(), "v".into(), e, b), text("]")]).params(&[p])
        }),
    ));
    r.extend(crate::kinds::c04(t));
    r
}

// ------------------------------------------------------------------ C05
/// statement lists over two variables, in which each statement shows what it can see
fn stmts(depth: u32, len: u32) -> G<Vec<It>> {
    let leaf: Vec<It> = vec![
        It::Let(vec![("x".into(), u(1))]),
        It::Let(vec![("x".into(), cmd("cat", &[cmd("first", &[var("x"), s("")]), s("+")]))]),
        It::Let(vec![("y".into(), cmd("first", &[var("x"), s("none")]))]),
        It::Export(vec![("x".into(), s("ex"))]),
        It::Exp(cmd("cat", &[s("<"), cmd("first", &[var("x"), s("-")]), s(","), cmd("first", &[var("y"), s("-")]), s(">")])),
    ];
    let item = if depth == 0 {
        of(&leaf)
    } else {
        let b = stmts(depth - 1, len);
        let wrap: Vec<fn(Vec<It>) -> It> = vec![
            |b| It::If(vec![(var("0"), b)], None),
            |b| It::If(vec![(var("1"), vec![])], Some(b)),
            |b| It::For("i".into(), "x".into(), var("2"), b),
            |b| It::As(s("cap"), Pt::Cap("x".into(), None), b),
            |b| It::Switch(s("sw"), vec![(vec![Pt::Val(V::s("no"))], vec![]), (vec![Pt::Cap("y".into(), None)], b)]),
            |b| It::AtLet("y".into(), b),
            |b| It::AtExport("x".into(), b),
            |b| It::Block("cat".into(), vec![], b),
            |b| It::Block("cat".into(), vec![E::Var(vec![P::Id("@".into())]), s("/"), cmd("first", &[var("x"), s("-")])], b),
        ];
        let ws = G::new(wrap.len() as u64, move |i| wrap[i as usize]);
        alt(vec![of(&leaf), ws.x(&b).map(|(w, b)| w(b))])
    };
    item.seq(1, len)
}
fn seen() -> It {
    It::Exp(cmd("cat", &[s("|"), cmd("first", &[var("x"), s("-")]), s(","), cmd("first", &[var("y"), s("-")]), s(","), cmd("first", &[var("i"), s("-")]), s(","), cmd("first", &[var("@"), s("-")])]))
}
pub fn c05(t: Tier) -> Vec<Space> {
    let ps = [V::Bool(true), V::Bool(false), l(&[V::s("p"), V::s("q")])];
    let mk = move |b: Vec<It>| {
        let mut b = b;
        b.push(seen());
        Case::new(b).params(&ps)
    };
    let m = mk.clone();
    let mut r = vec![cases("flat", "every sequence of up to 6 (thorough 7) of 5 statements", stmts(0, t.pick(6, 7)).map(move |b| m(b)))];
    // one block in the middle
    let m = mk.clone();
    let s1 = stmts(1, 2); // bodies of up to 2 in blocks, up to 2 statements
    r.push(cases("blocks", "every sequence of up to 2 statements or blocks of up to 2 statements (9 kinds of block)", s1.map(move |b| m(b))));
    let m = mk.clone();
    let one = stmts(0, 1);
    let mid = stmts(1, 2);
    let g = one.x(&mid).x(&one).map(|((a, b), c)| vec![a, b, c].concat());
    if t == Tier::Thorough {
        r.push(cases("before-after", "one statement before and one after", g.map(move |b| m(b))));
    } else {
        let mid = {
            let b = stmts(0, 2);
            let all = stmts(1, 2);
            let k = 5 + 9 * b.n;
            G::new(k, move |i| all.at(i)) // sequences of length one come first
        };
        let g = one.x(&mid).x(&one).map(|((a, b), c)| vec![a, b, c].concat());
        r.push(cases("before-after", "one statement before and one after each block", g.map(move |b| m(b))));
    }
    // blocks in blocks in blocks, one statement each side
    let m = mk.clone();
    let g = stmts(t.pick(3, 4), 1);
    r.push(cases("chains", "chains of nested blocks of depth 3 (thorough 4)", g.map(move |b| m(vec![vec![It::Let(vec![("x".into(), s("o"))])], b].concat()))));
    let m = mk.clone();
    let inner = {
        let all = stmts(1, 2);
        let b = stmts(0, 2);
        let k = 5 + 9 * b.n;
        G::new(k, move |i| all.at(i))
    };
    let leafs = stmts(0, 1);
    let g = leafs.x(&inner).x(&of(&(0..9usize).collect::<Vec<_>>()));
    r.push(cases(
        "two-deep",
        "block containing a statement and a block of up to 2 statements, then a look after each",
        g.map(move |((a, b), w)| {
            let mut body = vec![a, b].concat();
            body.push(seen());
            let w = match w {
                0 => It::If(vec![(var("0"), body)], None),
                1 => It::If(vec![(var("1"), vec![])], Some(body)),
                2 => It::For("i".into(), "x".into(), var("2"), body),
                3 => It::As(s("cap"), Pt::Cap("x".into(), None), body),
                4 => It::Switch(s("sw"), vec![(vec![Pt::Cap("y".into(), None)], body)]),
                5 => It::AtLet("y".into(), body),
                6 => It::AtExport("x".into(), body),
                7 => It::Block("cat".into(), vec![], body),
                _ => It::Block("cat".into(), vec![var("@"), s("/")], body),
            };
            m(vec![It::Let(vec![("y".into(), s("outer"))]), w])
        }),
    ));
    // names and parameters: a variable hides a named parameter, numbers never name variables
    let names: Vec<&str> = vec!["a", "b", "0x", "if", "true", "null", "in", "@x", "é", "a b", "first", "return", "k", "x1_", "true1", "nullable", "falsey"];
    let g = of(&names).x(&of(&names)).x(&of(&(0..6usize).collect::<Vec<_>>()));
    r.push(cases(
        "names",
        "17x17 variable names, set by let, @let, for, export, capture, parameter name",
        g.map(|((a, b), how)| {
            let set: Vec<It> = match how {
                0 => vec![It::Let(vec![(a.into(), s("A")), (b.into(), s("B"))])],
                1 => vec![It::AtLet(a.into(), vec![text("A")]), It::Export(vec![(b.into(), s("B"))])],
                2 => vec![It::For(a.into(), b.into(), u(2), vec![text(".")])],
                3 => vec![It::AtExport(a.into(), vec![text("A")]), It::Let(vec![(b.into(), s("B"))])],
                4 => vec![It::Let(vec![(b.into(), E::Map(vec![(a.into(), s("in"))]))])],
                _ => vec![],
            };
            let e = |p: &[&str]| cmd("first", &[E::Var(p.iter().map(|x| P::Id(x.to_string())).collect()), s("-")]);
            let mut b2 = set;
            b2.extend([It::Exp(e(&[a])), text(","), It::Exp(e(&[b])), text(","), It::Exp(e(&[b, a])), It::If(vec![(u(1), vec![It::Let(vec![(a.into(), s("inner"))]), It::Exp(e(&[a]))])], None), It::Exp(e(&[a]))]);
            Case::new(b2).params(&[V::s("P0"), V::map(&[(a, V::s("deep"))])]).pnames(&[a, b])
        }),
    ));
    // ladders
    let g = of(&(1..=t.pick(30usize, 64)).collect::<Vec<_>>()).x(&of(&[0usize, 1, 2, 3]));
    r.push(cases(
        "ladder",
        "shadowing through n nested blocks and n variables, n up to 30 (thorough 64)",
        g.map(|(n, how)| {
            let mut b = vec![seen()];
            match how {
                0 => {
                    for k in 0..n {
                        b = vec![It::Let(vec![("x".into(), u(k as u64))]), It::If(vec![(var("0"), b)], None), probe("x")];
                    }
                }
                1 => {
                    for k in 0..n {
                        b = vec![It::For("i".into(), "x".into(), E::List(vec![u(k as u64)]), b), probe("x")];
                    }
                }
                2 => {
                    let mut r: Vec<It> = (0..n).map(|k| It::Let(vec![(format!("v{}", k), u(k as u64 * 3))])).collect();
                    r.extend((0..n).map(|k| show(&format!("v{}", k))));
                    b = r;
                }
                _ => {
                    b = vec![It::Let((0..n).map(|k| ("x".to_string(), cmd("cat", &[cmd("first", &[var("x"), s("")]), u(k as u64)]))).collect()), show("x")];
                }
            }
            Case::new(b).params(&[V::Bool(true), V::Bool(false)])
        }),
    ));
    r.extend(crate::kinds::c05(t));
    r
}

// ------------------------------------------------------------------ C06
pub fn c06(t: Tier) -> Vec<Space> {
    let bodies: Vec<Vec<It>> = vec![
        vec![text("T"), probe("0"), text(","), probe("1"), text(","), probe("a"), text(","), probe("b")],
        vec![It::Return(E::List(vec![cmd("first", &[var("0"), s("-")]), cmd("first", &[var("a"), s("-")])])), text("lost")],
        vec![text("o"), It::Export(vec![("e".into(), u(9))]), It::Let(vec![("x".into(), u(8))]), probe("x"), probe("e")],
        vec![It::If(vec![(cmd("first", &[var("0"), E::Lit(V::Null)]), vec![It::Return(s("yes"))])], Some(vec![text("no")])), text("!")],
        vec![It::Exp(cmd("fail", &[s("in")]))],
        vec![probe("x"), probe("y"), It::Let(vec![("x".into(), s("inner"))])],
        vec![It::Return(u(1)), It::Return(E::Map(vec![("k".into(), u(2))]))],
        vec![],
        vec![It::Define("n".into(), vec!["q".into()], vec![text("N"), probe("q"), probe("0")]), It::Exp(cmd("run", &[var("n"), s("z")]))],
        vec![It::Global("gg".into(), vec![], vec![text("GG")]), It::Exp(cmd("gg", &[]))],
        vec![It::Export(vec![("return".into(), s("via export"))])],
        vec![It::Let(vec![("return".into(), s("via let"))]), text("t")],
        vec![It::If(vec![(u(1), vec![It::Let(vec![("return".into(), s("inner let"))])])], None), text("t2")],
    ];
    let pn: Vec<Vec<String>> = vec![vec![], vec!["a".into()], vec!["a".into(), "b".into()], vec!["b".into(), "a".into(), "c".into()], vec!["a".into(), "a".into()]];
    let args: Vec<Vec<E>> = vec![
        vec![], vec![s("1st")], vec![s("1st"), s("2nd")], vec![var("x"), u(2), u(3)], vec![E::Lit(V::Null)], vec![cmd("fail", &[s("arg")])], vec![E::List(vec![u(1)]), E::Map(vec![("a".into(), u(1))])], vec![var("nope")], vec![var("tt"), s("z")],
    ];
    let g = of(&bodies).x(&of(&pn)).x(&of(&args)).x(&of(&(0..6usize).collect::<Vec<_>>()));
    let mut r = vec![cases(
        "calls",
        "13 bodies x 5 parameter lists x 9 argument lists x define+run, global+call, manager template, call as argument, as block command, as loop source",
        g.map(|(((b, p), a), how)| {
            let pre = vec![It::Let(vec![("x".into(), s("caller"))]), It::Define("tt".into(), vec![], vec![text("TT")])];
            let pns: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
            let run = |mut a: Vec<E>| {
                a.insert(0, var("f"));
                cmd("run", &a)
            };
            let mut out = pre;
            let mut c = Case::new(vec![]).params(&[V::s("P0"), V::s("P1")]).pnames(&["pa", "a"]);
            match how {
                0 => out.extend([It::Define("f".into(), p.clone(), b), It::Exp(run(a))]),
                1 => out.extend([It::Global("f".into(), p.clone(), b), It::Exp(cmd("f", &a))]),
                2 => {
                    c = c.temp("f", &pns, b);
                    out.push(It::Exp(cmd("f", &a)));
                }
                3 => out.extend([It::Define("f".into(), p.clone(), b), It::Exp(cmd("len", &[run(a.clone())])), It::Exp(cmd("type_of", &[run(a)]))]),
                4 => {
                    c = c.temp("f", &pns, b);
                    out.push(It::Block("f".into(), a, vec![text("blk"), probe("x")]));
                }
                _ => out.extend([It::Define("f".into(), p.clone(), b), It::For("k".into(), "v".into(), run(a), vec![show("k"), show("v")])]),
            }
            out.extend([text("/"), probe("x"), probe("e"), probe("return"), probe("a")]);
            c.body = out;
            c
        }),
    )];
    // which is called: function, template of the manager, global, defined
    let names = ["len", "f", "cat", "first", "select", "run", "trace", "eq"];
    let g = of(&names).x(&of(&(0..32u32).collect::<Vec<_>>()));
    r.push(cases(
        "precedence",
        "8 names x every subset of {manager template, global, define, called before, called twice}",
        g.map(|(n, bits)| {
            let mut c = Case::new(vec![]).params(&[V::s("abc")]);
            let call = It::Exp(cmd(n, &[var("0"), s("x"), s("y")]));
            let mut b = vec![];
            if bits & 1 > 0 {
                c = c.temp(n, &[], vec![text("MAN")]);
            }
            if bits & 8 > 0 && bits & 1 > 0 {
                b.push(call.clone());
            }
            if bits & 2 > 0 {
                b.push(It::Global(n.into(), vec![], vec![text("GLO")]));
            }
            if bits & 4 > 0 {
                b.push(It::Define(n.into(), vec![], vec![text("DEF")]));
                b.push(It::Exp(cmd("run", &[E::Var(vec![P::Id(n.into())])])));
            }
            b.push(call.clone());
            if bits & 16 > 0 {
                b.push(call);
            }
            c.body = b;
            c
        }),
    ));
    // programs: sequences over definitions, calls and looks
    let st: Vec<It> = vec![
        It::Define("f".into(), vec!["a".into()], vec![text("f1("), probe("a"), probe("x"), text(")")]),
        It::Define("f".into(), vec![], vec![It::Return(cmd("first", &[var("0"), s("r")]))]),
        It::Global("g".into(), vec!["a".into()], vec![text("g1("), probe("a"), probe("x"), text(")"), It::Export(vec![("x".into(), s("gx"))])]),
        It::Global("g".into(), vec![], vec![It::Return(u(7))]),
        It::Let(vec![("x".into(), cmd("first", &[cmd("g", &[s("p")]), s("nog")]))]),
        It::Let(vec![("x".into(), cmd("run", &[var("f"), cmd("first", &[var("x"), s("nox")])]))]),
        It::Exp(cmd("g", &[cmd("first", &[var("x"), s("-")])])),
        It::Exp(cmd("run", &[var("f")])),
        It::If(vec![(u(1), vec![It::Global("g".into(), vec![], vec![text("ifg")]), It::Define("f".into(), vec![], vec![text("iff")]), It::Exp(cmd("run", &[var("f")]))])], None),
        It::Let(vec![("f".into(), var("f"))]),
        probe("x"),
    ];
    r.push(cases("programs", "every sequence of up to 4 (thorough 5) of 11 statements: defining, redefining, calling by both ways", of(&st).seq(1, t.pick(4, 5)).map(Case::new)));
    // recursion
    let g = of(&(0..=t.pick(25u64, 50)).collect::<Vec<_>>()).x(&of(&(0..6usize).collect::<Vec<_>>()));
    r.push(cases(
        "recursion",
        "recursive templates that count down from every n up to 25 (thorough 50): by name, by parameter, mutual, through return, over nested lists",
        g.map(|(n, how)| {
            let rec = |again: E| vec![It::If(vec![(cmd("gt", &[var("0"), u(0)]), vec![show("0"), text(","), It::Exp(again)])], Some(vec![text("end")]))];
            let down = cmd("sub", &[var("0"), u(1)]);
            let c = Case::new(vec![]).params(&[V::UInt(n)]);
            match how {
                0 => Case { body: vec![It::Global("r".into(), vec!["n".into()], rec(cmd("r", &[cmd("sub", &[var("n"), u(1)])]))), It::Exp(cmd("r", &[var("0")]))], ..c },
                1 => Case { body: vec![It::Define("r".into(), vec![], rec(cmd("run", &[var("1"), down, var("1")]))), It::Exp(cmd("run", &[var("r"), var("0"), var("r")]))], ..c },
                2 => Case {
                    body: vec![It::Global("p".into(), vec![], rec(cmd("q", &[down.clone()]))), It::Global("q".into(), vec![], vec![text("q"), It::Exp(cmd("p", &[var("0")]))]), It::Exp(cmd("p", &[var("0")]))],
                    ..c
                },
                3 => Case {
                    body: vec![It::Global("s".into(), vec!["n".into()], vec![It::If(vec![(cmd("gt", &[var("n"), u(0)]), vec![It::Return(cmd("add", &[var("n"), cmd("s", &[cmd("sub", &[var("n"), u(1)])])]))])], Some(vec![It::Return(u(0))]))]), It::Exp(cmd("s", &[var("0")]))],
                    ..c
                },
                4 => {
                    let mut v = V::s("leaf");
                    for k in 0..n {
                        v = l(&[V::UInt(k), v]);
                    }
                    let mut c = c.params(&[v]);
                    c.body = vec![It::Global("w".into(), vec!["t".into()], vec![It::If(vec![(cmd("type_of", &[var("t"), s("list")]), vec![text("["), It::For("i".into(), "x".into(), var("t"), vec![It::Exp(cmd("w", &[var("x")]))]), text("]")])], Some(vec![show("t")]))]), It::Exp(cmd("w", &[var("0")]))];
                    c
                }
                _ => {
                    let mut c = c.temp("m", &["n"], rec(cmd("m", &[down])));
                    c.body = vec![It::Exp(cmd("m", &[var("0")])), It::Exp(cmd("m", &[u(1)]))];
                    c
                }
            }
        }),
    ));
    // many parameters
    let g = of(&(0..=t.pick(24usize, 40)).collect::<Vec<_>>()).x(&of(&(0..=t.pick(24usize, 40)).collect::<Vec<_>>())).x(&of(&[0usize, 1]));
    r.push(cases(
        "arity",
        "n named parameters and m arguments, each up to 24 (thorough 40), read by name and by number",
        g.map(|((n, m), how)| {
            let p: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
            let mut body: Vec<It> = p.iter().map(|x| probe(x)).collect();
            body.push(text("/"));
            body.extend((0..m + 1).map(|k| probe(&k.to_string())));
            let a: Vec<E> = (0..m).map(|k| s(&format!("a{};", k))).collect();
            if how == 0 {
                let mut a = a;
                a.insert(0, var("f"));
                Case::new(vec![It::Define("f".into(), p, body), It::Exp(cmd("run", &a))])
            } else {
                Case::new(vec![It::Global("f".into(), p, body), It::Exp(cmd("f", &a))])
            }
        }),
    ));
    // templates are values
    let carry: Vec<E> = vec![var("f"), cmd("get", &[E::List(vec![u(0), var("f")]), u(1)]), cmd("get", &[E::Map(vec![("k".into(), var("f"))]), s("k")]), cmd("first", &[var("nope"), var("f")]), cmd("select", &[u(0), var("f"), u(1)]), s("f"), cmd("run", &[var("mk")]), var("h.0"), u(3)];
    let g = of(&carry).x(&of(&[0usize, 1, 2]));
    r.push(cases(
        "values",
        "templates carried in variables, lists, maps, through first and select, returned by templates",
        g.map(|(e, n)| {
            let mut a = vec![e];
            a.extend((0..n).map(|k| u(k as u64)));
            Case::new(vec![
                It::Define("f".into(), vec!["a".into()], vec![text("F"), probe("a"), probe("1")]),
                It::Define("mk".into(), vec![], vec![It::Define("z".into(), vec![], vec![text("Z"), probe("0")]), It::Return(var("z"))]),
                It::Let(vec![("h".into(), E::List(vec![var("f")]))]),
                It::Exp(cmd("run", &a)),
                It::Exp(cmd("type_of", &[var("f")])),
                show("f"),
            ])
        }),
    ));
    r.extend(crate::kinds::c06(t));
    r
}

// ------------------------------------------------------------------ C07
fn pats(depth: u32) -> G<Pt> {
    let cap = |c: &str| Pt::Cap(c.into(), None);
    let leaf = of(&[
        Pt::Any,
        Pt::Val(V::UInt(1)),
        Pt::Val(V::s("a")),
        Pt::Val(V::Null),
        Pt::Val(V::Bool(true)),
        Pt::Val(V::Int(-1)),
        Pt::Val(V::Float(1.0)),
        Pt::Val(V::Date(2020, 2, 29)),
        cap("c"),
        cap("d"),
        Pt::Filter(cmd("gt", &[var("@"), u(0)])),
        Pt::Filter(cmd("eq", &[cmd("len", &[var("@")]), u(2)])),
        Pt::Filter(u(1)),
        Pt::Filter(cmd("eq", &[])),
        Pt::Filter(cmd("eq", &[var("@"), cmd("first", &[var("c"), s("no c")])])),
    ]);
    if depth == 0 {
        return leaf;
    }
    let p = pats(depth - 1);
    alt(vec![
        leaf,
        p.seq(0, 2).map(Pt::List),
        of(&["a", "b"].map(String::from)).x(&p).seq(0, if depth > 1 { 1 } else { 2 }).map(Pt::Map),
        p.map(|p| Pt::Cap("e".into(), Some(Box::new(p)))),
    ])
}
fn pat_vals() -> Vec<V> {
    vec![
        V::UInt(1), V::UInt(2), V::Int(1), V::Int(-1), V::Float(1.0), V::s("a"), V::s(""), V::Null, V::Bool(true), V::Bool(false), V::Date(2020, 2, 29), V::Date(2020, 2, 28), l(&[]), l(&[V::UInt(1)]), l(&[V::UInt(1), V::s("a")]), l(&[V::s("a"), V::UInt(1)]),
        l(&[V::UInt(1), V::UInt(1), V::UInt(2)]), l(&[l(&[V::UInt(1)]), V::map(&[("a", V::UInt(1))])]), V::map(&[]), V::map(&[("a", V::UInt(1))]), V::map(&[("a", V::UInt(2)), ("b", V::s("a"))]), V::map(&[("b", V::Null)]), V::map(&[("a", l(&[V::UInt(1), V::UInt(1)])), ("b", V::UInt(1))]), V::Bytes(vec![1]), V::Tmpl(None),
    ]
}
fn caps() -> Vec<It> {
    vec![It::Exp(cmd("cat", &[s("|c="), cmd("first", &[var("c"), s("-")]), s(" d="), cmd("first", &[var("d"), s("-")]), s(" e="), cmd("first", &[var("e"), s("-")]), s(" @="), cmd("first", &[var("@"), s("-")]), s(" a="), cmd("first", &[var("a"), s("-")])]))]
}
pub fn c07(t: Tier) -> Vec<Space> {
    let vals = pat_vals();
    let mut r = vec![];
    let v2 = vals.clone();
    let g = pats(1).x(&of(&(0..vals.len()).collect::<Vec<_>>())).x(&of(&[false, true]));
    r.push(cases(
        "one-pattern",
        "every pattern of depth 1 over 15 leaf patterns x 25 values, in as and in switch; captures read inside and after",
        g.map(move |((p, v), sw)| {
            let mut inner = vec![text("M")];
            inner.extend(caps());
            let b = if sw { It::Switch(var("0"), vec![(vec![p], inner), (vec![Pt::Any], [vec![text("other")], caps()].concat())]) } else { It::As(var("0"), p, inner) };
            let mut body = vec![b];
            body.extend(caps());
            Case::new(body).params(&[v2[v].clone()])
        }),
    ));
    // order of cases, several patterns per case
    let some: Vec<Pt> = vec![
        Pt::Any, Pt::Val(V::UInt(1)), Pt::Val(V::s("a")), Pt::Cap("c".into(), Some(Box::new(Pt::Val(V::UInt(1))))), Pt::Filter(cmd("gt", &[var("@"), u(1)])), Pt::List(vec![Pt::Cap("c".into(), None), Pt::Val(V::UInt(1))]),
        Pt::Map(vec![("a".into(), Pt::Cap("a".into(), None))]), Pt::Val(V::Null),
    ];
    let v2: Vec<V> = vec![V::UInt(1), V::UInt(2), V::s("a"), V::Null, l(&[V::s("x"), V::UInt(1)]), l(&[V::s("x"), V::UInt(2)]), V::map(&[("a", V::UInt(1)), ("z", V::Null)])];
    let nv = v2.len();
    let g = of(&some).seq(1, 2).seq(1, t.pick(2, 3)).x(&of(&(0..nv).collect::<Vec<_>>()));
    r.push(cases(
        "case-order",
        "1-2 (thorough 3) cases of 1-2 patterns each, over 8 patterns and 7 values: the first matching pattern decides",
        g.map(move |(cs, v)| {
            let cases = cs.into_iter().enumerate().map(|(n, ps)| (ps, [vec![text(&format!("case{}", n))], caps(), vec![It::Exp(cmd("trace", &[u(n as u64)])), It::Let(vec![("c".into(), s("set"))])]].concat())).collect();
            let mut body = vec![It::Let(vec![("c".into(), s("old"))]), It::Switch(var("0"), cases), text("/")];
            body.extend(caps());
            Case::new(body).params(&[v2[v].clone()])
        }),
    ));
    if t == Tier::Thorough {
        let v3 = vals.clone();
        let g = pats(2);
        let g = g.x(&of(&[13usize, 14, 17, 19, 22]));
        if g.n < 40_000_000 {
            r.push(cases("depth-2", "every pattern of depth 2 x 5 nested values", g.map(move |(p, v)| Case::new([vec![It::As(var("0"), p, [vec![text("M")], caps()].concat())], caps()].concat()).params(&[v3[v].clone()]))));
        }
    }
    // values of every kind against literal patterns of every kind
    let lits: Vec<V> = vec![
        V::Null, V::Bool(true), V::Bool(false), V::UInt(0), V::UInt(1), V::UInt(2), V::UInt(u64::MAX), V::Int(-1), V::Int(i64::MIN), V::Float(0.5), V::Float(1.0), V::Float(-1.0), V::Float(1e300), V::s(""), V::s("1"), V::s("a"), V::s("é\n\"\\"), V::s("null"), V::Date(2020, 2, 29),
    ];
    let k = kinds();
    let nk = k.len();
    let lits2 = lits.clone();
    let g = of(&lits).x(&of(&(0..nk + lits.len()).collect::<Vec<_>>())).x(&of(&[false, true]));
    r.push(cases(
        "literals",
        "19 literal patterns x 51 values of every kind, in as and in switch",
        g.map(move |((p, v), sw)| {
            let v = if v < nk { k[v].clone() } else { lits2[v - nk].clone() };
            let b = if sw { It::Switch(var("0"), vec![(vec![Pt::Val(p)], vec![text("Y")]), (vec![Pt::Any], vec![text("N")])]) } else { It::As(var("0"), Pt::Val(p), vec![text("Y")]) };
            Case::new(vec![b]).params(&[v])
        }),
    ));
    // ladders: list patterns of length n against lists of length m; n cases; n map keys
    let top = t.pick(16usize, 40);
    let g = of(&(0..=top).collect::<Vec<_>>()).x(&of(&(0..=top).collect::<Vec<_>>())).x(&of(&[0usize, 1, 2, 3]));
    r.push(cases(
        "ladder",
        "list patterns of length n x lists of length m, map patterns of n keys x maps of m keys, the m-th of n cases; up to 16 (thorough 40)",
        g.map(|((n, m), how)| {
            let look: Vec<It> = (0..n).map(|k| probe(&format!("c{}", k))).collect();
            match how {
                0 => Case::new(vec![It::As(var("0"), Pt::List((0..n).map(|k| Pt::Cap(format!("c{}", k), None)).collect()), [vec![text("M")], look].concat())]).params(&[V::List((0..m).map(|k| V::UInt(k as u64)).collect())]),
                1 => Case::new(vec![It::As(var("0"), Pt::Map((0..n).map(|k| (format!("c{}", k), Pt::Cap(format!("c{}", k), None))).collect()), [vec![text("M")], look].concat())]).params(&[V::Map((0..m).map(|k| (format!("c{}", k), V::UInt(k as u64))).collect())]),
                2 => Case::new(vec![It::Switch(var("0"), (0..n).map(|k| (vec![Pt::Val(V::UInt(k as u64))], vec![text(&format!("case{}", k))])).collect())]).params(&[V::UInt(m as u64)]),
                _ => Case::new(vec![It::Switch(var("0"), vec![((0..n).map(|k| Pt::Val(V::s(&format!("v{}", k)))).collect(), vec![text("one of")]), (vec![Pt::Cap("c".into(), None)], vec![text("else "), show("c")])])]).params(&[V::s(&format!("v{}", m))]),
            }
        }),
    ));
    // switches and as in loops and in each other: captures do not leak
    let p3: Vec<Pt> = vec![Pt::Cap("c".into(), None), Pt::Val(V::UInt(1)), Pt::List(vec![Pt::Cap("c".into(), None), Pt::Any]), Pt::List(vec![Pt::Cap("c".into(), None), Pt::Val(V::s("never"))]), Pt::Filter(cmd("eq", &[]))];
    let g = of(&p3).x(&of(&p3)).x(&of(&p3)).x(&of(&(0..4usize).collect::<Vec<_>>()));
    r.push(cases(
        "composed",
        "switch and as inside each other and inside a loop over mixed values",
        g.map(|(((a, b), c), how)| {
            let look = caps();
            let inner = match how {
                0 => vec![It::As(var("v"), a, [look.clone(), vec![It::As(var("v"), b, look.clone())], look.clone()].concat()), It::As(var("v"), c, look.clone())],
                1 => vec![It::Switch(var("v"), vec![(vec![a], look.clone()), (vec![b, c], look.clone())])],
                2 => vec![It::Switch(var("v"), vec![(vec![a], vec![It::Switch(s("in"), vec![(vec![b], look.clone()), (vec![c], look.clone())])].into_iter().chain(look.clone()).collect())])],
                _ => vec![It::As(E::List(vec![var("v"), var("k")]), a, vec![It::Switch(var("v"), vec![(vec![b], look.clone()), (vec![c], vec![text("3")])])].into_iter().chain(look.clone()).collect())],
            };
            let body = vec![It::For("k".into(), "v".into(), var("0"), [inner, look.clone(), vec![text(";")]].concat()), It::Exp(s("end"))];
            Case::new([body, look].concat()).params(&[l(&[V::UInt(1), l(&[V::UInt(5), V::UInt(6)]), V::Null, l(&[V::UInt(7)]), V::s("z")])])
        }),
    ));
    r.extend(crate::kinds::c07(t));
    r
}

// ------------------------------------------------------------------ C08
pub fn check_front(cx: &mut Ctx, t: &Tm) -> Res {
    let src = source(&t.body);
    let (want, steps) = crate::interp::World::front_matter(t);
    cx.trans(steps + 1);
    let fm = &cx.fm;
    take_log();
    let got = real(|| -> Result<_, Msg> {
        let mut r: templito::TreeTemplate = std::str::FromStr::from_str(&src).map_err(|e: anyhow::Error| Msg(e.to_string()))?;
        r.pnames = t.pnames.clone();
        Ok(r.front_matter(fm))
    })
    .map(|m| V::Map(m.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()));
    take_log();
    let w = V::Map(want);
    cx.trace();
    cx.state(&w.canon());
    if w.truth() == Some(true) {
        cx.nontrivial();
    }
    cx.sample(|| format!("front matter of {} is {}", src, w.canon()));
    match &got {
        Real::Ok(g) if g.same(&w) => Ok(()),
        g => viol(format!("front matter of {}", src), format!("the reference gives {}; templito gives {}", w.canon(), rv(g))),
    }
}
pub fn c08(t: Tier) -> Vec<Space> {
    let ex = |k: &str, e: E| It::Export(vec![(k.into(), e)]);
    let st: Vec<It> = vec![
        ex("a", u(1)),
        ex("a", cmd("cat", &[cmd("first", &[var("a"), s("no")]), s("+")])),
        It::Export(vec![("b".into(), var("a")), ("c".into(), s("after"))]),
        ex("b", E::Lit(l(&[V::UInt(1), V::Null, V::map(&[("k", V::Date(2021, 3, 4))])]))),
        It::AtExport("a".into(), vec![text("txt"), probe("a"), It::Let(vec![("a".into(), s("loc"))]), probe("a")]),
        It::AtExport("c".into(), vec![ex("d", s("deep")), It::If(vec![(u(1), vec![ex("e", s("deeper"))])], None)]),
        It::AtExport("f".into(), vec![It::Let(vec![("b".into(), s("leak?"))]), It::Exp(cmd("fail", &[s("x")]))]),
        It::AtExport("f".into(), vec![It::If(vec![(u(1), vec![It::For("i".into(), "v".into(), u(1), vec![It::Let(vec![("b".into(), s("leak?"))]), It::As(u(1), Pt::Cap("a".into(), None), vec![It::Exp(cmd("fail", &[]))])])])], None)]),
        It::Let(vec![("a".into(), s("let"))]),
        It::If(vec![(u(1), vec![It::Let(vec![("b".into(), s("inner"))]), ex("a", cmd("first", &[var("b"), s("?")])), probe("a")])], None),
        It::For("k".into(), "v".into(), u(2), vec![ex("b", var("v"))]),
        It::Define("t".into(), vec![], vec![ex("a", s("from t")), It::Return(s("ret"))]),
        It::Return(s("R")),
        text("T"),
        It::AtExport("g".into(), vec![It::As(s("cap"), Pt::List(vec![]), vec![]), It::Switch(u(1), vec![(vec![Pt::Val(V::UInt(2)), Pt::Cap("a".into(), None)], vec![probe("a")])]), probe("b")]),
        It::AtExport("h".into(), vec![It::Define("q".into(), vec![], vec![text("Q"), ex("never", u(0))]), It::Exp(cmd("run", &[var("q")]))]),
        ex("i", cmd("glob", &[u(1)])),
        It::Global("glob".into(), vec![], vec![text("GL"), ex("a", s("glob"))]),
        ex("j", var("0")),
        It::Let(vec![("z".into(), cmd("first", &[cmd("run", &[var("t")]), u(0)]))]),
    ];
    let ok: Vec<It> = st.iter().filter(|i| !matches!(i, It::AtExport(f, _) if f == "f")).cloned().collect();
    let mut r = vec![cases("run-exp", "every sequence of up to 3 (thorough 4) of 20 exporting statements, run: output and export map", of(&st).seq(0, t.pick(3, 4)).map(|b| Case::new(b).params(&[V::s("P")])))];
    let g = of(&st).seq(1, t.pick(3, 4));
    r.push(Space::new("front", "front matter of every sequence of up to 3 (thorough 4) of the 20 statements", g.n, move |i, cx| check_front(cx, &Tm { pnames: vec!["a".into()], body: g.at(i) })));
    // where run succeeds without templates, globals or parameters, the front matter is the part of the exports made at the top level by exports alone
    let g = of(&ok).seq(1, 2).x(&of(&ok));
    r.push(Space::new("front-3", "front matter with a third statement and after a run of the same template", g.n, move |i, cx| {
        let (mut a, b) = g.at(i);
        a.push(b);
        Case::new(a.clone()).params(&[V::s("P")]).check(cx)?;
        check_front(cx, &Tm { pnames: vec![], body: a })
    }));
    // failing blocks at the front: nothing but the failing export is lost
    let fails: Vec<It> = {
        let f = || It::Exp(cmd("fail", &[s("f")]));
        let lt = || It::Let(vec![("x".into(), s("LEAK"))]);
        vec![
            f(),
            It::If(vec![(u(1), vec![lt(), f()])], None),
            It::If(vec![(u(0), vec![])], Some(vec![lt(), f()])),
            It::For("x".into(), "y".into(), u(2), vec![lt(), f()]),
            It::As(s("LEAK"), Pt::Cap("x".into(), None), vec![lt(), f()]),
            It::Switch(s("LEAK"), vec![(vec![Pt::Cap("x".into(), None)], vec![lt(), f()])]),
            It::AtLet("x".into(), vec![lt(), f()]),
            It::AtExport("x2".into(), vec![lt(), f()]),
            It::Block("cat".into(), vec![], vec![lt(), f()]),
            It::Block("fail".into(), vec![var("@")], vec![lt(), text("b")]),
            It::Let(vec![("x".into(), cmd("fail", &[]))]),
            It::For("x".into(), "y".into(), s("no"), vec![]),
            It::Exp(cmd("nothing", &[])),
            It::Switch(cmd("fail", &[]), vec![]),
            It::As(cmd("fail", &[]), Pt::Any, vec![]),
            It::Return(cmd("fail", &[])),
            It::Export(vec![("ok1".into(), u(1)), ("bad".into(), cmd("fail", &[])), ("ok2".into(), u(2))]),
        ]
    };
    let nf = fails.len();
    let ff = fails.clone();
    let g = of(&fails).x(&of(&(0..nf).collect::<Vec<_>>())).x(&of(&(0..5usize).collect::<Vec<_>>()));
    r.push(Space::new("failing-exports", "17x17 failing blocks nested in each other inside @export, followed by exports that look at every variable", g.n, move |i, cx| {
        let ((a, b), how) = g.at(i);
        let b = ff[b].clone();
        let nest = |o: &It, i: It| match o.clone() {
            It::If(mut arms, no) => {
                if let Some(mut n) = no {
                    n.insert(1, i);
                    It::If(arms, Some(n))
                } else {
                    arms[0].1.insert(1, i);
                    It::If(arms, None)
                }
            }
            It::For(k, v, e, mut bl) => {
                bl.insert(0, i);
                It::For(k, v, e, bl)
            }
            It::As(e, p, mut bl) => {
                bl.insert(0, i);
                It::As(e, p, bl)
            }
            o => o,
        };
        let first = nest(&a, b.clone());
        let look = It::Export(vec![("sx".into(), cmd("first", &[var("x"), s("-")])), ("sy".into(), cmd("first", &[var("y"), s("-")])), ("sat".into(), cmd("first", &[var("@"), s("-")]))]);
        let late = It::AtExport("late".into(), vec![text("L"), probe("x"), probe("y")]);
        let body = match how {
            0 => vec![It::AtExport("e".into(), vec![text("t"), first]), look, late],
            1 => vec![It::AtExport("e".into(), vec![first]), It::AtExport("e2".into(), vec![b]), look, late],
            2 => vec![ex2("x", s("ok")), It::AtExport("e".into(), vec![first]), look, late],
            3 => vec![It::AtExport("e".into(), vec![It::If(vec![(u(1), vec![It::If(vec![(u(1), vec![first])], None)])], None)]), ex2("x", s("new")), late, look],
            _ => vec![first, look, late],
        };
        check_front(cx, &Tm { pnames: vec![], body })
    }));
    // every exporting statement inside every pair of blocks: what a block exports belongs to the run
    let stm: Vec<It> = vec![
        ex("a", s("new")),
        ex("b", var("v")),
        It::AtExport("a".into(), vec![text("blk"), probe("a")]),
        It::AtExport("b".into(), vec![text("blk"), It::Let(vec![("a".into(), s("in"))]), ex("c", var("a"))]),
        It::Return(cmd("cat", &[s("R"), cmd("first", &[var("a"), s("-")])])),
        It::Let(vec![("a".into(), s("local"))]),
        It::AtLet("a".into(), vec![text("loc"), ex("b", s("from let"))]),
        It::Define("t".into(), vec![], vec![text("T"), ex("a", s("of t")), It::AtExport("b".into(), vec![text("x")])]),
        It::Global("t".into(), vec![], vec![text("G"), ex("a", s("of g"))]),
        It::Exp(cmd("run", &[var("t")])),
    ];
    let wrap = move |k: usize, b: Vec<It>| -> Vec<It> {
        vec![match k {
            0 => It::If(vec![(u(1), b)], None),
            1 => It::If(vec![(u(0), vec![])], Some(b)),
            2 => It::If(vec![(u(0), vec![]), (u(1), b)], None),
            3 => It::For("k".into(), "v".into(), E::Lit(l(&[V::s("p"), V::s("q")])), b),
            4 => It::For("k".into(), "v".into(), E::Lit(V::map(&[("m", V::UInt(1))])), b),
            5 => It::As(s("cap"), Pt::Cap("v".into(), None), b),
            6 => It::Switch(u(1), vec![(vec![Pt::Val(V::UInt(0))], vec![]), (vec![Pt::Cap("v".into(), None)], b)]),
            7 => It::AtLet("z".into(), b),
            8 => It::AtExport("z".into(), b),
            9 => It::Block("cat".into(), vec![s("x")], b),
            10 => {
                return vec![It::Define("d".into(), vec![], b), It::Exp(cmd("run", &[var("d")]))];
            }
            _ => {
                let mut v = b;
                v.push(text("."));
                return v;
            }
        }]
    };
    let ks: Vec<usize> = (0..12).collect();
    let g = of(&stm).seq(1, 2).x(&of(&ks)).x(&of(&ks)).x(&of(&[0usize, 1]));
    r.push(Space::new("nested-exports", "every one or two of 10 exporting statements in every pair of 12 block kinds, run and as front matter, what follows looks at the variables", g.n, move |i, cx| {
        let (((b, k1), k2), first) = g.at(i);
        let mut body = if first == 1 { vec![ex2("a", s("old"))] } else { vec![] };
        body.extend(wrap(k1, wrap(k2, b)));
        body.extend([text("|"), probe("a"), probe("b"), probe("z"), It::Export(vec![("last".into(), cmd("first", &[var("a"), s("-")]))])]);
        Case::new(body.clone()).check(cx)?;
        check_front(cx, &Tm { pnames: vec![], body })
    }));
    // names and values of every kind survive
    let k = kinds();
    let g = of(&(0..k.len()).collect::<Vec<_>>()).x(&of(&["a", "return", "@x", "é", "x y", "K_1"])).x(&of(&[0usize, 1, 2]));
    r.push(cases(
        "values",
        "every kind of value exported under 6 names, at the top, in a block, through a list",
        g.map(move |((v, n), how)| {
            let e = It::Export(vec![(n.into(), if how == 2 { E::List(vec![var("0"), E::Map(vec![("k".into(), var("0"))])]) } else { var("0") })]);
            let b = if how == 1 { vec![It::If(vec![(u(1), vec![It::For("i".into(), "v".into(), u(2), vec![e])])], None)] } else { vec![e] };
            Case::new(b).params(&[k[v].clone()])
        }),
    ));
    let g = of(&(0..=t.pick(70usize, 200)).collect::<Vec<_>>()).x(&of(&[0usize, 1, 2]));
    r.push(Space::new("many", "n exports, n up to 70 (thorough 200): run and front matter", g.n, move |i, cx| {
        let (n, how) = g.at(i);
        let b: Vec<It> = (0..n)
            .map(|k| match how {
                0 => ex2(&format!("e{}", k), u(k as u64)),
                1 => It::AtExport(format!("e{}", k), vec![text(&format!("v{}", k)), probe(&format!("e{}", k.max(1) - 1))]),
                _ => ex2("e", cmd("cat", &[cmd("first", &[var("e"), s("")]), u(k as u64)])),
            })
            .collect();
        Case::new(b.clone()).check(cx)?;
        check_front(cx, &Tm { pnames: vec![], body: b })
    }));
    r.extend(crate::kinds::c08(t));
    r
}
fn ex2(k: &str, e: E) -> It {
    It::Export(vec![(k.into(), e)])
}

// ------------------------------------------------------------------ C31
pub fn c31(t: Tier) -> Vec<Space> {
    let at = || E::Var(vec![P::Id("@".into())]);
    let bodies: Vec<Vec<It>> = vec![
        vec![],
        vec![text("plain <b>&")],
        vec![text("a"), show("0"), text(" "), probe("x")],
        vec![It::Let(vec![("x".into(), s("in"))]), probe("x")],
        vec![It::For("i".into(), "x".into(), u(3), vec![show("i"), text(",")])],
        vec![It::Export(vec![("x".into(), s("exported"))]), text("E")],
        vec![It::Exp(cmd("fail", &[s("blk")])), text("never")],
        vec![It::Block("cat".into(), vec![at(), s("-in")], vec![text("inner")]), probe("@")],
        vec![It::If(vec![(var("nope"), vec![text("y")])], Some(vec![text("n")]))],
        vec![text("line 1\nline 2\n"), It::Comment("c".into())],
        vec![probe("@")],
        vec![It::Exp(cmd("trace", &[s("in body")]))],
    ];
    let args: Vec<Vec<E>> = vec![
        vec![], vec![at()], vec![at(), s("tail")], vec![s("head"), at()], vec![s("only")], vec![at(), at()], vec![cmd("cat", &[at(), s("!")])], vec![cmd("fail", &[s("arg")]), at()], vec![var("x")], vec![E::List(vec![at(), u(1)])],
        vec![cmd("first", &[var("nope"), at()])], vec![u(2), at()],
    ];
    let fns = ["cat", "len", "trace", "fail", "html_esc", "list", "tmpl", "type_of", "no_such", "eq", "split", "str_replace"];
    let tmpl = vec![text("T("), probe("0"), text(","), probe("p"), text(","), probe("1"), text(","), probe("x"), text(")")];
    let g = of(&bodies).x(&of(&args)).x(&of(&fns));
    let t1 = tmpl.clone();
    let mut r = vec![cases(
        "blocks",
        "12 bodies x 12 argument lists x 12 commands (functions, a template, a failing and a missing one); @ and variables read before and after",
        g.map(move |((b, a), f)| {
            Case::new(vec![It::Let(vec![("x".into(), s("out"))]), probe("@"), text("<"), It::Block(f.into(), a, b), text(">"), probe("@"), probe("x")]).params(&[V::s("P")]).temp("tmpl", &["p"], t1.clone())
        }),
    )];
    // arguments that are there only if the body made them
    let mut bodies2 = bodies.clone();
    bodies2.extend([vec![It::AtExport("x".into(), vec![text("ax")])], vec![It::If(vec![(u(1), vec![It::Export(vec![("x".into(), s("ix"))])])], None), text("F")], vec![It::Block("cat".into(), vec![], vec![It::Export(vec![("x".into(), s("bx"))])])]]);
    let args2: Vec<Vec<E>> = vec![vec![var("x")], vec![var("x"), at()], vec![at(), var("x")], vec![cmd("cat", &[var("x")]), at()], vec![cmd("first", &[var("x"), s("none")]), at()], vec![at(), cmd("first", &[var("x"), s("none")])], vec![E::List(vec![var("x"), at()])], vec![tr("before", s("a")), at(), tr("after", s("b"))]];
    let g = of(&bodies2).x(&of(&args2)).x(&of(&fns)).x(&of(&[false, true]));
    let t3 = tmpl.clone();
    r.push(cases(
        "made-by-the-body",
        "15 bodies, some of which export a variable, x 8 argument lists that read it x 12 commands, with and without such a variable before",
        g.map(move |(((b, a), f), pre)| {
            let mut v = vec![text("<"), It::Block(f.into(), a, b), text(">"), probe("@"), probe("x")];
            if pre {
                v.insert(0, It::Export(vec![("x".into(), s("out"))]));
            }
            Case::new(v).params(&[V::s("P")]).temp("tmpl", &["p"], t3.clone())
        }),
    ));
    // @let and @export with every body
    let g = of(&bodies).x(&of(&bodies)).x(&of(&(0..6usize).collect::<Vec<_>>()));
    r.push(cases(
        "capture",
        "@let and @export of 12x12 bodies in 6 arrangements: the variable holds exactly what the body shows",
        g.map(|((a, b), how)| {
            let look = vec![text("["), probe("x"), text("|"), probe("y"), text("]")];
            let b = match how {
                0 => vec![It::AtLet("x".into(), a), It::AtLet("y".into(), b)],
                1 => vec![It::AtExport("x".into(), a), It::AtLet("y".into(), b)],
                2 => vec![It::AtLet("x".into(), [a, vec![It::AtLet("y".into(), b)]].concat())],
                3 => vec![It::If(vec![(u(1), [vec![It::AtLet("x".into(), a)], look.clone(), vec![It::AtExport("y".into(), b)]].concat())], None)],
                4 => vec![It::AtLet("x".into(), a), It::AtExport("x".into(), b)],
                _ => vec![It::Block("cat".into(), vec![at2(), s("+")], vec![It::AtExport("x".into(), a), It::AtLet("y".into(), b), probe("y")])],
            };
            Case::new([b, look].concat()).params(&[V::s("P")])
        }),
    ));
    // one after the other
    let bs: Vec<Vec<It>> = vec![vec![], vec![text("b")], vec![text(" ")], vec![It::Let(vec![("@".into(), s("own"))]), text("c")], vec![It::Export(vec![("@".into(), s("ex"))])], vec![It::If(vec![(var("1"), vec![text("z")])], None)], vec![show("@")]];
    let ars: Vec<Vec<E>> = vec![vec![], vec![at()], vec![s("q"), at()], vec![E::List(vec![at()])]];
    let mut steps: Vec<It> = bs.iter().flat_map(|b| ars.iter().map(move |a| It::Block("cat".into(), a.clone(), b.clone()))).collect();
    steps.extend([It::AtLet("@".into(), vec![]), It::AtLet("@".into(), vec![text("l")]), It::Let(vec![("@".into(), lit(crate::val::V::Null))]), It::Block("tmpl".into(), vec![at()], vec![]), It::Block("tmpl".into(), vec![at()], vec![text("tt")])]);
    let ns = steps.len();
    let g = of(&(0..ns).collect::<Vec<_>>()).seq(2, t.pick(2, 3)).x(&of(&[0usize, 1, 2]));
    let t4 = tmpl.clone();
    r.push(cases(
        "one-after-the-other",
        "2 (thorough 3) of 33 block commands, @lets in a row, in a loop, in an if: @ is each time what the body gives",
        g.map(move |(seq, how)| {
            let b: Vec<It> = seq.iter().flat_map(|k| vec![text("<"), steps[*k].clone(), text(">"), probe("@")]).collect();
            let b = match how {
                0 => b,
                1 => vec![It::For("k".into(), "1".into(), E::List(vec![s(""), s("x")]), b), probe("@")],
                _ => vec![It::Block("cat".into(), vec![at2()], vec![text("o")]), It::If(vec![(u(1), b)], None), probe("@")],
            };
            Case::new(b).params(&[V::s("P"), V::s("")]).temp("tmpl", &["p"], t4.clone())
        }),
    ));
    // blocks in blocks
    let fs = ["cat", "html_esc", "len", "tmpl"];
    let aa: Vec<Vec<E>> = vec![vec![], vec![at()], vec![at(), s("z")], vec![s("q"), at()]];
    let one = of(&fs).x(&of(&aa));
    let g = one.seq(2, t.pick(2, 3)).x(&of(&[0usize, 1]));
    let t2 = tmpl.clone();
    r.push(cases(
        "nested",
        "2 (thorough 3) nested block commands: 4 commands x 4 argument lists at each level",
        g.map(move |(chain, how)| {
            let mut b = vec![text("<i>"), probe("@")];
            for (f, a) in chain.into_iter().rev() {
                b = vec![text("&"), It::Block(f.into(), a, b), probe("@")];
                if how == 1 {
                    b.push(It::Block("cat".into(), vec![at2(), at2()], vec![text("2nd")]));
                }
            }
            Case::new(b).temp("tmpl", &["p"], t2.clone())
        }),
    ));
    // ladders: body length, nesting
    let g = of(&[0usize, 1, 2, 7, 8, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 1000]).x(&of(&(0..5usize).collect::<Vec<_>>()));
    r.push(cases(
        "sizes",
        "bodies of up to 1000 items, 1000 characters, nesting up to 32",
        g.map(|(n, how)| {
            let b = match how {
                0 => vec![It::Block("len".into(), vec![], vec![text(&"é".repeat(n))])],
                1 => vec![It::Block("cat".into(), vec![at2(), s("|")], (0..n).map(|k| It::Exp(u(k as u64))).collect())],
                2 => vec![It::AtLet("x".into(), vec![It::For("i".into(), "v".into(), u(n as u64), vec![show("i"), text("\n")])]), It::Exp(cmd("len", &[var("x")])), show("x")],
                3 => {
                    let mut b = vec![text("core")];
                    for k in 0..n.min(32) {
                        b = vec![It::Block("cat".into(), vec![at2(), u(k as u64)], b)];
                    }
                    b
                }
                _ => vec![It::Block("html_esc".into(), vec![], vec![text(&"<a&\"'>".repeat(n))])],
            };
            Case::new(b)
        }),
    ));
    r.extend(crate::kinds::c31(t));
    r.extend(crate::chars::c31());
    r
}
fn at2() -> E {
    E::Var(vec![P::Id("@".into())])
}
