//! C14 arithmetic, C15 comparison and logic, C16 sorting and searching, C17 lists and maps, C18 strings,
//! C20 escaping, C22 paths, C24 svg, C30 random numbers.
use crate::ast::*;
use crate::common::*;
use crate::ctl::{kinds, l};
use crate::engine::*;
use crate::gen::*;
use crate::val::{self, V};
use std::cmp::Ordering;

fn vs(v: &[&str]) -> Vec<V> {
    v.iter().map(|s| V::s(s)).collect()
}
fn with(n: &str, g: G<Vec<V>>) -> G<(String, Vec<V>)> {
    let n = n.to_string();
    g.map(move |a| (n.clone(), a))
}
/// the call as a template writes it: every argument a variable, or - where it has one - a literal
fn as_template(cx: &mut Ctx, n: &str, a: &[V], want: &Result<V, String>) -> Res {
    let src = format!("{{{{{}{}}}}}", n, (0..a.len()).map(|i| format!(" ${}", i)).collect::<String>());
    let got = real_src(&src, a, &cx.fm);
    cx.trace();
    let ok = match (want, &got) {
        (Ok(v), Real::Ok(o)) => v.show() == o.0,
        (Err(_), Real::Err(_)) => true,
        _ => false,
    };
    if !ok {
        return viol(format!("{} with {}", src, V::List(a.to_vec()).canon()), format!("the reference shows {:?}; templito gives {:?}", want.as_ref().map(|v| v.show()), got));
    }
    Ok(())
}
/// calls made directly and from a template
fn calls_both(name: &str, bounds: &str, g: G<(String, Vec<V>)>) -> Space {
    Space::new(name, bounds, g.n, move |i, cx| {
        let (n, a) = g.at(i);
        check_call(cx, &n, &a)?;
        let want = crate::mfun::call(&n, &a);
        as_template(cx, &n, &a, &want)
    })
}

// ------------------------------------------------------------------ C14
const ARITH: &[&str] = &["add", "sub", "mul", "div", "mod", "min", "max"];
fn edges() -> Vec<V> {
    let mut r = vec![];
    for i in [0i64, 1, -1, 2, -2, 3, -3, 7, -7, 10, 63, 64, 1 << 31, -(1 << 31), (1 << 32) + 1, 1 << 53, (1 << 53) + 1, 3037000499, 3037000500, i64::MAX / 2, i64::MAX / 2 + 1, i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1, i64::MIN / 2] {
        r.push(V::Int(i));
    }
    for i in [0u64, 1, 2, 3, 7, 10, 64, 1 << 32, (1 << 32) - 1, 4294967296, (1 << 53) + 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX / 2 - 1, u64::MAX - 1, u64::MAX] {
        r.push(V::UInt(i));
    }
    for f in [0.0, -0.0, 1.0, -1.0, 0.5, -0.1, 0.1, 0.2, 2.5, 3.0, 1e16, 9007199254740993.0, 1e300, -1e300, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.8446744073709552e19, 9.223372036854775807e18] {
        r.push(V::Float(f));
    }
    r
}
/// which zero `min` and `max` choose is left open
fn check_arith(cx: &mut Ctx, n: &str, a: &[V]) -> Res {
    let want = crate::mfun::call(n, a);
    if let (true, Ok(V::Float(f))) = (n == "min" || n == "max", &want) {
        if *f == 0.0 {
            let got = call_fn(&cx.fm, n, a);
            cx.trace();
            return match got {
                Real::Ok(V::Float(g)) if g == 0.0 => Ok(()),
                g => viol(key_call(n, a), format!("the reference gives {}; templito gives {}", f, rv(&g))),
            };
        }
    }
    check_call_with(cx, n, a, want)
}
pub fn c14(t: Tier) -> Vec<Space> {
    let mk = |name: &str, b: &str, g: G<(String, Vec<V>)>| {
        Space::new(name, b, g.n, move |i, cx| {
            let (n, a) = g.at(i);
            check_arith(cx, &n, &a)
        })
    };
    let op = fnames(ARITH);
    let e = of(&edges());
    let mut k = edges();
    k.extend(kinds());
    let mut r = vec![mk("edges", "7 operations x 0-2 arguments of 65 edge values of all number kinds and every other kind of value", op.x(&of(&k).seq(0, 2)))];
    let few: Vec<V> = edges().into_iter().enumerate().filter(|(i, _)| t == Tier::Thorough || i % 2 == 0).map(|x| x.1).collect();
    r.push(mk("edges-3", "every 3 of 33 (thorough 65) edge values: left to right", op.x(&of(&few).seq(3, 3))));
    // a small range of every kind, completely
    let m = t.pick(16i64, 64);
    let mut small: Vec<V> = vec![];
    for i in -m..=m {
        small.push(V::Int(i));
        small.push(V::Float(i as f64));
        small.push(V::Float(i as f64 / 4.0));
        if i >= 0 {
            small.push(V::UInt(i as u64));
        }
    }
    r.push(mk("small", "every pair of -16..16 (thorough -64..64) as int, uint, float, quarter", op.x(&of(&small).seq(2, 2))));
    // powers of two and their neighbours
    let mut p2: Vec<V> = vec![];
    for s in 0..64u32 {
        for d in [-1i128, 0, 1] {
            let n = (1i128 << s) + d;
            if n <= i64::MAX as i128 {
                p2.push(V::Int(n as i64));
                p2.push(V::Int((-n) as i64));
            }
            if n >= 0 {
                p2.push(V::UInt(n as u64));
            }
        }
    }
    let p2 = if t == Tier::Quick { p2.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect() } else { p2 };
    r.push(mk("powers", "every pair of +-2^n-1, 2^n, 2^n+1, n up to 63 (quick: every second), ints and uints", op.x(&of(&p2).seq(2, 2))));
    // folds of every length
    let top = t.pick(70u64, 300);
    let pats: [fn(u64) -> V; 10] = [
        |i| V::UInt(i), |i| V::Int(-(i as i64)), |_| V::UInt(1), |_| V::UInt(2), |i| if i == 0 { V::UInt(u64::MAX) } else { V::UInt(1) }, |i| if i == 0 { V::Int(i64::MAX) } else { V::Int(-(i as i64)) }, |i| V::Float(i as f64 / 3.0),
        |i| if i % 2 == 0 { V::Int(i as i64) } else { V::Float(0.25) }, |i| if i % 3 == 0 { V::Int(1 << 62) } else { V::Int(-(1 << 61)) }, |i| if i == 0 { V::UInt(u64::MAX) } else { V::UInt(i + 1) },
    ];
    let no = ARITH.len() as u64;
    r.push(Space::new("folds", "10 patterns of n arguments, n up to 70 (thorough 300)", no * 10 * (top + 1), move |i, cx| {
        let mut d = Digits(i);
        let n = d.pick(ARITH);
        let p = pats[d.take(10) as usize];
        let len = d.take(top + 1);
        check_arith(cx, n, &(0..len).map(p).collect::<Vec<_>>())
    }));
    // one odd value among many
    r.push(Space::new("odd-one", "20 ones and one other value of 65 edges and all kinds at every position", no * k.len() as u64 * 21, move |i, cx| {
        let mut d = Digits(i);
        let n = d.pick(ARITH);
        let v = d.pick(&k);
        let at = d.take(21) as usize;
        let mut a = vec![V::UInt(1); 20];
        a.insert(at, v.clone());
        check_arith(cx, n, &a)
    }));
    // as templates write it
    let lits: Vec<V> = [0i64, -1, -7, i64::MIN].iter().map(|i| V::Int(*i)).chain([0u64, 1, 7, 255, u64::MAX].iter().map(|u| V::UInt(*u))).chain([0.5, -2.0, 1e21].iter().map(|f| V::Float(*f))).collect();
    let g = op.x(&of(&lits).seq(1, 3));
    r.push(cases("written", "operations written in a template on 1-3 literals of 12: what is shown", g.map(|(n, a)| Case::new(vec![It::Exp(E::Cmd(n, a.into_iter().map(lit).collect()))]))));
    let ops: Vec<E> = vec![];
    let _ = (ops, e);
    let g = op.x(&op).x(&of(&lits).seq(3, 3));
    r.push(cases("nested", "one operation inside another, on the left and on the right", g.map(|((n, m), a)| {
        let a: Vec<E> = a.into_iter().map(lit).collect();
        Case::new(vec![It::Exp(E::Cmd("first".into(), vec![E::Cmd(n.clone(), vec![E::Cmd(m.clone(), vec![a[0].clone(), a[1].clone()]), a[2].clone()])])), text("|"), It::Exp(E::Cmd("list".into(), vec![E::Cmd(n, vec![a[0].clone(), E::Cmd(m, vec![a[1].clone(), a[2].clone()])])]))])
    })));
    r
}

// ------------------------------------------------------------------ C15
fn compared() -> Vec<V> {
    let mut v = kinds();
    v.extend([
        V::Int((1 << 53) + 1), V::Float(9007199254740992.0), V::UInt((1 << 53) + 1), V::UInt(u64::MAX), V::Float(1.8446744073709552e19), V::Int(i64::MAX), V::Int(i64::MIN), V::Float(-9.223372036854775808e18), V::Float(9.223372036854775808e18), V::UInt(1 << 63), V::Float(f64::NAN), V::Float(f64::INFINITY), V::Float(f64::NEG_INFINITY), V::Float(-0.0),
        V::UInt(3), V::Int(3), V::Float(3.0), V::Float(2.9999999999999996), V::s("3"), V::s("abc"), V::s("abd"), V::s("ab"), V::s("é"), V::s("Z"), V::s("null"), V::s("true"), V::Date(2020, 12, 31), V::Date(2021, 1, 1), V::Date(1999, 2, 28), V::Bytes(vec![1, 2]), V::Bytes(vec![1]), V::Bytes(vec![255]),
        l(&[V::UInt(3)]), l(&[V::Int(3)]), l(&[V::UInt(3), V::Null]), l(&[l(&[])]), l(&[V::Float(f64::NAN)]), l(&[V::s("a"), V::s("b")]), l(&[V::s("a"), V::s("c")]), l(&[V::s("b")]),
        V::map(&[("a", V::UInt(3))]), V::map(&[("a", V::Float(3.0))]), V::map(&[("b", V::UInt(3))]), V::map(&[("a", V::UInt(3)), ("b", V::Null)]), V::map(&[("a", V::map(&[("c", V::s("x"))]))]), V::map(&[("a", V::map(&[("c", V::s("y"))]))]),
        V::Tmpl(None), V::Tmpl(Some(tm(&[], vec![text("a")]))), V::Tmpl(Some(tm(&["p"], vec![text("a")]))), V::Tmpl(Some(tm(&[], vec![text("b")]))),
    ]);
    v
}
const CMP: &[&str] = &["eq", "neq", "eq_any", "gt", "gte", "lt", "lte"];
pub fn c15(t: Tier) -> Vec<Space> {
    let c = compared();
    let cm = fnames(CMP);
    let cg = of(&c);
    let mut r = vec![calls_both("pairs", "7 comparisons x 0-2 arguments of 80 values: edges of every kind, numbers equal across kinds, nested lists and maps, NaN, templates", cm.x(&cg.seq(0, 2)))];
    r.push(calls("triples", "every 3 arguments of 27 (thorough 80) values: all B's, or any", cm.x(&of(&c.iter().step_by(t.pick(3, 1)).cloned().collect::<Vec<_>>()).seq(3, 3))));
    // the laws, asked of templito itself
    let n = c.len() as u64;
    let c2 = c.clone();
    let ask = |cx: &Ctx, f: &str, a: &V, b: &V| call_fn(&cx.fm, f, &[a.clone(), b.clone()]).ok().map_or(false, |v| v.same(&V::Bool(true)));
    r.push(Space::new("laws-2", "every pair of 80: equal to itself, symmetric, exactly one of less/equal/greater or incomparable, gte/lte/neq/eq_any say the same, mirrored, same answer within lists and maps", n * n, move |i, cx| {
        let (a, b) = (&c2[(i % n) as usize], &c2[(i / n) as usize]);
        let key = format!("laws of {} and {}", a.canon(), b.canon());
        let q = |f: &str, x: &V, y: &V| ask(cx, f, x, y);
        let (eq, lt, gt, le, ge, ne, any) = (q("eq", a, b), q("lt", a, b), q("gt", a, b), q("lte", a, b), q("gte", a, b), q("neq", a, b), q("eq_any", a, b));
        let (eq2, lt2, gt2) = (q("eq", b, a), q("lt", b, a), q("gt", b, a));
        let wrap = (q("eq", &l(&[a.clone()]), &l(&[b.clone()])), q("eq", &V::map(&[("k", a.clone())]), &V::map(&[("k", b.clone())])));
        let has_nan = |v: &V| v.canon().contains("fNaN");
        let refl = has_nan(a) || q("eq", a, a);
        let ix = call_fn(&cx.fm, "index_of", &[a.clone(), l(&[b.clone()])]).ok().map_or(false, |v| matches!(v, V::UInt(0)));
        cx.trace();
        cx.trans(14);
        cx.state(&(eq, lt, gt));
        cx.nontrivial();
        let bad = [
            (!refl, "a value differs from itself"), (eq != eq2, "eq is not symmetric"), (lt != gt2 || gt != lt2, "less one way is not greater the other way"), ((eq as u8 + lt as u8 + gt as u8) > 1, "more than one of less, equal, greater"), (le != (lt || eq), "lte is not less or equal"), (ge != (gt || eq), "gte is not greater or equal"), (ne == eq, "neq is not the opposite of eq"), (any != eq, "eq_any of one differs from eq"),
            (wrap.0 != eq || wrap.1 != eq, "equality differs inside a list or map"), (ix != eq, "index_of finds what is not equal, or does not find what is"),
        ];
        for (b, m) in bad {
            if b {
                return viol(key, m);
            }
        }
        Ok(())
    }));
    let c3: Vec<V> = c.iter().step_by(t.pick(2, 1)).cloned().collect();
    let n3 = c3.len() as u64;
    r.push(Space::new("laws-3", "every 3 of 40 (thorough 80): equality and order are transitive", n3 * n3 * n3, move |i, cx| {
        let mut d = Digits(i);
        let (a, b, c) = (d.pick(&c3), d.pick(&c3), d.pick(&c3));
        cx.trace();
        cx.trans(2);
        for f in ["eq", "lt", "lte"] {
            if ask(cx, f, a, b) && ask(cx, f, b, c) {
                cx.nontrivial();
                if !ask(cx, f, a, c) {
                    return viol(format!("{} of {}, {}, {}", f, a.canon(), b.canon(), c.canon()), "not transitive");
                }
            }
        }
        Ok(())
    }));
    // logic
    let lg = fnames(&["and", "or", "nand", "nor"]);
    let k = of(&kinds());
    r.push(calls_both("logic-2", "and, or, nand, nor of every 0-2 values of all kinds", lg.x(&k.seq(0, 2))));
    let tf = [V::Bool(true), V::Bool(false), V::Null, V::UInt(1), V::s(""), V::Bytes(vec![1])];
    r.push(calls("logic-n", "and, or, nand, nor of every 3-5 (thorough 7) of 6 values", lg.x(&of(&tf).seq(3, t.pick(5, 7)))));
    // types
    let mut names = vs(&["null", "bool", "string", "int", "uint", "float", "list", "map", "date", "bytes", "template", "other", ""]);
    names.push(V::Null);
    let g = of(&c).x(&of(&names).opt()).map(|(v, n)| ("type_of".to_string(), [vec![v], n.into_iter().collect()].concat()));
    r.push(calls_both("types", "type_of 80 values, alone and compared with 14 names", g));
    r.push(calls_both("tests", "is_null, is_num of 0-1 values and of two", fnames(&["is_null", "is_num", "type_of"]).x(&cg.seq(0, 1))));
    r.push(calls("tests-2", "a second argument does not matter", fnames(&["is_null", "is_num"]).x(&k.seq(2, 2))));
    // ladders
    let top = t.pick(70u64, 200);
    let fs: Vec<&str> = CMP.iter().chain(&["and", "or", "nand", "nor"]).copied().collect();
    let nf = fs.len() as u64;
    r.push(Space::new("ladder", "n arguments with one that differs at every position, n up to 70 (thorough 200)", nf * 3 * (top + 1) * (top + 1), move |i, cx| {
        let mut d = Digits(i);
        let f = *d.pick(&fs);
        let kind = d.take(3);
        let n = d.take(top + 1);
        let at = d.take(top + 1);
        if at > n {
            return Ok(());
        }
        let v = |x: u64| match kind {
            0 => V::UInt(x),
            1 => V::Bool(x != 1),
            _ => V::s(["a", "b", "c"][x as usize]),
        };
        let a: Vec<V> = (0..n).map(|j| v(if j == 0 { 1 } else if j == at { 2 } else { [1, 0, 2][(n % 3) as usize] })).collect();
        check_call(cx, f, &a)
    }));
    let lt = t.pick(40u64, 140);
    r.push(Space::new("long", "lists, strings, bytes, maps and nested lists of n members or levels that differ in the member at each position or in length, n up to 40 (thorough 140)", CMP.len() as u64 * 5 * (lt + 1) * (lt + 3), move |i, cx| {
        let mut d = Digits(i);
        let f = *d.pick(CMP);
        let kind = d.take(5);
        let n = d.take(lt + 1) as usize;
        let diff = d.take(lt + 3) as usize;
        if diff > n + 2 {
            return Ok(());
        }
        let make = |len: usize, at: usize| match kind {
            0 => V::List((0..len).map(|j| if j == at { V::s("x") } else { V::UInt(j as u64) }).collect()),
            1 => V::Str((0..len).map(|j| if j == at { 'é' } else { (b'a' + (j % 26) as u8) as char }).collect()),
            2 => V::Bytes((0..len).map(|j| if j == at { 255 } else { j as u8 }).collect()),
            3 => V::Map((0..len).map(|j| (format!("k{}", j), if j == at { V::s("x") } else { V::Int(j as i64) })).collect()),
            _ => (0..len).rev().fold(V::UInt(1), |v, j| if j == at { l(&[V::UInt(1), v]) } else { l(&[v]) }),
        };
        let no = usize::MAX;
        let (a, b) = match diff {
            0 => (make(n, no), make(n, no)),
            1 => (make(n, no), make(n + 1, no)),
            2 => (make(n, no), make(n, n.saturating_sub(1))),
            p => (make(n, p - 3), make(n, no)),
        };
        check_call(cx, f, &[a, b])
    }));
    // numbers near one another
    let mut nums: Vec<V> = vec![];
    for q in -20i64..=20 {
        nums.push(V::Float(q as f64 / 4.0));
    }
    for k in -6i64..=6 {
        nums.push(V::Int(k));
        if k >= 0 {
            nums.push(V::UInt(k as u64));
        }
    }
    let ks: Vec<u32> = t.pick(vec![7, 8, 16, 31, 32, 52, 53, 54, 62, 63, 64], (3..=64).collect());
    for k in ks {
        for o in [-1i128, 0, 1] {
            for sg in [1i128, -1] {
                let x = sg * ((1i128 << k) + o);
                if x >= 0 && x <= u64::MAX as i128 {
                    nums.push(V::UInt(x as u64));
                }
                if x >= i64::MIN as i128 && x <= i64::MAX as i128 {
                    nums.push(V::Int(x as i64));
                }
                nums.push(V::Float(x as f64));
                nums.push(V::Float(x as f64 + 0.5));
            }
        }
    }
    let ng = of(&nums);
    r.push(calls("numbers", "7 comparisons of every two of quarters from -5 to 5, whole numbers from -6 to 6 and the numbers around 11 (thorough 62) powers of two, of each kind", cm.x(&ng.seq(2, 2))));
    let tx = of(&["a", "b", "B", " ", "é", "0"]);
    let tg = tx.seq(0, t.pick(3, 3)).map(|v| V::Str(v.concat()));
    let fg = fnames(t.pick(&["eq", "lt", "gte"][..], CMP));
    r.push(calls("texts", "3 (thorough 7) comparisons of every two texts of up to 3 of 6 characters", fg.x(&tg.seq(2, 2))));
    let mut days = vec![];
    for y in [-1i32, 1, 1999, 2000, 2001, 9999] {
        for m in [1u32, 2, 9, 10, 12] {
            for d in [1u32, 2, 9, 10, 28] {
                days.push(V::Date(y, m, d));
            }
        }
    }
    r.push(calls("dates", "7 comparisons of every two of 150 days", cm.x(&of(&days).seq(2, 2))));
    r.extend(crate::chars::c15());
    r
}

// ------------------------------------------------------------------ C16
fn rec(a: V, b: V, id: u64) -> V {
    V::map(&[("a", a), ("b", b), ("id", V::UInt(id))])
}
/// model of binary search on a list that is sorted: any index whose item compares equal is right
fn check_bin(cx: &mut Ctx, list: &[V], item: &V, crit: &[V]) -> Res {
    let cs: Vec<_> = crit.iter().map(|c| crate::mfun::criterion(&c.show()).unwrap()).collect();
    let hits: Vec<usize> = (0..list.len()).filter(|i| crate::mfun::crit_cmp(&cs, &list[*i], item) == Ordering::Equal).collect();
    let mut a = vec![V::List(list.to_vec()), item.clone()];
    a.extend(crit.to_vec());
    cx.trace();
    cx.trans(2);
    cx.state(&(list.len(), &hits));
    if !hits.is_empty() {
        cx.nontrivial();
    }
    let key = |f: &str| key_call(f, &a);
    cx.sample(|| format!("{} -> one of {:?}", key("bin_search"), hits));
    let s = call_fn(&cx.fm, "bin_search", &a);
    let ok = match &s {
        Real::Ok(V::Null) => hits.is_empty(),
        Real::Ok(V::UInt(n)) => hits.contains(&(*n as usize)),
        _ => false,
    };
    if !ok {
        return viol(key("bin_search"), format!("the item is at {:?}; templito gives {}", hits, rv(&s)));
    }
    let g = call_fn(&cx.fm, "bin_get", &a);
    let ok = match &g {
        Real::Ok(v) if !hits.is_empty() => hits.iter().any(|h| list[*h].same(v)),
        Real::Ok(V::Null) => true,
        _ => false,
    };
    if !ok {
        return viol(key("bin_get"), format!("the item is at {:?}; templito gives {}", hits, rv(&g)));
    }
    Ok(())
}
pub fn c16(t: Tier) -> Vec<Space> {
    let c = compared();
    let one = |n: &str, g: G<Vec<V>>| with(n, g.map(|x| vec![V::List(x)]));
    let mut r = vec![calls("sort-kinds", "sort every list of up to 2 of 80 values of all kinds", one("sort", of(&c).seq(0, 2)))];
    r.push(calls("sort-kinds-3", "every list of 3 of 27 (thorough 80) values", one("sort", of(&c.iter().step_by(t.pick(3, 1)).cloned().collect::<Vec<_>>()).seq(3, 3))));
    let few = [V::UInt(2), V::Int(2), V::Float(f64::NAN), V::s("b"), V::Float(1.5), V::Null];
    r.push(calls("sort-n", "every list of up to 6 (thorough 7) of 6 values, equal ones keep their order", one("sort", of(&few).seq(0, t.pick(6, 7)))));
    let parts = [l(&[]), l(&[V::UInt(3), V::UInt(1)]), l(&[V::Int(1), V::UInt(2)]), l(&[V::s("b"), V::s("a")]), V::UInt(9), V::s("x"), l(&[l(&[V::UInt(2)]), l(&[V::UInt(1)])])];
    r.push(calls("sort-many", "up to 4 list or other arguments, joined and sorted", with("sort", of(&parts).seq(0, 4))));
    // sort_on
    let mut recs: Vec<V> = vec![];
    for a in [V::UInt(1), V::Int(1), V::UInt(2), V::s("x")] {
        for b in [V::s("p"), V::s("q")] {
            recs.push(rec(a.clone(), b, recs.len() as u64));
        }
    }
    recs.push(V::map(&[("b", V::s("p")), ("id", V::UInt(100))]));
    recs.push(V::map(&[("id", V::UInt(101))]));
    recs.push(V::UInt(5));
    recs.push(V::map(&[("a", V::Float(f64::NAN)), ("b", V::s("o"))]));
    let cr = vs(&["a", "b", "-a", "-b", "id", "-id", "none", "a.x"]);
    let crs = of(&cr).seq(1, 2);
    let g = of(&recs).seq(0, 3).x(&crs).map(|(x, c)| ("sort_on".to_string(), [vec![V::List(x)], c].concat()));
    r.push(calls("sort-on", "every list of up to 3 of 12 records by every 1-2 of 8 criteria", g));
    let g = of(&recs[..t.pick(6, 8)]).seq(4, 4).x(&of(&cr[..6]).seq(1, t.pick(2, 3))).map(|(x, c)| ("sort_on".to_string(), [vec![V::List(x)], c].concat()));
    r.push(calls("sort-on-4", "every list of 4 of 6 (thorough 8) records by every 1-2 (thorough 3) of 6 criteria", g));
    // many criteria: records with n fields of 0 or 1, every direction of each
    let bits = |n: u64, x: u64, id: u64| V::Map((0..n).map(|k| (format!("k{}", k), V::UInt(x >> k & 1))).chain([("id".to_string(), V::UInt(id))]).collect());
    let crit = |n: u64, dirs: u64, order: u64| -> Vec<V> { (0..n).map(|k| if order == 1 { n - 1 - k } else { k }).map(|k| V::Str(format!("{}k{}", if dirs >> k & 1 == 1 { "-" } else { "" }, k))).collect() };
    for (n, m) in [(3u64, 3u32), (4, t.pick(2, 3)), (5, 2), (6, t.pick(1, 2))] {
        let per = (1u64 << n).pow(m) * (1 << n) * 2;
        r.push(Space::new(format!("criteria-{}", n), format!("sort_on of every {} records with {} fields of 0 or 1 (and one more of all 1) by all {} criteria, in each direction, first to last and last to first; then each record searched by them", m, n, n), per, move |i, cx| {
            let mut d = Digits(i);
            let c = crit(n, d.take(1 << n), d.take(2));
            let mut x: Vec<V> = (0..m as u64).map(|id| bits(n, d.take(1 << n), id)).collect();
            x.push(bits(n, u64::MAX, 99));
            check_call(cx, "sort_on", &[vec![V::List(x.clone())], c.clone()].concat())?;
            let cs: Vec<_> = c.iter().map(|c| crate::mfun::criterion(&c.show()).unwrap()).collect();
            crate::mfun::stable_sort(&mut x, |p, q| crate::mfun::crit_cmp(&cs, p, q));
            let it = x[i as usize % x.len()].clone();
            check_bin(cx, &x, &it, &c)
        }));
    }
    let topc = t.pick(40u64, 120);
    r.push(Space::new("criteria-ladder", "n criteria of which only the k-th tells records apart, n up to 40 (thorough 120): sorted and searched", topc * topc * 2, move |i, cx| {
        let mut d = Digits(i);
        let (n, k) = (d.take(topc) + 1, d.take(topc));
        if k >= n {
            return Ok(());
        }
        let down = d.take(2) == 1;
        let one = |v: u64| V::Map((0..n).map(|j| (format!("k{}", j), V::UInt(if j == k { v } else { 7 }))).chain([("id".to_string(), V::UInt(v + 10))]).collect());
        let c: Vec<V> = (0..n).map(|j| V::Str(format!("{}k{}", if down { "-" } else { "" }, j))).collect();
        let mut x = vec![one(2), one(0), one(3), one(1)];
        check_call(cx, "sort_on", &[vec![V::List(x.clone())], c.clone()].concat())?;
        let cs: Vec<_> = c.iter().map(|c| crate::mfun::criterion(&c.show()).unwrap()).collect();
        crate::mfun::stable_sort(&mut x, |p, q| crate::mfun::crit_cmp(&cs, p, q));
        (0..4).try_for_each(|v| check_bin(cx, &x, &one(v), &c))?;
        x.remove(1);
        (0..4).try_for_each(|v| check_bin(cx, &x, &one(v), &c))
    }));
    let deep: Vec<V> = vec![V::map(&[("p", V::map(&[("q", V::UInt(2))]))]), V::map(&[("p", V::map(&[("q", V::UInt(1))]))]), V::map(&[("p", V::List(vec![V::UInt(7), V::UInt(0)]))]), l(&[V::UInt(3), V::s("z")]), l(&[V::UInt(4), V::s("y")]), l(&[l(&[V::UInt(1)])]), V::s("s")];
    let dc = vs(&["p.q", "-p.q", "p.1", "0", "1", "-1", "0.0", "p"]);
    let g = of(&deep).seq(0, 4).x(&of(&dc).seq(1, 1)).map(|(x, c)| ("sort_on".to_string(), [vec![V::List(x)], c].concat()));
    r.push(calls("sort-on-deep", "paths into maps and lists as criteria", g));
    let g = of(&(1..=t.pick(12usize, 40)).collect::<Vec<_>>()).x(&of(&(0..=t.pick(12usize, 40)).collect::<Vec<_>>())).x(&of(&[0usize, 1, 2, 3]));
    r.push(Space::new("sort-on-depth", "paths of n parts through maps, lists or both as criterion; records that lack the k-th part or differ elsewhere; n up to 12 (thorough 40); sorted and searched", g.n, move |i, cx| {
        let ((n, k), how) = g.at(i);
        let key = |j: usize| how == 0 || (how >= 2 && j % 2 == 0);
        let rec = |v: V| {
            let mut v = v;
            for j in (0..n).rev() {
                v = if key(j) { V::map(&[("p", v), ("q", V::UInt(5))]) } else { l(&[V::UInt(5), v]) };
            }
            v
        };
        // a record whose path ends early
        let short = {
            let mut v = V::UInt(1);
            for j in (0..k.min(n)).rev() {
                v = if key(j) { V::map(&[("p", v)]) } else { l(&[V::Null, v]) };
            }
            v
        };
        let path = (0..n).map(|j| if key(j) { "p" } else { "1" }).collect::<Vec<_>>().join(".");
        let c = vec![V::Str(format!("{}{}", if how == 3 { "-" } else { "" }, path))];
        let x = vec![rec(V::UInt(2)), rec(V::UInt(1)), short.clone(), rec(V::UInt(3)), rec(V::UInt(0))];
        check_call(cx, "sort_on", &[vec![V::List(x)], c.clone()].concat())?;
        let mut x = vec![rec(V::UInt(0)), rec(V::UInt(2)), rec(V::UInt(3))];
        if how == 3 {
            x.reverse();
        }
        (0..4).try_for_each(|v| check_bin(cx, &x, &rec(V::UInt(v)), &c))
    }));
    let odd = [l(&[V::UInt(2), V::UInt(1)]), V::UInt(1), V::Null, V::map(&[]), V::s("a")];
    r.push(calls("sort-on-odd", "arguments missing or of other kinds", with("sort_on", of(&odd).seq(0, 2).map(|a| a).x(&of(&[V::s("0"), V::UInt(0), V::s("-0")]).seq(0, 2)).map(|(a, b)| [a, b].concat()))).filter_known());
    // long lists: every algorithm threshold
    let top = t.pick(100u64, 400);
    let shapes: [fn(u64, u64) -> u64; 9] = [|i, _| i, |i, n| n - i, |i, _| i % 2, |i, _| i % 7, |_, _| 3, |i, n| if i * 2 < n { i } else { n - i }, |i, n| (i * 37 + 11) % (n + 1), |i, n| (i + n / 3) % (n + 1), |i, _| (i * i) % 17];
    r.push(Space::new("sort-long", "lists of n items in 9 orders by sort, by sort_on up and down, by two criteria; n up to 100 (thorough 400)", (top + 1) * 9 * 4, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1);
        let sh = shapes[d.take(9) as usize];
        let keys: Vec<u64> = (0..n).map(|i| sh(i, n)).collect();
        let recs: Vec<V> = keys.iter().enumerate().map(|(i, k)| rec(V::UInt(*k), V::UInt(k % 3), i as u64)).collect();
        match d.take(4) {
            0 => check_call(cx, "sort", &[V::List(keys.iter().map(|k| V::UInt(*k)).collect())]),
            1 => check_call(cx, "sort_on", &[V::List(recs), V::s("a")]),
            2 => check_call(cx, "sort_on", &[V::List(recs), V::s("-a")]),
            _ => check_call(cx, "sort_on", &[V::List(recs), V::s("-b"), V::s("a")]),
        }
    }));
    // searching
    let sorted = |mut x: Vec<V>, c: &[V]| {
        let cs: Vec<_> = c.iter().map(|c| crate::mfun::criterion(&c.show()).unwrap()).collect();
        crate::mfun::stable_sort(&mut x, |p, q| crate::mfun::crit_cmp(&cs, p, q));
        x
    };
    let items = recs.clone();
    let g = of(&recs[..9]).seq(0, 3).x(&of(&cr[..6]).seq(1, 2)).x(&of(&items));
    r.push(Space::new("search", "every list of up to 3 of 9 records, sorted by every 1-2 of 6 criteria, searched for each of 12 items", g.n, move |i, cx| {
        let ((x, c), it) = g.at(i);
        check_bin(cx, &sorted(x, &c), &it, &c)
    }));
    let g = of(&recs[..t.pick(5, 8)]).seq(4, t.pick(5, 5)).x(&of(&cr[..4]).seq(1, 1)).x(&of(&items[..t.pick(6, 12)]));
    r.push(Space::new("search-5", "every list of 4-5 of 5 (thorough 8) records by one of 4 criteria", g.n, move |i, cx| {
        let ((x, c), it) = g.at(i);
        check_bin(cx, &sorted(x, &c), &it, &c)
    }));
    let top2 = t.pick(40u64, 130);
    r.push(Space::new("search-long", "even numbers up to 2n searched for every number from -1 to 2n+1, ascending and descending, n up to 40 (thorough 130)", (top2 + 1) * (2 * top2 + 3) * 2, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top2 + 1);
        let k = d.take(2 * top2 + 3);
        if k > 2 * n + 2 {
            return Ok(());
        }
        let down = d.take(2) == 1;
        let mut x: Vec<V> = (0..n).map(|i| rec(V::UInt(2 * i), V::Null, i)).collect();
        if down {
            x.reverse();
        }
        check_bin(cx, &x, &V::map(&[("a", V::Int(k as i64 - 1))]), &[V::s(if down { "-a" } else { "a" })])
    }));
    // wrong arguments
    let g = fnames(&["bin_search", "bin_get"]).x(&of(&[V::UInt(1), l(&[]), V::s("a"), V::map(&[])]).seq(0, 2)).x(&of(&[V::s("a"), V::UInt(1)]).seq(0, 1));
    r.push(Space::new("search-args", "missing criteria and lists that are none are errors", g.n, move |i, cx| {
        let ((f, a), c) = g.at(i);
        let a = [a, c].concat();
        let good = a.len() >= 3 && matches!(a[0], V::List(_)) && matches!(a[2], V::Str(_));
        check_call_with(cx, &f, &a, if good { Ok(V::Null) } else { Err("arguments".into()) })
    }));
    // as a user sees it
    let g = of(&few[..4]).seq(0, 4);
    r.push(cases("shown", "sort in a loop in a template", g.map(|x| Case::new(vec![It::For("i".into(), "v".into(), cmd("sort", &[var("0")]), vec![crate::ctl::show("i"), text("="), crate::ctl::show("v"), text(";")])]).params(&[V::List(x)]))));
    r
}
trait FilterKnown {
    fn filter_known(self) -> Self;
}
impl FilterKnown for Space {
    fn filter_known(self) -> Self {
        self
    }
}

// ------------------------------------------------------------------ C17
pub fn c17(t: Tier) -> Vec<Space> {
    let k = of(&kinds());
    let mut r = vec![calls("kinds", "list, append, len, map, groups, slice, get, index_of of every 0-2 values of all kinds", fnames(&["list", "append", "len", "map", "groups", "slice", "get", "index_of"]).x(&k.seq(0, 2)))];
    let small = [V::UInt(0), V::UInt(1), V::Int(2), V::s("a"), V::s("éb"), V::Null, l(&[]), l(&[V::UInt(1), V::s("a")]), l(&[l(&[V::Null]), V::UInt(1), V::Float(1.0)]), V::map(&[("a", V::UInt(1)), ("é", V::Null)]), V::Int(-1)];
    r.push(calls("mixed", "the same of every 3 (thorough 4) of 11 values", fnames(&["list", "append", "len", "map", "groups", "slice", "get", "index_of"]).x(&of(&small).seq(3, t.pick(3, 4)))));
    // lists in lists in lists
    let n0 = [V::UInt(1), V::s("a")];
    let lists_of = |e: &[V], k: u32| -> Vec<V> {
        let g = of(e).seq(0, k);
        (0..g.n).map(|i| V::List(g.at(i))).collect()
    };
    let n1 = lists_of(&n0, 2);
    let n2 = lists_of(&[n1.clone(), n0.to_vec()].concat(), 2);
    let n3: Vec<V> = n2.iter().map(|x| l(&[x.clone()])).chain(n2.iter().map(|x| l(&[x.clone(), V::UInt(1)]))).collect();
    let nest = [n0.to_vec(), n1, n2, n3].concat();
    let fns = ["list", "append", "len", "map", "groups", "slice", "get", "index_of", "sort", "type_of", "first", "eq"];
    let fns: Vec<&str> = fns.into_iter().filter(|f| *f != "first").collect();
    let nested = of(&nest);
    r.push(calls("nested", "11 functions of every list of lists of lists (281 of them), alone and beside every 23rd (thorough every) other, in both orders", fnames(&fns).x(&alt(vec![
        nested.map(|x| vec![x]),
        nested.x(&of(&nest.iter().step_by(t.pick(23, 1)).cloned().collect::<Vec<_>>())).map(|(a, b)| vec![a, b]),
        of(&nest.iter().step_by(t.pick(23, 7)).cloned().collect::<Vec<_>>()).x(&nested).map(|(a, b)| vec![a, b]),
        of(&nest.iter().step_by(t.pick(40, 19)).cloned().collect::<Vec<_>>()).seq(3, 3),
    ]))));
    r.push(calls("nested-indexed", "slice, get and groups of each of the nested lists by 0 to 3 and to 0 to 3", alt(vec![
        fnames(&["slice"]).x(&nested.x(&of(&[0u64, 1, 2, 3])).x(&of(&[None, Some(0u64), Some(1), Some(2), Some(3)]))).map(|(f, ((x, a), b))| (f, [vec![x, V::UInt(a)], b.map(V::UInt).into_iter().collect()].concat())),
        fnames(&["get"]).x(&nested.x(&of(&[0u64, 1, 2, 3]))).map(|(f, (x, a))| (f, vec![x, V::UInt(a)])),
        fnames(&["groups"]).x(&nested.x(&of(&[0u64, 1, 2, 3]))).map(|(f, (x, a))| (f, vec![V::UInt(a), x])),
    ])));
    // slices, indices, groups on every length
    let top = t.pick(12u64, 40);
    let ends: Vec<Option<V>> = std::iter::once(None).chain((0..=top + 2).map(|n| Some(V::UInt(n)))).chain([Some(V::Int(3)), Some(V::Int(-1)), Some(V::Null), Some(V::UInt(u64::MAX)), Some(V::Float(2.0)), Some(V::s("1"))]).collect();
    let starts: Vec<V> = (0..=top + 2).map(V::UInt).chain([V::Int(0), V::Int(2), V::Int(-1), V::UInt(u64::MAX), V::Null, V::Float(1.0)]).collect();
    let lists = |n: u64| l(&(0..n).map(|i| V::UInt(i * 10)).collect::<Vec<_>>());
    let text_of = |n: u64| V::Str((0..n).map(|i| ['a', 'é', '漢', '🎉', '\n'][(i % 5) as usize]).collect());
    let (ns, ne) = (starts.len() as u64, ends.len() as u64);
    r.push(Space::new("slice", "lists and multibyte strings of n items, every start and end up to n+2, negative, null, huge; n up to 12 (thorough 40)", (top + 1) * 3 * ns * ne, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1);
        let base = match d.take(3) {
            0 => lists(n),
            1 => text_of(n),
            _ => V::Str("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFG"[..n as usize].to_string()),
        };
        let mut a = vec![base, d.pick(&starts).clone()];
        a.extend(d.pick(&ends).clone());
        check_call(cx, "slice", &a)
    }));
    let idx: Vec<V> = (0..=top + 2).map(V::UInt).chain((-3..=top as i64 + 2).map(V::Int)).chain([V::UInt(u64::MAX), V::Int(i64::MIN), V::Int(i64::MAX), V::s("a"), V::s("0"), V::Null, V::Float(1.0)]).collect();
    let ni = idx.len() as u64;
    r.push(Space::new("get", "every index into lists, strings and maps of n items, as uint, int, negative, other kinds", (top + 1) * 4 * ni, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1);
        let base = match d.take(4) {
            0 => lists(n),
            1 => text_of(n),
            2 => V::Map((0..n).map(|i| (i.to_string(), V::UInt(i))).collect()),
            _ => V::map(&[("a", V::s("found")), ("b", V::Null)]),
        };
        check_call(cx, "get", &[base, d.pick(&idx).clone()])
    }));
    let big = t.pick(70u64, 200);
    r.push(Space::new("groups", "n items in groups of m, n and m up to 70 (thorough 200)", (big + 1) * (big + 2), move |i, cx| {
        let n = i % (big + 1);
        let m = i / (big + 1);
        check_call(cx, "groups", &[if m % 2 == 0 { V::UInt(m) } else { V::Int(m as i64) }, lists(n)])
    }));
    r.push(Space::new("ladder", "list, append, map, len, index_of on n arguments or members, n up to 70 (thorough 200)", (big + 1) * 8, move |i, cx| {
        let n = i % (big + 1);
        let ints: Vec<V> = (0..n).map(V::UInt).collect();
        match i / (big + 1) {
            0 => check_call(cx, "list", &ints),
            1 => check_call(cx, "append", &ints.iter().map(|v| l(&[v.clone(), V::Null])).collect::<Vec<_>>()),
            2 => check_call(cx, "append", &[l(&ints), V::UInt(1), l(&ints)]),
            3 => check_call(cx, "map", &ints.iter().flat_map(|v| [V::Str(format!("k{}", v.show())), v.clone()]).collect::<Vec<_>>()),
            4 => check_call(cx, "map", &ints.iter().flat_map(|v| [V::Str(format!("k{}", v.as_usize().unwrap() % 3)), v.clone()]).collect::<Vec<_>>()),
            5 => check_call(cx, "len", &[l(&ints), V::Str("é".repeat(n as usize)), V::Map((0..n).map(|i| (i.to_string(), V::Null)).collect())]),
            6 => (0..=n).try_for_each(|k| check_call(cx, "index_of", &[V::Float(k as f64), l(&ints)])),
            _ => check_call(cx, "len", &ints),
        }
    }));
    // index_of: first of several equal ones
    let eqs = [V::UInt(1), V::Int(1), V::Float(1.0), V::s("1"), V::Null, l(&[V::UInt(1)])];
    let g = of(&eqs).x(&of(&eqs).seq(0, t.pick(4, 5)));
    r.push(calls("index-of", "each of 6 values in every list of up to 4 (thorough 5) of them", g.map(|(v, x)| ("index_of".to_string(), vec![v, V::List(x)]))));
    // map: odd arguments, keys of other kinds, repeated keys
    let ms = [V::s("a"), V::s("b"), V::s(""), V::UInt(1), V::Null, l(&[])];
    r.push(calls("map", "map of every 0-6 (thorough 7) of 6 values", with("map", of(&ms).seq(0, t.pick(6, 7)))));
    // filter: expressions of depth 2 on the element
    let el = || var("0");
    let leaves = vec![el(), E::Var(vec![P::Num(0), P::Id("a".into())]), E::Var(vec![P::Num(0), P::Num(0)]), u(2), s("b"), var("1"), var("x")];
    let mut es: Vec<E> = leaves.clone();
    for f in ["gt", "eq", "lt", "is_num", "type_of", "len", "and", "nand", "no_such", "sub"] {
        for a in &leaves {
            es.push(cmd(f, &[a.clone()]));
            for b in &leaves {
                es.push(cmd(f, &[a.clone(), b.clone()]));
            }
        }
    }
    for f in ["or", "and", "eq"] {
        es.push(cmd(f, &[cmd("gt", &[el(), u(1)]), cmd("eq", &[el(), s("b")])]));
        es.push(cmd("first", &[cmd(f, &[el()]), E::Var(vec![P::Num(0), P::Id("a".into())]), lit(V::Bool(true))]));
    }
    let vals = [V::UInt(1), V::UInt(3), V::Int(2), V::s("b"), V::Null, l(&[V::UInt(2), V::s("b")]), V::map(&[("a", V::UInt(3))]), V::Bool(false), V::Bool(true), V::Float(2.5)];
    let lists2: Vec<V> = vec![l(&[]), l(&vals), l(&vals.iter().rev().cloned().collect::<Vec<_>>()), l(&vals[..1]), V::s("b"), V::Null, V::map(&[("a", V::UInt(1))])];
    let g = of(&es).x(&of(&lists2));
    r.push(Space::new("filter", "1,100 expressions over the element and two missing variables x 7 lists of values of all kinds: exactly the elements for which it is true, in order", g.n, move |i, cx| {
        let (e, x) = g.at(i);
        let src = crate::mfun::know_filter(&e);
        check_call(cx, "filter", &[x, V::Str(src)])
    }));
    // what an expression says about elements of every kind
    let ks = kinds();
    let mut says: Vec<E> = vec![el(), cmd("first", &[el()]), cmd("list", &[el()]), cmd("nand", &[el()]), cmd("cat", &[el()]), cmd("eq", &[el(), el()]), cmd("get", &[E::List(vec![el()]), u(0)]), E::List(vec![el()]), E::Map(vec![("k".into(), el())]), E::List(vec![]), E::Map(vec![])];
    says.extend([lit(V::Null), lit(V::Bool(true)), lit(V::Bool(false)), u(0), u(1), lit(V::Int(-1)), lit(V::Float(0.0)), lit(V::Float(0.5)), s(""), s("a"), s("false"), lit(V::Date(2020, 2, 29))]);
    let g = of(&ks).seq(1, 2).x(&of(&says));
    r.push(Space::new("filter-kinds", "every 1-2 of 32 elements of all kinds x 23 expressions whose value is the element itself, holds it, or is one of each kind: kept only if true", g.n, move |i, cx| {
        let (x, e) = g.at(i);
        let src = crate::mfun::know_filter(&e);
        check_call(cx, "filter", &[V::List(x), V::Str(src)])
    }));
    let g = of(&vals).seq(0, t.pick(4, 5)).x(&of(&[cmd("gt", &[el(), u(1)]), cmd("is_num", &[el()]), el(), cmd("nand", &[el()])]));
    r.push(Space::new("filter-lists", "every list of up to 4 (thorough 5) of 10 values x 4 expressions", g.n, move |i, cx| {
        let (x, e) = g.at(i);
        let src = crate::mfun::know_filter(&e);
        check_call(cx, "filter", &[V::List(x), V::Str(src)])
    }));
    // from templates
    let ex: Vec<E> = vec![
        cmd("list", &[u(1), s("a")]), cmd("append", &[E::List(vec![u(1)]), u(2), E::List(vec![])]), cmd("slice", &[E::List(vec![u(1), u(2), u(3)]), u(1)]), cmd("groups", &[u(2), E::List(vec![u(1), u(2), u(3)])]), cmd("get", &[E::List(vec![u(5), u(6)]), u(1)]), cmd("map", &[s("a"), u(1)]), cmd("len", &[E::List(vec![u(5), u(6)])]), cmd("index_of", &[u(6), E::List(vec![u(5), u(6)])]),
        cmd("get", &[cmd("map", &[s("k"), s("v")]), s("k")]), cmd("sort", &[E::List(vec![u(2), u(1)])]),
    ];
    let g = fnames(&["list", "append", "len", "first", "type_of"]).x(&of(&ex).seq(1, 2));
    r.push(cases("composed", "functions on the results of functions, in templates", g.map(|(f, a)| Case::new(vec![It::Exp(E::Cmd(f, a))]))));
    r
}

// ------------------------------------------------------------------ C18
pub fn c18(t: Tier) -> Vec<Space> {
    let k = of(&kinds());
    let mut r = vec![calls("kinds", "cat, split, str_contains, str_replace, str_replace_n, string_from_ints, join_with, regex of every 0-2 values of all kinds", fnames(&["cat", "split", "str_contains", "str_replace", "str_replace_n", "string_from_ints", "join_with"]).x(&k.seq(0, 2)))];
    let few: Vec<V> = kinds().into_iter().step_by(3).collect();
    r.push(calls("kinds-3", "the same of every 3 of 11 values", fnames(&["cat", "split", "str_contains", "str_replace", "str_replace_n", "string_from_ints"]).x(&of(&few).seq(3, 3))));
    // every short string and pattern
    let al = ["a", "b", "é"];
    let strs = of(&al).seq(0, t.pick(5, 6)).map(|x| V::Str(x.concat()));
    let pats = of(&al).seq(0, t.pick(2, 3)).map(|x| V::Str(x.concat()));
    r.push(calls("split", "every string of up to 5 (thorough 6) of 3 letters split at every string of up to 2 (thorough 3)", strs.x(&pats).map(|(a, b)| ("split".to_string(), vec![a, b]))));
    r.push(calls("contains", "the same for str_contains, with a second needle", strs.x(&pats).x(&of(&[None, Some(V::s("ab")), Some(V::s(""))])).map(|((a, b), c)| ("str_contains".to_string(), [vec![a, b], c.into_iter().collect()].concat()))));
    let reps = vs(&["", "X", "a", "ab"]);
    r.push(calls("replace", "str_replace with each of 4 replacements", strs.x(&pats).x(&of(&reps)).map(|((a, b), c)| ("str_replace".to_string(), vec![a, b, c]))));
    let ns = [None, Some(V::UInt(0)), Some(V::UInt(1)), Some(V::Int(2)), Some(V::UInt(3)), Some(V::UInt(u64::MAX)), Some(V::Int(-1)), Some(V::s("2"))];
    let strs4 = of(&al).seq(0, t.pick(4, 5)).map(|x| V::Str(x.concat()));
    r.push(calls("replace-n", "str_replace_n, n of 8 values", strs4.x(&of(&vs(&["", "a", "ab", "aa", "é"]))).x(&of(&reps)).x(&of(&ns)).map(|(((a, b), c), n)| ("str_replace_n".to_string(), [vec![a, b, c], n.into_iter().collect()].concat()))));
    r.push(calls("split-lines", "every string of up to 7 of 3 pieces with newlines, default separator and others", of(&["a", "\n", "\r\n"]).seq(0, 7).x(&of(&[None, Some(V::s("\n")), Some(V::s("\r\n")), Some(V::UInt(1))])).map(|(x, c)| ("split".to_string(), [vec![V::Str(x.concat())], c.into_iter().collect()].concat()))));
    // splitting and joining are inverse
    let seps = of(&["a", "b", "é", ",", "ab", "\n"]);
    let g = strs.x(&seps);
    r.push(Space::new("split-join", "join_with of split is the string again", g.n, move |i, cx| {
        let (x, s) = g.at(i);
        let sp = call_fn(&cx.fm, "split", &[x.clone(), V::s(s)]);
        let parts = match sp {
            Real::Ok(p) => p,
            e => return viol(key_call("split", &[x, V::s(s)]), rv(&e)),
        };
        check_call_with(cx, "join_with", &[V::s(s), parts], Ok(x))
    }));
    let g = k.seq(0, 2).x(&of(&vs(&[",", "", "é\n"])));
    r.push(calls("join", "join_with of every list of up to 2 values of all kinds", g.map(|(x, s)| ("join_with".to_string(), vec![s, V::List(x)]))));
    // chars from numbers
    let nums: Vec<V> = (0..=0x1000u64).map(V::UInt).chain([0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f389, 0x10ffff, 0x110000, u32::MAX as u64, 1 << 32, (1 << 32) + 65, u64::MAX].iter().map(|n| V::UInt(*n))).chain([65, -1, -65, i64::MAX, i64::MIN, (1 << 32) + 65].iter().map(|n| V::Int(*n))).collect();
    let g = of(&nums).x(&of(&[0usize, 1, 2])).map(|(n, w)| ("string_from_ints".to_string(), match w { 0 => vec![n], 1 => vec![V::UInt(97), n], _ => vec![n, V::Int(98), V::s("x"), V::Null] }));
    r.push(calls("from-ints", "string_from_ints of every number up to 4096 and 21 edges, alone and among others", g));
    r.push(calls("from-ints-n", "every 3-4 of 7 numbers", with("string_from_ints", of(&[V::UInt(97), V::UInt(0xe9), V::UInt(0x1f389), V::UInt(0xd800), V::Int(-1), V::Float(97.0), V::UInt(10)]).seq(3, 4))));
    // regular expressions: a reference matcher for a fragment
    let syn: Vec<Re> = res(2);
    let ss: Vec<String> = (0..of(&["a", "b"]).seq(0, t.pick(4, 5)).n).map(|i| of(&["a", "b"]).seq(0, t.pick(4, 5)).at(i).concat()).collect();
    let g = of(&syn).x(&of(&[0usize, 1, 2, 3])).x(&of(&ss));
    r.push(Space::new("regex", "every regular expression of depth 2 over two letters with concatenation, alternation, star, unanchored and anchored at each end, on every string of up to 4 (thorough 5)", g.n, move |i, cx| {
        let ((e, an), s) = g.at(i);
        let src = format!("{}(?:{}){}", if an & 1 == 1 { "^" } else { "" }, e.src(), if an & 2 == 2 { "$" } else { "" });
        let ends: Vec<usize> = (0..=s.len()).filter(|b| an & 1 == 0 || *b == 0).flat_map(|b| e.ends(s.as_bytes(), b)).collect();
        let want = ends.iter().any(|x| an & 2 == 0 || *x == s.len());
        check_call_with(cx, "regex", &[V::Str(s), V::Str(src)], Ok(V::Bool(want)))
    }));
    r.push(calls("regex-bad", "malformed expressions and missing arguments are errors", fnames(&["regex"]).x(&of(&vs(&["(", "[", "a{", "*", "a**", "\\", "(?P<", "ok", "", "é", "^.$"])).seq(0, 2))));
    // length
    let top = t.pick(70u64, 300);
    r.push(Space::new("ladder", "n arguments, n characters, n occurrences, n up to 70 (thorough 300)", (top + 1) * 10, move |i, cx| {
        let n = (i % (top + 1)) as usize;
        let us = V::Str("aé,".repeat(n));
        match i / (top + 1) {
            0 => check_call(cx, "cat", &(0..n).map(|j| V::UInt(j as u64)).collect::<Vec<_>>()),
            1 => check_call(cx, "split", &[us, V::s(",")]),
            2 => check_call(cx, "str_replace", &[us, V::s("é"), V::s("e'")]),
            3 => (0..=n as u64 + 1).step_by(7).try_for_each(|k| check_call(cx, "str_replace_n", &[us.clone(), V::s("é"), V::s(""), V::UInt(k)])),
            4 => check_call(cx, "str_contains", &[us.clone(), V::Str(format!("{}x", us.show()))]),
            5 => check_call(cx, "str_contains", &[V::Str(format!("{}x", us.show())), V::Str("é,x".into())]),
            6 => check_call(cx, "string_from_ints", &(0..n).map(|j| V::UInt(j as u64 * 7)).collect::<Vec<_>>()),
            7 => check_call(cx, "join_with", &[V::s(", "), V::List((0..n).map(|j| V::Int(-(j as i64))).collect())]),
            8 => check_call(cx, "split", &[V::Str("\n".repeat(n))]),
            _ => check_call(cx, "str_contains", &[vec![V::s("haystack")], (0..n).map(|j| V::Str(format!("n{}", j))).collect(), vec![V::s("stack")]].concat()),
        }
    }));
    // debug says nothing in the output
    r.extend(crate::chars::c18(t));
    r
}
#[derive(Clone, Debug)]
enum Re {
    Ch(char),
    Any,
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Star(Box<Re>),
}
fn res(depth: u32) -> Vec<Re> {
    let mut v = vec![Re::Ch('a'), Re::Ch('b'), Re::Any];
    if depth == 0 {
        return v;
    }
    let sub = res(depth - 1);
    let sub: Vec<Re> = if depth == 2 { sub.into_iter().step_by(2).collect() } else { sub };
    for a in &sub {
        v.push(Re::Star(Box::new(a.clone())));
        for b in &sub {
            v.push(Re::Cat(Box::new(a.clone()), Box::new(b.clone())));
            v.push(Re::Alt(Box::new(a.clone()), Box::new(b.clone())));
        }
    }
    v
}
impl Re {
    fn src(&self) -> String {
        match self {
            Re::Ch(c) => c.to_string(),
            Re::Any => ".".into(),
            Re::Cat(a, b) => format!("(?:{})(?:{})", a.src(), b.src()),
            Re::Alt(a, b) => format!("{}|{}", a.src(), b.src()),
            Re::Star(a) => format!("(?:{})*", a.src()),
        }
    }
    /// positions at which a match that begins at `b` may end
    fn ends(&self, s: &[u8], b: usize) -> Vec<usize> {
        let mut r = match self {
            Re::Ch(c) => if s.get(b) == Some(&(*c as u8)) { vec![b + 1] } else { vec![] },
            Re::Any => if b < s.len() { vec![b + 1] } else { vec![] },
            Re::Cat(x, y) => x.ends(s, b).into_iter().flat_map(|m| y.ends(s, m)).collect(),
            Re::Alt(x, y) => [x.ends(s, b), y.ends(s, b)].concat(),
            Re::Star(x) => {
                let mut all = vec![b];
                let mut i = 0;
                while i < all.len() {
                    for e in x.ends(s, all[i]) {
                        if !all.contains(&e) {
                            all.push(e);
                        }
                    }
                    i += 1;
                }
                all
            }
        };
        r.sort();
        r.dedup();
        r
    }
}

// ------------------------------------------------------------------ C20
fn unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        o.push_str(&rest[..p]);
        let e = rest[p..].find(';')? + p;
        o.push(match &rest[p..=e] {
            "&amp;" => '&',
            "&lt;" => '<',
            "&gt;" => '>',
            "&quot;" | "&#34;" => '"',
            "&#39;" | "&apos;" | "&#x27;" => '\'',
            _ => return None,
        });
        rest = &rest[e + 1..];
    }
    o.push_str(rest);
    Some(o)
}
/// escaped text: nothing special in it, and it reads back as the text
fn check_esc(cx: &mut Ctx, f: &str, a: &[V]) -> Res {
    let plain: String = a.iter().map(|v| v.show()).collect();
    let g = call_fn(&cx.fm, f, a);
    cx.trace();
    cx.trans(1);
    let key = key_call(f, a);
    let s = match g {
        Real::Ok(V::Str(s)) => s,
        e => return viol(key, format!("gives {}", rv(&e))),
    };
    cx.state(&s);
    if s != plain {
        cx.nontrivial();
    }
    cx.sample(|| format!("{} -> {:?}", key, s));
    if s.chars().any(|c| matches!(c, '<' | '>' | '"' | '\'')) {
        return viol(key, format!("{:?} has a special character", s));
    }
    match unescape(&s) {
        Some(u) if u == plain => Ok(()),
        u => viol(key, format!("{:?} reads back as {:?}, not {:?}", s, u, plain)),
    }
}
const ESC: &[&str] = &["html_esc", "xml_esc"];
pub fn c20(t: Tier) -> Vec<Space> {
    let f = fnames(ESC);
    let mk = |name: &str, b: &str, g: G<(String, Vec<V>)>| {
        Space::new(name, b, g.n, move |i, cx| {
            let (n, a) = g.at(i);
            check_esc(cx, &n, &a)
        })
    };
    let al = ["<", ">", "&", "\"", "'", "a", ";", "é", "amp;", "&lt;", "\n"];
    let mut r = vec![mk("texts", "every string of up to 5 (thorough 6) of 11 pieces", f.x(&of(&al).seq(0, t.pick(5, 6)).map(|x| vec![V::Str(x.concat())])))];
    let chars: Vec<char> = (0u32..0x110000).filter_map(char::from_u32).collect();
    r.push(mk("chars", "every character there is, alone, doubled and inside text", f.x(&of(&chars)).x(&of(&[0usize, 1, 2])).map(|((n, c), w)| (n, vec![V::Str(match w { 0 => c.to_string(), 1 => format!("{}{}", c, c), _ => format!("a{}<", c) })]))));
    let ascii: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).collect();
    r.push(mk("ascii-3", "every text of 3 ascii characters", f.x(&of(&ascii).seq(3, 3).map(|x| vec![V::Str(x.concat())]))));
    let words = ["<!--", "-->", "<![CDATA[", "]]>", "</", "/>", "<", ">", "&", "&#", "&#x3c;", "&nbsp;", "&amp", ";", "<script>", "a=\"", "\"", "'", "%3C", "\\", "javascript:", "<?xml ?>", "&&", "http://a.b/?c=d&e", "\u{a0}", " ", "\0", "\u{2028}"];
    r.push(mk("words", "every text of up to 3 (thorough 4) of 28 words of html and xml", f.x(&of(&words).seq(0, t.pick(3, 4)).map(|x| vec![V::Str(x.concat())]))));
    r.push(mk("kinds", "every 0-2 values of all kinds: the text of each", f.x(&of(&kinds()).seq(0, 2))));
    r.push(mk("pieces", "up to 4 (thorough 5) arguments of 6 texts", f.x(&of(&vs(&["<", "&", "'\"", "a", "", "&amp;"])).seq(0, t.pick(4, 5)))));
    let top = t.pick(300u64, 1000);
    r.push(Space::new("long", "7 texts repeated up to 300 (thorough 1000) times, and as many arguments", 2 * 7 * (top + 1) * 2, move |i, cx| {
        let mut d = Digits(i);
        let f = *d.pick(ESC);
        let u = *d.pick(&["<", "&", "'", "\"", "a<é", "&&&lt;", "no"]);
        let n = d.take(top + 1) as usize;
        let a = if d.take(2) == 0 { vec![V::Str(u.repeat(n))] } else { vec![V::s(u); n.min(70)] };
        check_esc(cx, f, &a)
    }));
    // the same in a template, on a block, and on nested values
    let g = of(&al).seq(0, 3).x(&f).x(&of(&[0usize, 1, 2]));
    r.push(Space::new("templates", "in a tag, on a block and on a list, every text of up to 3 pieces", g.n, move |i, cx| {
        let ((x, f), how) = g.at(i);
        let x = x.concat();
        let (src, plain) = match how {
            0 => (format!("{{{{{} $0}}}}", f), x.clone()),
            1 => (format!("{{{{@{}}}}}[{{{{$0}}}}]{{{{/{}}}}}", f, f), format!("[{}]", x)),
            _ => (format!("{{{{{} [$0, $0]}}}}", f), format!("[{},{}]", x, x)),
        };
        let got = real_src(&src, &[V::s(&x)], &cx.fm);
        cx.trace();
        cx.trans(1);
        match &got {
            Real::Ok(o) if !o.0.contains(['<', '>', '"', '\'']) && unescape(&o.0).as_deref() == Some(&plain) => Ok(()),
            g => viol(format!("{} with {:?}", src, x), format!("{:?} is not {:?} escaped", g, plain)),
        }
    }));
    r
}

// ------------------------------------------------------------------ C22
const PATHF: &[&str] = &["parent", "join", "bread_crumbs", "base_name", "base_name_sure", "stem", "full_stem"];
pub fn c22(t: Tier) -> Vec<Space> {
    let f = fnames(PATHF);
    let pc = ["/", "a", ".", "..", "b.c"];
    let paths = of(&pc).seq(0, t.pick(6, 7)).map(|x| V::Str(x.concat()));
    let mut r = vec![calls("paths", "7 path functions on every string of up to 6 (thorough 7) of 5 pieces", f.x(&paths.map(|p| vec![p])))];
    let comp = ["", "/", "a", "b.c", "..", ".d", "e/f.g.h", "/r/s", "t/", ".", "é漢.md"];
    r.push(calls("joined", "every 0-3 (thorough 4) arguments of 11 paths", f.x(&of(&vs(&comp)).seq(0, t.pick(3, 4)))));
    r.push(calls("kinds", "every 0-2 values of all kinds", fnames(&[PATHF, &["with_ext"]].concat()).x(&of(&kinds()).seq(0, 2))));
    let exts = vs(&["", "x", "tar.gz", ".y", "é", "a/b", "/", ".."]);
    // names that begin with two dots are left out: std itself takes a part of them for the parent folder
    let g = of(&pc).seq(0, t.pick(5, 6)).x(&of(&exts));
    r.push(Space::new("with-ext", "with_ext on every path of up to 5 (thorough 6) pieces (whose name does not begin with ..) and 8 extensions", g.n, move |i, cx| {
        let (p, e) = g.at(i);
        let p = p.concat();
        if crate::mfun::file_name(&p).map_or(false, |n| n.starts_with("..")) {
            return Ok(());
        }
        check_call(cx, "with_ext", &[V::Str(p), e])
    }));
    let ex2 = ["a", ".", "/", "é"];
    r.push(calls("names", "every string of up to 7 (thorough 8) of 4 pieces: dots anywhere in names", fnames(&["stem", "full_stem", "base_name_sure", "parent"]).x(&of(&ex2).seq(0, t.pick(6, 8)).map(|x| vec![V::Str(x.concat())]))));
    // laws between the functions: a path is its parent joined with its name
    let g = of(&pc).seq(1, t.pick(6, 7));
    r.push(Space::new("laws", "join (parent p) (base_name p) denotes p; bread_crumbs end with p and each is the parent of the next; name = stem + extension", g.n, move |i, cx| {
        let p = V::Str(g.at(i).concat());
        let c = |cx: &Ctx, f: &str, a: &[V]| call_fn(&cx.fm, f, a).ok();
        cx.trace();
        cx.trans(5);
        let key = format!("path {}", p.canon());
        let bc = match c(cx, "bread_crumbs", &[p.clone()]) {
            Some(V::List(x)) if !x.is_empty() => x,
            o => return viol(key, format!("bread_crumbs gives {:?}", o)),
        };
        if !bc[bc.len() - 1].same(&p) {
            return viol(key, format!("bread_crumbs do not end with the path: {}", V::List(bc).canon()));
        }
        for w in bc.windows(2) {
            if !c(cx, "parent", &[w[1].clone()]).map_or(false, |x| x.same(&w[0])) {
                return viol(key, format!("bread_crumbs: {} is not the parent of {}", w[0].canon(), w[1].canon()));
            }
        }
        if let Some(V::Str(b)) = c(cx, "base_name", &[p.clone()]) {
            cx.nontrivial();
            let par = c(cx, "parent", &[p.clone()]).unwrap_or(V::Null);
            let j = c(cx, "join", &[par.clone(), V::Str(b.clone())]).unwrap_or(V::Null);
            if crate::mfun::comps(&j.show()) != crate::mfun::comps(&p.show()) {
                return viol(key, format!("parent {} and name {:?} join to {}", par.canon(), b, j.canon()));
            }
            let st = c(cx, "stem", &[p.clone()]).unwrap_or(V::Null).show();
            let rest = b.strip_prefix(st.as_str());
            if !matches!(rest, Some(x) if x.is_empty() || x.starts_with('.')) || st.is_empty() {
                return viol(key, format!("{:?} is not the stem of {:?}", st, b));
            }
            cx.state(&(&b, &st));
        }
        Ok(())
    }));
    let top = t.pick(40u64, 100);
    let units = ["a/", "é.b/", "../", "./", "x.y.", "a"];
    let all: Vec<&str> = PATHF.iter().chain(&["with_ext"]).copied().collect();
    r.push(Space::new("ladder", "6 units repeated up to 40 (thorough 100) times, relative and absolute; as many arguments", (top + 1) * 6 * 2 * 8 * 2, move |i, cx| {
        let mut d = Digits(i);
        let n = d.take(top + 1) as usize;
        let u = *d.pick(&units);
        let abs = if d.take(2) == 1 { "/" } else { "" };
        let f = *d.pick(&all);
        if d.take(2) == 0 {
            let mut a = vec![V::Str(format!("{}{}", abs, u.repeat(n)))];
            if f == "with_ext" {
                a.push(V::s("e"));
            }
            check_call(cx, f, &a)
        } else {
            check_call(cx, f, &[vec![V::s(abs)], vec![V::s(u); n]].concat())
        }
    }));
    let g = of(PATHF).x(&of(&["a/b.c", "/a", "x", "", "a/../b"]));
    r.push(Space::new("shown", "as a template shows them", g.n, move |i, cx| {
        let (f, p) = g.at(i);
        let want = crate::mfun::call(f, &[V::s(p)]);
        as_template(cx, f, &[V::s(p)], &want)
    }));
    r.extend(crate::chars::c22());
    r
}

// ------------------------------------------------------------------ C24
/// attributes as an xml reader sees them: name="value" separated by space
fn attrs(s: &str) -> Option<Vec<(String, String)>> {
    let mut r = vec![];
    let mut rest = s.trim();
    while !rest.is_empty() {
        let (n, x) = rest.split_once("=\"")?;
        let (v, y) = x.split_once('"')?;
        if n.is_empty() || n.contains(char::is_whitespace) || !(y.is_empty() || y.starts_with(char::is_whitespace)) {
            return None;
        }
        r.push((n.to_string(), v.to_string()));
        rest = y.trim_start();
    }
    Some(r)
}
pub fn c24(t: Tier) -> Vec<Space> {
    let fns: &[(&str, &[&str], usize)] = &[("xy", &["x", "y"], 2), ("xywh", &["x", "y", "width", "height"], 4), ("cxyrr", &["cx", "cy", "rx", "ry"], 4), ("xy12", &["x", "y", "x2", "y2"], 4), ("fl_stk", &["fill", "stroke", "stroke-width"], 3), ("font", &["font-size", "font-family"], 2)];
    let vals = [V::UInt(1), V::Int(-2), V::Float(2.5), V::s("red"), V::s("é b"), V::UInt(0), V::Null];
    let check = move |cx: &mut Ctx, f: usize, a: &[V]| -> Res {
        let (n, names, unit) = fns[f];
        let key = key_call(n, a);
        let got = call_fn(&cx.fm, n, a);
        cx.trace();
        cx.trans(1);
        let min = if n == "font" { 1 } else { names.len() };
        if a.len() < min {
            return if matches!(got, Real::Err(_)) { Ok(()) } else { viol(key, format!("an argument is missing, but it gives {}", rv(&got))) };
        }
        cx.nontrivial();
        let u = a.get(unit).map_or(String::new(), |v| v.show());
        let mut want: Vec<(String, String)> = names.iter().zip(a).map(|(k, v)| (k.to_string(), v.show())).collect();
        for (i, w) in want.iter_mut().enumerate() {
            let has = match n {
                "fl_stk" => i == 2,
                "font" => i == 0,
                _ => true,
            };
            if has {
                w.1.push_str(&u);
            }
        }
        want.sort();
        cx.sample(|| format!("{} -> {:?}", key, want));
        cx.state(&want);
        match &got {
            Real::Ok(V::Str(s)) => {
                let mut g = attrs(s);
                if let Some(g) = &mut g {
                    g.sort();
                }
                if g.as_ref() == Some(&want) {
                    return Ok(());
                }
                viol(key, format!("attributes should be {:?}, are {:?}", want, s))
            }
            g => viol(key, format!("attributes should be {:?}, is {}", want, rv(g))),
        }
    };
    let g = of(&(0..fns.len()).collect::<Vec<_>>()).x(&of(&vals).seq(0, 5));
    let mut r = vec![Space::new("attributes", "6 functions x every 0-5 arguments of 7 values", g.n, move |i, cx| {
        let (f, a) = g.at(i);
        check(cx, f, &a)
    })];
    let wide: Vec<V> = kinds().into_iter().filter(|v| !v.show().contains('"')).collect();
    let units = [V::s("px"), V::s("%"), V::s(""), V::UInt(3)];
    let nw = wide.len() as u64;
    let one = of(&(0..fns.len()).collect::<Vec<_>>()).x(&of(&(0..6usize).collect::<Vec<_>>())).x(&of(&(0..nw as usize).collect::<Vec<_>>())).x(&of(&units).opt());
    r.push(Space::new("kinds", "each position with each kind of value, others distinct, 4 units or none", one.n, move |i, cx| {
        let (((f, at), v), un) = one.at(i);
        let len = fns[f].2;
        let mut a: Vec<V> = (0..len as u64).map(|n| V::UInt(10 + n)).collect();
        if at < len {
            a[at] = wide[v].clone();
        }
        a.extend(un);
        check(cx, f, &a)
    }));
    let g = of(&(0..fns.len()).collect::<Vec<_>>()).x(&of(&vals[..4]).seq(0, t.pick(5, 6)));
    r.push(Space::new("templates", "the same shown in a template, inside an element", g.n, move |i, cx| {
        let (f, a) = g.at(i);
        let src = format!("<rect {{{{{}{}}}}}/>", fns[f].0, (0..a.len()).map(|i| format!(" ${}", i)).collect::<String>());
        let got = real_src(&src, &a, &cx.fm);
        let direct = call_fn(&cx.fm, fns[f].0, &a);
        cx.trace();
        cx.trans(1);
        match (&got, &direct) {
            (Real::Ok(o), Real::Ok(V::Str(d))) if o.0 == format!("<rect {}/>", d) => Ok(()),
            (Real::Err(_), Real::Err(_)) => Ok(()),
            _ => viol(format!("{} with {}", src, V::List(a).canon()), format!("{:?} but the call gives {}", got, rv(&direct))),
        }
    }));
    let g = crate::chars::placed().x(&of(&(0..6usize).collect::<Vec<_>>())).x(&of(&(0..7usize).collect::<Vec<_>>()));
    r.push(Space::new("every-character", "every ASCII character but the quote and 40 others in 8 places of each value and the unit", g.n, move |i, cx| {
        let ((x, f), at) = g.at(i);
        if x.contains('"') {
            return Ok(());
        }
        let mut a: Vec<V> = (0..fns[f].2 as u64).map(|n| V::UInt(10 + n)).collect();
        a.push(V::s("u"));
        if at >= a.len() {
            return Ok(());
        }
        a[at] = V::Str(x);
        check(cx, f, &a)
    }));
    r
}

// ------------------------------------------------------------------ C30
/// The random source cannot be controlled from outside: every argument list of the space is called
/// repeatedly and each answer must lie in the documented set.
pub fn c30(t: Tier) -> Vec<Space> {
    #[derive(Debug)]
    enum Want {
        Error,
        Of(Vec<V>),
        Float(f64, f64),
        Int(i128, i128, bool),
        Open,
    }
    let meaning = |a: &[V]| -> Want {
        match a {
            [] => Want::Float(0.0, 1.0),
            [V::List(x)] if x.is_empty() => Want::Error,
            [V::List(x)] => Want::Of(x.clone()),
            [V::UInt(n)] | [V::UInt(0), V::UInt(n)] => if *n == 0 { Want::Error } else { Want::Int(0, *n as i128, false) },
            [V::Int(n)] => if *n <= 0 { Want::Error } else { Want::Int(0, *n as i128, true) },
            [V::Float(n)] if n.is_finite() && *n > 0.0 => Want::Float(0.0, *n),
            [V::Float(_)] => Want::Open,
            [V::UInt(a), V::UInt(b)] => if a < b { Want::Int(*a as i128, *b as i128, false) } else { Want::Error },
            [V::Int(a), V::Int(b)] => if a < b { Want::Int(*a as i128, *b as i128, true) } else { Want::Error },
            [V::Float(a), V::Float(b)] if a < b && (b - a).is_finite() => Want::Float(*a, *b),
            [V::Float(_), V::Float(_)] => Want::Error,
            [a, b] if a.is_num() && b.is_num() => Want::Open, // numbers of two kinds
            [_, _] => Want::Error,
            [_] => Want::Error,
            _ => Want::Open,
        }
    };
    let reps = t.pick(24, 200);
    let check = move |cx: &mut Ctx, a: &[V]| -> Res {
        let w = meaning(a);
        let mut seen: Vec<String> = vec![];
        cx.sample(|| format!("{} within {:?}", key_call("rand", a), w));
        for _ in 0..reps {
            let g = call_fn(&cx.fm, "rand", a);
            cx.trace();
            cx.trans(1);
            let ok = match (&w, &g) {
                (_, Real::Panic(_)) => false,
                (Want::Open, _) => true,
                (Want::Error, Real::Err(_)) => return Ok(()),
                (Want::Of(x), Real::Ok(v)) => x.iter().any(|y| y.same(v)),
                (Want::Float(a, b), Real::Ok(V::Float(f))) => *a <= *f && f <= b,
                (Want::Int(a, b, true), Real::Ok(V::Int(i))) => *a <= *i as i128 && (*i as i128) < *b,
                (Want::Int(a, b, false), Real::Ok(V::UInt(i))) => *a <= *i as i128 && (*i as i128) < *b,
                _ => false,
            };
            if !ok {
                return viol(key_call("rand", a), format!("should be {:?}, is {}", w, rv(&g)));
            }
            seen.push(rv(&g));
        }
        cx.nontrivial();
        cx.state(&(a.len(), format!("{:?}", w)));
        Ok(())
    };
    let mut nums: Vec<V> = vec![];
    for i in [0i64, 1, 2, -1, -2, 5, 100, i64::MAX, i64::MIN, -5] {
        nums.push(V::Int(i));
    }
    for i in [0u64, 1, 2, 3, 5, 100, u64::MAX, 1 << 63] {
        nums.push(V::UInt(i));
    }
    for i in [0.0, 1.0, -1.0, 0.5, 1e300, -1e300, f64::MAX, f64::MIN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324] {
        nums.push(V::Float(i));
    }
    nums.extend(kinds());
    nums.extend([l(&[V::UInt(7)]), l(&[V::UInt(7), V::s("x"), V::Null]), l(&[l(&[])])]);
    let g = of(&nums).seq(0, 2);
    let mut r = vec![Space::new("ranges", "rand of every 0-2 of 63 values, repeated: each answer is in range, of the right kind, and empty ranges are errors", g.n, move |i, cx| check(cx, &g.at(i)))];
    let m = t.pick(12i64, 30);
    let w = (2 * m + 1) as u64;
    r.push(Space::new("small", "every pair of ends in -12..12 (thorough -30..30) as int, uint, float", w * w * 3, move |i, cx| {
        let mut d = Digits(i);
        let (a, b) = (d.take(w) as i64 - m, d.take(w) as i64 - m);
        match d.take(3) {
            0 => check(cx, &[V::Int(a), V::Int(b)]),
            1 if a >= 0 && b >= 0 => check(cx, &[V::UInt(a as u64), V::UInt(b as u64)]),
            1 => Ok(()),
            _ => check(cx, &[V::Float(a as f64), V::Float(b as f64)]),
        }
    }));
    let top = t.pick(30u64, 100);
    r.push(Space::new("lists", "lists of n items, n up to 30 (thorough 100); a range of n: nothing outside it", (top + 1) * 3, move |i, cx| {
        let n = i % (top + 1);
        match i / (top + 1) {
            0 => check(cx, &[V::List((0..n).map(V::UInt).collect())]),
            1 => check(cx, &[V::UInt(n)]),
            _ => check(cx, &[V::Int(n as i64)]),
        }
    }));
    // members of every kind
    let mut mem = crate::kinds::all();
    mem.extend([l(&[l(&[V::UInt(1)])]), l(&[l(&[]), l(&[])]), l(&[V::map(&[])]), V::map(&[("a", V::map(&[("a", l(&[]))]))])]);
    let nm = mem.len() as u64;
    r.push(Space::new("members", "lists of one, two, three of 73 values of all kinds, lists in lists included: what is given is a member", nm * nm * 3, move |i, cx| {
        let (a, b) = (&mem[(i / 3 / nm) as usize], &mem[(i / 3 % nm) as usize]);
        match i % 3 {
            0 => check(cx, &[l(&[a.clone(), b.clone()])]),
            1 => check(cx, &[l(&[a.clone(), V::UInt(77), b.clone()])]),
            _ if a.same(b) => check(cx, &[l(&[a.clone()])]),
            _ => Ok(()),
        }
    }));
    // every value of a small range turns up: 64 misses of 1 in n<=4 are impossible in practice (< 1e-150)
    r.push(Space::new("reached", "every value of ranges and lists of up to 4 is reached in 1500 calls", 4 * 3, |i, cx| {
        let n = 1 + i % 4;
        let (a, all): (Vec<V>, Vec<V>) = match i / 4 {
            0 => (vec![V::UInt(n)], (0..n).map(V::UInt).collect()),
            1 => (vec![V::Int(-2), V::Int(n as i64 - 2)], (0..n).map(|k| V::Int(k as i64 - 2)).collect()),
            _ => (vec![V::List((0..n).map(|k| V::UInt(k * 3)).collect())], (0..n).map(|k| V::UInt(k * 3)).collect()),
        };
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..1500 {
            seen.insert(rv(&call_fn(&cx.fm, "rand", &a)));
        }
        cx.trace();
        cx.trans(1500);
        for v in &all {
            if !seen.contains(&v.canon()) {
                return viol(key_call("rand", &a), format!("never gives {}", v.canon()));
            }
        }
        Ok(())
    }));
    let _ = val::ord;
    r
}
