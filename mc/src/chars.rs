//! Every character in every place: alone, twice, at the beginning, the end, in the middle.
use crate::ast::*;
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::val::V;

/// all of ASCII and characters that libraries treat in their own way: other white space, width, case, direction, combining, the ends of the ranges
pub fn chars() -> Vec<char> {
    (0u8..0x80).map(|b| b as char).chain("\u{80}\u{85}\u{a0}\u{ad}\u{b4}ßéİıſ\u{300}\u{3a3}ς\u{5d0}\u{1680}\u{180e}\u{2000}\u{200b}\u{200d}\u{200e}\u{2018}\u{2019}\u{201c}\u{2028}\u{2029}\u{202e}\u{2044}\u{205f}\u{2060}\u{3000}漢\u{fb01}\u{feff}\u{ff0e}\u{ff0f}\u{fffd}\u{ffff}\u{10000}🎉\u{10ffff}".chars()).collect()
}
pub const SHAPES: u64 = 8;
pub fn shape(c: char, how: u64) -> String {
    match how {
        0 => c.to_string(),
        1 => format!("{}{}", c, c),
        2 => format!("{}a", c),
        3 => format!("a{}", c),
        4 => format!("a{}b", c),
        5 => format!("{}a{}", c, c),
        6 => format!("a {} b", c),
        _ => format!("é{}{}é", c, c),
    }
}
pub fn placed() -> G<String> {
    let c = chars();
    G::new(c.len() as u64 * SHAPES, move |i| shape(c[(i / SHAPES) as usize], i % SHAPES))
}
pub fn chars_g() -> G<char> {
    of(&chars())
}

/// C10: string literals that hold the character, plain, escaped, raw
pub fn c10() -> Vec<Space> {
    let g = placed().x(&of(&(0..6usize).collect::<Vec<_>>()));
    vec![Space::new("every-character", "every ASCII character and 40 others in 8 places of a text: in a literal, a raw literal, as map key, as default of a missing variable, given as parameter, within a list; length and value", g.n, move |i, cx| {
        let (x, how) = g.at(i);
        let v = || lit(V::s(&x));
        let seen = |e: E| vec![text("<"), It::Exp(e.clone()), text(">"), It::Exp(cmd("len", &[e.clone()])), It::Export(vec![("v".into(), e)])];
        let c = match how {
            0 => Case::new(seen(v())),
            1 => {
                if x.contains("\"#") || x.contains("r#") {
                    return Ok(());
                }
                Case::new(seen(v())).src(format!("<{{{{r#\"{0}\"#}}}}>{{{{len r#\"{0}\"#}}}}{{{{export v = r#\"{0}\"#}}}}", x))
            }
            2 if x.contains('\'') => return Ok(()),
            2 => Case::new(seen(cmd("w_json", &[E::Map(vec![(x.clone(), u(1))])]))),
            3 => Case::new(seen(cmd("first", &[var("nope"), v()]))),
            4 => Case::new(seen(var("0"))).params(&[V::s(&x)]),
            _ => Case::new(seen(cmd("get", &[E::List(vec![u(0), v()]), u(1)]))),
        };
        c.check(cx)
    })]
}
pub fn c11_paths() -> Vec<Space> {
    let g = placed().x(&of(&(0..3usize).collect::<Vec<_>>()));
    vec![Space::new("every-key", "map keys with every ASCII character and 40 others in 8 places, read by get, by a quoted path, in a loop", g.n, move |i, cx| {
        let (x, how) = g.at(i);
        let d = V::map(&[(&x, V::s("hit")), ("a", V::s("other")), ("", V::s("empty"))]);
        let b = match how {
            0 => vec![It::Exp(cmd("get", &[var("0"), var("1")]))],
            1 => {
                if x.contains('\'') || x.is_empty() {
                    return Ok(());
                }
                vec![It::Exp(E::Var(vec![P::Num(0), P::Id(x.clone())]))]
            }
            _ => vec![It::For("k".into(), "v".into(), var("0"), vec![It::Exp(cmd("trace", &[var("k"), var("v")])), It::If(vec![(cmd("eq", &[var("k"), var("1")]), vec![text("!")])], None)])],
        };
        Case::new(b).params(&[d, V::s(&x)]).check(cx)
    })]
}
pub fn c15() -> Vec<Space> {
    let c = chars();
    let n = c.len() as u64;
    let f = ["eq", "lt", "gt", "lte", "gte", "neq", "eq_any"];
    vec![Space::new("every-character", "7 comparisons of every two of 168 characters, and of texts that hold them", n * n * 7 * 3, move |i, cx| {
        let mut d = Digits(i);
        let (f, how) = (f[d.take(7) as usize], d.take(3));
        let (a, b) = (c[d.take(n) as usize], c[d.take(n) as usize]);
        let t = |c: char| match how {
            0 => V::Str(c.to_string()),
            1 => V::Str(format!("a{}", c)),
            _ => V::List(vec![V::Str(format!("{}b", c))]),
        };
        check_call(cx, f, &[t(a), t(b)])
    })]
}
/// C18: texts are taken as they are
pub fn c18(t: Tier) -> Vec<Space> {
    let g = placed().x(&of(&(0..14usize).collect::<Vec<_>>()));
    let mut r = vec![Space::new("every-character", "every ASCII character and 40 others in 8 places as text, pattern, replacement, separator of each function", g.n, move |i, cx| {
        let (x, how) = g.at(i);
        let s = |t: &str| V::s(t);
        let v = s(&x);
        let first = x.chars().next().unwrap();
        let (f, a) = match how {
            0 => ("cat", vec![v]),
            1 => ("cat", vec![v.clone(), s("-"), v.clone(), V::List(vec![v.clone()]), V::map(&[(&x, v)])]),
            2 => ("split", vec![v, s("a")]),
            3 => ("split", vec![V::Str(format!("1{}2{}{}", x, x, x)), v]),
            4 => ("split", vec![v]),
            5 => ("str_contains", vec![V::Str(format!("1{}2", x)), v]),
            6 => ("str_contains", vec![v, V::Str(first.to_string()), s("a")]),
            7 => ("str_replace", vec![s("1Z2Z"), s("Z"), v]),
            8 => ("str_replace", vec![V::Str(format!("{}1{}{}", x, x, x)), v, s("R")]),
            9 => ("str_replace_n", vec![V::Str(format!("{}1{}{}", x, x, x)), v, s("R"), V::UInt(2)]),
            10 => ("str_replace_n", vec![s("1Z2Z"), s("Z"), v, V::UInt(1)]),
            11 => ("join_with", vec![v.clone(), V::List(vec![s("1"), v, s("2")])]),
            12 => ("string_from_ints", x.chars().map(|c| V::UInt(c as u64)).collect()),
            _ => ("string_from_ints", x.chars().map(|c| V::Int(c as i64)).collect()),
        };
        check_call(cx, f, &a)
    })];
    // regular expressions of two atoms with classes, repetitions and anchors
    let atoms: Vec<(&str, fn(char) -> bool)> = vec![
        ("a", |c| c == 'a'),
        (".", |c| c != '\n'),
        ("[ab]", |c| c == 'a' || c == 'b'),
        ("[^a]", |c| c != 'a'),
        ("[^\\n]", |c| c != '\n'),
        ("\\d", |c| c.is_ascii_digit()),
        ("\\D", |c| !c.is_ascii_digit()),
        ("\\w", |c| c.is_alphanumeric() || c == '_'),
        ("\\W", |c| !(c.is_alphanumeric() || c == '_')),
        ("\\s", |c| c.is_whitespace()),
        ("\\S", |c| !c.is_whitespace()),
        ("[a-c]", |c| ('a'..='c').contains(&c)),
        ("\\.", |c| c == '.'),
        ("é", |c| c == 'é'),
        ("\\n", |c| c == '\n'),
        (" ", |c| c == ' '),
        ("A", |c| c == 'A'),
        ("#", |c| c == '#'),
    ];
    let reps: Vec<(&str, usize, usize)> = vec![("", 1, 1), ("*", 0, 9), ("+", 1, 9), ("?", 0, 1), ("{2}", 2, 2), ("*?", 0, 9)];
    let ss = of(&["a", "b", "A", "\n", "é", "1", " ", ".", "#", "_"]).seq(0, t.pick(2, 3)).map(|v| v.concat());
    let nr = reps.len();
    let one = G::new((atoms.len() * nr) as u64, |i| i as usize);
    let plain: Vec<usize> = (0..atoms.len() * nr).filter(|k| t == Tier::Thorough || [0, 1, 3].contains(&(k % nr))).collect();
    let g = alt(vec![one.seq(1, 1).x(&of(&[0u8, 1, 2, 3])), of(&plain).seq(2, 2).x(&of(t.pick(&[3u8][..], &[0, 1, 2, 3])))]);
    r.push(Space::new("regex-classes", "every regular expression of 1-2 of 18 atoms and classes x 6 repetitions x anchors (quick: two with 3 repetitions, anchored), each on every string of up to 2 (thorough 3) of 10 characters", g.n, move |i, cx| {
        let (e, an) = g.at(i);
        let parts: Vec<_> = e.iter().map(|k| (atoms[k / nr], reps[k % nr])).collect();
        let src = format!("{}{}{}", if an & 1 == 1 { "^" } else { "" }, parts.iter().map(|((a, _), (q, ..))| format!("{}{}", a, q)).collect::<String>(), if an & 2 == 2 { "$" } else { "" });
        for j in 0..ss.n {
            let s = ss.at(j);
            let c: Vec<char> = s.chars().collect();
            let mut at: Vec<usize> = if an & 1 == 1 { vec![0] } else { (0..=c.len()).collect() };
            for ((_, f), (_, lo, hi)) in &parts {
                let mut next = vec![];
                for b in at {
                    let mut e = b;
                    for n in 0..=*hi {
                        if n >= *lo {
                            next.push(e);
                        }
                        if e >= c.len() || !f(c[e]) {
                            break;
                        }
                        e += 1;
                    }
                }
                next.sort();
                next.dedup();
                at = next;
            }
            let want = at.iter().any(|e| an & 2 == 0 || *e == c.len());
            check_call_with(cx, "regex", &[V::Str(s), V::s(&src)], Ok(V::Bool(want)))?;
        }
        Ok(())
    }));
    r
}
/// C22: names are taken as they are
pub fn c22() -> Vec<Space> {
    let f = ["base_name", "base_name_sure", "parent", "stem", "full_stem", "ext", "bread_crumbs", "join"];
    let f: Vec<&str> = f.iter().filter(|n| crate::mfun::exists(n)).cloned().collect();
    let nf = f.len();
    let g = placed().x(&of(&(0..8usize).collect::<Vec<_>>())).x(&of(&(0..nf + 1).collect::<Vec<_>>()));
    vec![Space::new("every-character", "every ASCII character and 40 others in 8 places of a name, in 8 paths, by each function", g.n, move |i, cx| {
        let ((x, how), k) = g.at(i);
        let p = match how {
            0 => x.clone(),
            1 => format!("d/{}", x),
            2 => format!("{}/f", x),
            3 => format!("/{}", x),
            4 => format!("{}.e", x),
            5 => format!("d.{}", x),
            6 => format!("d/{}/", x),
            _ => format!("{}.t.e/n", x),
        };
        if k == nf {
            // left open: names that begin with ..
            if p.split('/').any(|n| n.starts_with("..")) {
                return Ok(());
            }
            return check_call(cx, "with_ext", &[V::Str(p), V::s("new")]);
        }
        check_call(cx, f[k], &[V::Str(p)])
    })]
}
/// C31: what a block holds and hands on
pub fn c31() -> Vec<Space> {
    let g = placed().x(&of(&(0..4usize).collect::<Vec<_>>()));
    vec![Space::new("every-character", "every ASCII character and 40 others in 8 places of the body of @let, @cat, @len, a template", g.n, move |i, cx| {
        let (x, how) = g.at(i);
        let src = crate::lex::escaped(&x);
        let b = vec![text(&x)];
        let (b, s) = match how {
            0 => (vec![It::AtLet("v".into(), b), It::Export(vec![("e".into(), var("v"))])], format!("{{{{@let v}}}}{}{{{{/let}}}}{{{{export e = $v}}}}", src)),
            1 => (vec![It::Block("cat".into(), vec![s("<"), var("@"), s(">")], b)], format!("{{{{@cat \"<\" @ \">\"}}}}{}{{{{/cat}}}}", src)),
            2 => (vec![It::Block("len".into(), vec![], b)], format!("{{{{@len}}}}{}{{{{/len}}}}", src)),
            _ => (vec![It::Block("t".into(), vec![], b)], format!("{{{{@t}}}}{}{{{{/t}}}}", src)),
        };
        Case::new(b).temp("t", &["p"], vec![text("("), crate::ctl::show("0"), text(")"), It::Exp(cmd("len", &[var("p")]))]).src(s).check(cx)
    })]
}
