//! C12 every text is a template or an error; C13 every call gives a value or an error.
use crate::common::*;
use crate::ctl::kinds;
use crate::engine::*;
use crate::gen::*;
use crate::val::V;
use std::time::Instant;
use templito::temp_man::NoTemplates;
use templito::{TData, TParam};

const SLOW_MS: u128 = 8_000;

/// parse, and run what parses: a result or an error, every time the same, soon
fn total(cx: &mut Ctx, src: &str, run: bool) -> Res {
    let st = Instant::now();
    let t = parse(src);
    cx.trace();
    cx.trans(1);
    let key = || format!("template {:?}", src);
    let class = match &t {
        Real::Ok(t) => {
            cx.nontrivial();
            if run {
                let d = V::map(&[("a", V::List(vec![V::UInt(1), V::s("x")])), ("b", V::s("y"))]).td();
                let ps: [&dyn TParam; 2] = [&d, &3usize];
                let a = real(|| t.run(&ps, &mut NoTemplates, &cx.fm));
                if let Real::Panic(p) = &a {
                    return viol(key(), format!("running it panics: {}", p));
                }
                let b = real(|| t.run(&ps, &mut NoTemplates, &cx.fm));
                if a != b && !src.contains("rand") {
                    return viol(key(), format!("two runs differ: {:?} and {:?}", a, b));
                }
                take_log();
                let f = real(|| -> Result<_, String> { Ok(t.front_matter(&cx.fm)) });
                if let Real::Panic(p) = &f {
                    return viol(key(), format!("its front matter panics: {}", p));
                }
                if matches!(a, Real::Ok(_)) {
                    "text"
                } else {
                    "failing"
                }
            } else {
                "accepted"
            }
        }
        Real::Err(e) => {
            if e.is_empty() {
                return viol(key(), "rejected without a message");
            }
            "rejected"
        }
        Real::Panic(p) => return viol(key(), format!("the parser panics: {}", p)),
    };
    let ms = st.elapsed().as_millis();
    if ms > SLOW_MS {
        return viol(key(), format!("took {} ms for {} bytes", ms, src.len()));
    }
    cx.state(&(class, src.len().min(40)));
    cx.sample(|| format!("{:?} is {}", src.chars().take(120).collect::<String>(), class));
    Ok(())
}
fn total_data(cx: &mut Ctx, src: &str) -> Res {
    let d = real(|| TData::from_str(src)).map(|t| V::of(&t));
    cx.trace();
    if let Real::Panic(p) = d {
        return viol(format!("data {:?}", src), format!("panics: {}", p));
    }
    let j = call_fn(&cx.fm, "r_json", &[V::s(src)]);
    cx.trace();
    if let Real::Panic(p) = j {
        return viol(format!("r_json {:?}", src), format!("panics: {}", p));
    }
    cx.trans(2);
    cx.state(&(d.ok().map(|v| v.type_name()), src.len()));
    Ok(())
}
const TOKENS: &[&str] = &[
    "{{", "}}", "{{-", "-}}", " ", "\n", "if ", "else", "elif ", "/if", "for k v in ", "/for", "let x = ", "let", "@cat ", "@", "/cat", "\"", "\"s\"", "(", ")", "[", "]", "{", "}", "$", "$0", ".", ".a", "1", "-", "-2", "1.5", "cat", "cat ", ":", ",", "#", "'", "'q'", "\\", "é", "<", ">", "?(", "_", "r#\"", "\"#",
    "case ", "switch ", "as ", "/switch", "return ", "export y = ", "=", ";", "null", "true", "first ", "select ", "/", "1/2/2020", "1e", "\\u00",
];
fn tok_space(name: &'static str, bounds: &str, pre: &'static str, post: &'static str, k: usize, lo: u32, hi: u32) -> Space {
    let g = of(&TOKENS[..k]).seq(lo, hi);
    Space::new(name, bounds, g.n, move |i, cx| {
        let s = format!("{}{}{}", pre, g.at(i).concat(), post);
        total(cx, &s, true)
    })
}

pub const CORPUS: &[&str] = &[
    "plain text, no tags", "{{$0.b}}", "a {{- $0.b -}} b", "{{if $1}}yes{{elif .b}}maybe{{else}}no{{/if}}", "{{for k v in .a}}{{$k}}={{$v}},{{/for}}", "{{let x=1; y=\"two\"}}{{$x}}{{$y}}", "{{export t = [1,2,{a:3}]}}",
    "{{@export body}}some {{$1}} text{{/export}}", "{{@let z}}zz{{/let}}{{$z}}", "{{define f p q}}<{{$p}}>{{return $q}}{{/define}}{{run $f 1 2}}", "{{switch $0}}{{case {a:[x _],b}}}{{$x}}{{case _ 4 \"s\"}}d{{/switch}}", "{{as .a : [1 <z:\"x\">]}}{{$z}}{{/as}}",
    "{{as 5 : ?(gt @ 3)}}big{{/as}}", "{{@md}}# head\n* a{{/md}}", "{{@html_esc}}<b>{{/html_esc}}", "{{cat (add 1 2) [3 -4 5.5e3] {k: null, \"l\" : true}}}", "{{first $zz .b \"d\"}}", "{{select (eq 1 1) \"t\" \"f\"}}", "{{# comment #}}x\\{{y\\\\z\\ \n q", "{{1/jan/2020}} {{31/12/1999}}",
    "{{\"esc \\n \\\" \\u00e9 \\ud83d\\ude00\"}}{{r#\"raw \" \\ \"#}}", "{{'quoted name' 1}}", "{{filter [1,2,3] \"gt . 1\"}}", "{{sort_on [{a:2},{a:1}] \"-a\"}}", "{{r_json \"{\\\"a\\\": [1, 2.5, null]}\"}}", "{{@table}}|a|b|\n|*|x|{{/table}}",
    "{{word_wrap \"some words to wrap\" 6}}", "{{- if true -}} t {{- /if -}}", "{{as $0:{a:[_ <m>]}}}{{$m}}{{/as}}", "{{ w_json\n\t[ 1 , [ ] , { } ] }}", "{{join \"a\" \"../b\" }}", "{{for i j in 3}}{{for k l in $i}}{{$l}}{{/for}};{{/for}}",
];

pub fn c12(t: Tier) -> Vec<Space> {
    let all = TOKENS.len();
    let mut r = vec![
        tok_space("tokens", "every sequence of up to 3 of 64 tokens as a template", "", "", all, 0, 3),
        tok_space("in-tag", "every sequence of up to 3 tokens inside a tag", "{{", "}}", all, 0, 3),
        tok_space("in-open-tag", "every sequence of up to 3 tokens after an opening, never closed", "t{{", "", all, 0, 3),
        tok_space("in-command", "every sequence of up to 3 tokens as arguments", "{{cat 1 ", "}}", all, 0, 3),
        tok_space("in-pattern", "every sequence of up to 3 tokens as a pattern", "{{switch $0}}{{case ", "}}m{{/switch}}", all, 0, 3),
        tok_space("in-bracket", "every sequence of up to 3 tokens in a list in a command", "{{cat [", "]}}", all, 0, 3),
        tok_space("in-string", "every sequence of up to 3 tokens in a string", "{{\"", "\"}}", all, 0, 3),
    ];
    if t == Tier::Thorough {
        r.push(tok_space("tokens-4", "every sequence of 4 tokens as a template", "", "", all, 4, 4));
        r.push(tok_space("in-tag-4", "every sequence of 4 tokens inside a tag", "{{", "}}", all, 4, 4));
        r.push(tok_space("in-open-tag-4", "every sequence of 4 tokens in an unclosed tag", "{{cat ", "", all, 4, 4));
        r.push(tok_space("in-pattern-4", "every sequence of 4 tokens as a pattern", "{{as $0 : ", "}}m{{/as}}", all, 4, 4));
    } else {
        r.push(tok_space("in-tag-4", "every sequence of 4 of 24 tokens inside a tag", "{{", "}}", 24, 4, 4));
    }
    // characters
    let ch: Vec<String> = "{}-\\ \n\"#a1.$(".chars().map(|c| c.to_string()).collect();
    let g = of(&ch).seq(0, t.pick(5, 6));
    r.push(Space::new("chars", "every string of up to 5 (thorough 6) of 13 characters, as template and as data", g.n, move |i, cx| {
        let s = g.at(i).concat();
        total(cx, &s, false)?;
        total_data(cx, &s)
    }));
    let dt: Vec<String> = ["[", "]", "{", "}", ",", ":", "\"", "\"k\"", "1", "-", ".", "e", "/", "null", "nul", "true", " ", "\\", "r#\"", "\"#", "é", "\\u", "12", "_"].iter().map(|s| s.to_string()).collect();
    let g = of(&dt).seq(0, t.pick(4, 5));
    r.push(Space::new("data", "every sequence of up to 4 (thorough 5) of 24 pieces of data text", g.n, move |i, cx| total_data(cx, &g.at(i).concat())));
    // edits of working templates
    let reps: Vec<String> = ["", "{", "}", "{{", "}}", "-", "\"", "'", "(", ")", "[", "]", "#", "\\", " ", "\n", "$", "@", ".", ",", ":", "0", "9", "x", "é", "/", "_", "<", ">", "?", ";", "="].iter().map(|s| s.to_string()).collect();
    let mut edits: Vec<(usize, usize)> = vec![];
    for (c, s) in CORPUS.iter().enumerate() {
        for p in 0..=s.chars().count() {
            edits.push((c, p));
        }
    }
    let ne = edits.len() as u64;
    let nr = reps.len() as u64;
    let e1 = edits.clone();
    let r1 = reps.clone();
    r.push(Space::new("one-edit", "32 working templates: every prefix, suffix, and every replacement, insertion, deletion or doubling at every position with 32 pieces", ne * (nr * 2 + 4), move |i, cx| {
        let mut d = Digits(i);
        let (c, p) = e1[d.take(ne) as usize];
        let s: Vec<char> = CORPUS[c].chars().collect();
        let (a, b): (String, String) = (s[..p].iter().collect(), s[p..].iter().collect());
        let k = d.0;
        let rest: String = s[p..].iter().skip(1).collect();
        let x = if k < nr {
            format!("{}{}{}", a, r1[k as usize], rest)
        } else if k < 2 * nr {
            format!("{}{}{}", a, r1[(k - nr) as usize], b)
        } else {
            match k - 2 * nr {
                0 => a,
                1 => b,
                2 => format!("{}{}{}", a, a, b),
                _ => format!("{}{}", b, a),
            }
        };
        total(cx, &x, true)
    }));
    if t == Tier::Thorough {
        let small: Vec<usize> = vec![3, 4, 9, 10, 11, 15, 20];
        let sm: Vec<(usize, usize, usize)> = small.iter().flat_map(|c| (0..CORPUS[*c].chars().count()).flat_map(move |p| (p + 1..CORPUS[*c].chars().count()).map(move |q| (*c, p, q)))).collect();
        let ns = sm.len() as u64;
        r.push(Space::new("two-edits", "7 working templates with two replacements or deletions", ns * nr * nr, move |i, cx| {
            let mut d = Digits(i);
            let (c, p, q) = sm[d.take(ns) as usize];
            let (x, y) = (d.pick(&reps).clone(), d.pick(&reps).clone());
            let mut o = String::new();
            for (n, ch) in CORPUS[c].chars().enumerate() {
                if n == p {
                    o.push_str(&x)
                } else if n == q {
                    o.push_str(&y)
                } else {
                    o.push(ch)
                }
            }
            total(cx, &o, true)
        }));
        r.push(Space::new("two-corpus", "every template cut at every position and continued with every other from every 3rd position", ne * ne / 3, move |i, cx| {
            let (c, p) = edits[(i % ne) as usize];
            let (e, q) = edits[((i / ne) * 3 % ne) as usize];
            let x: String = CORPUS[c].chars().take(p).chain(CORPUS[e].chars().skip(q)).collect();
            total(cx, &x, false)
        }));
    }
    // nesting: opened n times, closed m times
    let units: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("{a:", "}"), ("(cat ", ")"), ("[cat ", "]"), ("{a:list ", "}"), ("cat (", ")"), ("(cat 1 ", ")"), ("[1,[", "]]"), ("(first $x [", "])"), ("{\"k\":[", "]}"), ("cat ", ""), ("cat 1 .", ""), ("(.a ", ")"), ("(cat \"a\" (", "))"), ("[[],", "]"), ("-", ""), ("'", "'"), ("\"", "\""), ("((", "))"), ("$a.", ""), ("{a:{b:", "}}"),
    ];
    let pats: &[(&str, &str)] = &[("[", "]"), ("{a:", "}"), ("<a:", ">"), ("[_ ", "]"), ("{a b:", "}"), ("?(", ")"), ("[[", "]]"), ("<a:[", "]>"), ("?(cat [", "])"), ("{a,", "}")];
    let blocks: &[(&str, &str)] = &[
        ("{{if 1}}", "{{/if}}"), ("{{if 1}}{{else}}", "{{/if}}"), ("{{if 0}}{{elif 1}}", "{{/if}}"), ("{{for k v in 1}}", "{{/for}}"), ("{{@cat}}", "{{/cat}}"), ("{{@let x}}", "{{/let}}"), ("{{switch 1}}{{case _}}", "{{/switch}}"), ("{{as 1 : _}}", "{{/as}}"), ("{{define f}}", "{{/define}}"),
        ("{{@export x}}", "{{/export}}"), ("{", "}"), ("{{#", "#}}"), ("\\", "\\"), ("{{- ", " -}}"), ("{{global f}}", "{{/global}}"),
    ];
    let ends = ["", "1", ".", "\"", "}}", "1}}", "/", "@"];
    let max = t.pick(40u64, 64);
    let sizes: Vec<u64> = (0..=max).collect();
    let (nu, np, nb) = (units.len() as u64, pats.len() as u64, blocks.len() as u64);
    let kinds3 = nu + np + nb;
    let (units, pats, blocks) = (units.to_vec(), pats.to_vec(), blocks.to_vec());
    r.push(Space::new("nesting", "47 bracketing constructs nested up to 40 (thorough 64) deep x 8 cores x closed completely, one short, not at all, one too many: answered in time", kinds3 * sizes.len() as u64 * ends.len() as u64 * 4, move |i, cx| {
        let mut d = Digits(i);
        let k = d.take(kinds3);
        let n = *d.pick(&sizes) as usize;
        let e = *d.pick(&ends);
        let close = match d.take(4) {
            0 => n,
            1 => n.saturating_sub(1),
            2 => 0,
            _ => n + 1,
        };
        let (pre, (o, c), post) = if k < nu {
            ("{{cat ", units[k as usize], "}}")
        } else if k < nu + np {
            ("{{as $0 : ", pats[(k - nu) as usize], "}}m{{/as}}")
        } else {
            ("", blocks[(k - nu - np) as usize], "")
        };
        total(cx, &format!("{}{}{}{}{}", pre, o.repeat(n), e, c.repeat(close), post), true)
    }));
    // length
    let longs: &[(&str, &str, &str)] = &[
        ("", "a", ""), ("", " ", ""), ("", "\n", "{{- 1}}"), ("{{1 -}}", " ", "x"), ("", "\\", ""), ("", "\\{", ""), ("", "{ ", ""), ("{{#", "c", "#}}"), ("{{\"", "é", "\"}}"), ("{{r#\"", "\"", "\"#}}"), ("", "{{1}}", ""), ("", "{{let x=1}}", ""), ("{{let ", "x=1;", "}}"), ("{{cat ", "1 ", "}}"), ("{{len [", "1,", "1]}}"), ("{{len {", "a:1,", "a:1}}}"),
        ("{{$0", ".a", "}}"), ("{{", "x", "}}"), ("{{", "1", "}}"), ("{{1.", "1", "}}"), ("{{\"", "\\u0041", "\"}}"), ("{{if 1}}", "{{elif 1}}", "{{/if}}"), ("{{switch 1}}", "{{case 1}}", "{{/switch}}"), ("{{switch 1}}{{case ", "2 ", "}}{{/switch}}"), ("{{as 1 : [", "_ ", "]}}{{/as}}"), ("{{cat ", " ", ""), ("{{", "- ", ""), ("{{define f ", "p ", "}}{{/define}}"), ("", "é漢🎉", ""), ("{{'", "n", "'}}"),
    ];
    let lens = t.pick(vec![1usize, 10, 63, 64, 65, 255, 256, 1000, 3000], vec![1usize, 10, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 3000, 10000, 30000]);
    let nl = longs.len() as u64;
    let longs = longs.to_vec();
    r.push(Space::new("length", "30 repetitions up to 3000 (thorough 30000) long", nl * lens.len() as u64, move |i, cx| {
        let mut d = Digits(i);
        let (a, b, c) = longs[d.take(nl) as usize];
        let n = *d.pick(&lens);
        total(cx, &format!("{}{}{}", a, b.repeat(n), c), true)
    }));
    // blocks after many items
    let opens: Vec<(&str, &str)> = vec![
        ("", ""), ("{{if 1}}", "{{/if}}"), ("{{if 0}}a{{else}}", "{{/if}}"), ("{{if 0}}a{{elif 1}}", "{{/if}}"), ("{{for k v in 2}}", "{{/for}}"), ("{{switch 1}}{{case 1}}", "{{/switch}}"), ("{{switch 1}}{{case 2}}a{{case <c>}}", "{{/switch}}"), ("{{as 1 : <c>}}", "{{/as}}"),
        ("{{define d}}", "{{/define}}"), ("{{global d}}", "{{/global}}"), ("{{@let x}}", "{{/let}}"), ("{{@export x}}", "{{/export}}"), ("{{@cat}}", "{{/cat}}"),
    ];
    let pieces = ["t{{1}}", "{{let a = 1}}", "{{#c#}}", "{{if 1}}x{{/if}}", "{{1}}", "{{@cat}}{{/cat}}", " {{- 1 -}} ", "{{for k v in 1}}{{/for}}", "{{return 1}}"];
    let g = of(&opens).x(&of(&opens)).x(&of(&pieces)).x(&of(&(0..=t.pick(30usize, 80)).collect::<Vec<_>>())).x(&of(&[0usize, 1, 2]));
    r.push(Space::new("items-and-blocks", "n items of 9 kinds before one of 13 blocks within one of 13, closed, closed once, not closed; n up to 30 (thorough 80)", g.n, move |i, cx| {
        let ((((o, b), p), n), how) = g.at(i);
        total(cx, &format!("{}{}{}x{}t{}", o.0, p.repeat(n), b.0, if how < 2 { b.1 } else { "" }, if how < 1 { o.1 } else { "" }), true)
    }));
    r
}

// ------------------------------------------------------------------ C13
/// names of the functions in the manager
pub fn func_names(fm: &templito::func_man::BasicFuncs) -> Vec<String> {
    use templito::func_man::FuncManager;
    let v = std::cell::RefCell::new(vec![]);
    fm.for_each(|k, _| v.borrow_mut().push(k.clone()));
    let mut v = v.into_inner();
    v.sort();
    v
}
/// crate, file and line of a panic in a dependency
fn in_library(p: &str) -> Option<String> {
    let at = p.split("panicked at ").nth(1)?.split('\n').next()?;
    let at = at.split("/registry/src/").nth(1)?;
    let at = at.split_once('/')?.1;
    Some(at.trim_end_matches(':').rsplit_once(':')?.0.to_string())
}
fn call_total(cx: &mut Ctx, name: &str, a: &[V]) -> Res {
    let st = Instant::now();
    let g = call_fn(&cx.fm, name, a);
    cx.trace();
    cx.trans(1);
    let key = || key_call(name, a);
    if let Real::Panic(p) = &g {
        // a panic inside a library is known by its call site, any other by the call
        return match in_library(p) {
            Some(at) => viol(format!("{} panics in {}", name, at), format!("{} panics: {}", key(), p)),
            None => viol(key(), format!("panics: {}", p)),
        };
    }
    if name != "rand" {
        let h = call_fn(&cx.fm, name, a);
        let same = match (&g, &h) {
            (Real::Ok(x), Real::Ok(y)) => x.same(y),
            (Real::Err(_), Real::Err(_)) => true,
            _ => false,
        };
        if !same {
            return viol(key(), format!("two calls differ: {} and {}", rv(&g), rv(&h)));
        }
    }
    if st.elapsed().as_millis() > SLOW_MS {
        return viol(key(), format!("took {} ms", st.elapsed().as_millis()));
    }
    if let Real::Ok(v) = &g {
        cx.nontrivial();
        cx.state(&(name, v.type_name(), a.len(), a.iter().map(|x| x.type_name()).collect::<Vec<_>>()));
        cx.sample(|| format!("{} = {}", key(), v.canon().chars().take(100).collect::<String>()));
    }
    Ok(())
}
pub fn c13(t: Tier) -> Vec<Space> {
    let names: Vec<String> = func_names(&templito::func_man::default_func_man()).into_iter().filter(|n| n != "debug").collect();
    assert!(names.len() > 40);
    let mut vals = kinds();
    vals.extend([
        V::s("é漢"), V::s("a b\nc"), V::s("|a|b|\n*|c|d|"), V::s("<&\"'>"), V::s("../x/"), V::s("["), V::s("(gt . 1)"), V::s("-a.b"), V::List(vec![V::UInt(1), V::s("a"), V::Float(f64::NAN), V::Null]), V::List(vec![V::map(&[("a", V::UInt(1))]), V::map(&[("a", V::Float(f64::NAN))]), V::List(vec![])]), V::Int(i64::MAX),
        V::Float(1e300), V::Float(f64::NEG_INFINITY), V::Bytes(vec![61, 61, 255]), V::s("YQ=="), V::Date(1, 1, 1), V::UInt(3), V::Int(-9),
    ]);
    let nm = of(&names);
    let vs = of(&vals);
    let mk = |name: &str, b: &str, g: G<(String, Vec<V>)>| {
        Space::new(name, b, g.n, move |i, cx| {
            let (n, a) = g.at(i);
            call_total(cx, &n, &a)
        })
    };
    let mut r = vec![mk("args-0-2", "every default function x every 0-2 arguments of 50 values of all kinds", nm.x(&vs.seq(0, 2)))];
    let few: Vec<V> = t.pick((0..vals.len()).step_by(3).map(|i| vals[i].clone()).collect(), vals.clone());
    r.push(mk("args-3", "every default function x every 3 arguments of 17 (thorough 50) values", nm.x(&of(&few).seq(3, 3))));
    let few: Vec<V> = (0..vals.len()).step_by(t.pick(10, 5)).map(|i| vals[i].clone()).collect();
    r.push(mk("args-4-5", "every default function x every 4-5 arguments of 5 (thorough 10) values", nm.x(&of(&few).seq(4, 5))));
    // strings as the text they are parsed as
    let toks: Vec<String> = ["|", "-", "*", "\n", "a", " ", "é", "[", "]", "(", ")", "#", "{", "}", "\"", ":", ",", "\\", "$0", ".", "1", "<", "&", "`", "/"].iter().map(|s| s.to_string()).collect();
    let shapes: Vec<(&str, Vec<V>, usize)> = vec![
        ("table", vec![], 0), ("md", vec![], 0), ("r_json", vec![], 0), ("r_card", vec![], 0), ("word_wrap", vec![V::UInt(2)], 0), ("word_wrap", vec![V::UInt(0)], 0), ("from_base64", vec![], 0), ("regex", vec![V::s("a1")], 1), ("filter", vec![V::List(vec![V::UInt(1), V::s("a")])], 1), ("sort_on", vec![V::List(vec![V::UInt(1), V::map(&[])])], 1),
        ("html_esc", vec![], 0), ("parent", vec![], 0), ("bread_crumbs", vec![], 0), ("stem", vec![], 0), ("full_stem", vec![], 0), ("with_ext", vec![V::s("x")], 0), ("base_name", vec![], 0), ("split", vec![V::s("a")], 0), ("str_replace", vec![V::s("a"), V::s("b")], 0), ("slice", vec![V::UInt(1), V::UInt(2)], 0), ("get", vec![V::UInt(1)], 0),
        ("bin_search", vec![V::List(vec![V::UInt(1), V::UInt(2)]), V::UInt(1)], 1), ("bin_get", vec![V::List(vec![V::map(&[("a", V::UInt(1))])]), V::UInt(1)], 1),
    ];
    let g = of(&shapes).x(&of(&toks).seq(0, t.pick(3, 4)));
    r.push(Space::new("texts", "23 functions that read text x every string of up to 3 (thorough 4) of 25 pieces", g.n, move |i, cx| {
        let ((n, rest, at), s) = g.at(i);
        let mut a = rest;
        a.insert(at, V::Str(s.concat()));
        call_total(cx, n, &a)
    }));
    // each function with longer texts over the characters that mean something to it
    let own: Vec<(&str, &[&str], &[&str], u32, u32)> = vec![
        // name, arguments ("$" is the text), pieces, quick and thorough length
        ("table", &["$"], &["|", "a", "\n", "*", "-", " "], 7, 8),
        ("md", &["$"], &["*", "a", "\n", "[", "](", ")", "`", "> ", "- ", "<", "# ", "|"], 4, 5),
        ("word_wrap", &["$", "#0"], &["a", "é", " ", "\n", "\t"], 6, 8),
        ("word_wrap", &["$", "#1"], &["a", "é", " ", "\n", "\t"], 6, 8),
        ("word_wrap", &["$", "#3"], &["a", "é", " ", "\n", "\t"], 6, 8),
        ("from_base64", &["$"], &["A", "=", "/", "-", "é", "Q", "x"], 6, 7),
        ("r_json", &["$"], &["[", "]", "{", "}", ",", ":", "\"", "1", "-", ".", "e", "\\", "u", "é"], 4, 6),
        ("r_json", &["$"], &["\"", "\\u", "d8", "00", "dc", "\\", "0", "é"], 6, 7),
        ("r_card", &["$"], &["a", ":", "\n", ".", "$", "*", "1", " ", "@", "\""], 4, 6),
        ("parent", &["$"], &["a", "/", ".", "é", "\\"], 7, 8),
        ("bread_crumbs", &["$"], &["a", "/", ".", "é", "\\"], 7, 8),
        ("stem", &["$"], &["a", "/", ".", "é", "\\"], 7, 8),
        ("full_stem", &["$"], &["a", "/", ".", "é", "\\"], 7, 8),
        ("base_name", &["$"], &["a", "/", ".", "é", "\\"], 7, 8),
        ("with_ext", &["$", "b"], &["a", "/", ".", "é", "\\"], 7, 8),
        ("with_ext", &["a.b/c", "$"], &["a", "/", ".", "é", "\\"], 5, 7),
        ("join", &["$", "a"], &["a", "/", ".", "é", "\\"], 6, 7),
        ("join", &["a", "$"], &["a", "/", ".", "é", "\\"], 6, 7),
        ("regex", &["$", "aab1"], &["(", ")", "a", "*", "[", "]", "\\", "|", "{1,", "}", "?", "b"], 4, 4),
        ("regex", &["a|é", "$"], &["a", "é", " ", "b"], 6, 7),
        ("str_replace", &["$", "a", "b"], &["a", "b", "é", " "], 7, 8),
        ("str_replace", &["aab é", "$", "b"], &["a", "b", "é", " "], 5, 6),
        ("split", &["$", "ab"], &["a", "b", "é"], 8, 9),
        ("split", &["ab", "$"], &["a", "b", "é"], 8, 9),
        ("str_contains", &["$", "ab"], &["a", "b", "é"], 8, 9),
        ("html_esc", &["$"], &["<", "&", "\"", "'", "a", "é", ";"], 6, 7),
        ("xml_esc", &["$"], &["<", "&", "\"", "'", "a", "é", ";"], 6, 7),
        ("fl_stk", &["$"], &["#", "1", ".", "-", "a", " ", ","], 5, 6),
        ("font", &["$"], &["1", ".", "p", " ", "a", "-"], 5, 6),
        ("join_with", &["a", "$"], &["a", "/", ".", "é"], 5, 6),
        ("filter", &["L", "$"], &["gt ", "$0", ".a", "(", ")", " ", "1", "[", "]", "\"", "@", "-", "first "], 4, 5),
        ("sort_on", &["L", "$"], &["-", ".", "a", "0", "$", " ", "é"], 5, 7),
        ("bin_search", &["L", "#1", "$"], &["-", ".", "a", "0", "$", " "], 5, 6),
        ("bin_get", &["L", "#1", "$"], &["-", ".", "a", "0", "$", " "], 5, 6),
        ("slice", &["$", "#1", "#3"], &["a", "é", "漢", "🎉"], 6, 7),
        ("get", &["$", "#1"], &["a", "é", "漢", "🎉"], 6, 7),
        ("index_of", &["a", "$"], &["a", "é"], 8, 9),
    ];
    for (k, (n, args, ps, q, th)) in own.into_iter().enumerate() {
        if !names.iter().any(|x| x == n) {
            continue;
        }
        let l = t.pick(q, th);
        let g = of(&ps.iter().map(|s| s.to_string()).collect::<Vec<_>>()).seq(0, l);
        let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let recs = V::List(vec![V::map(&[("a", V::UInt(1))]), V::map(&[("a", V::s("x"))]), V::List(vec![V::UInt(2)]), V::UInt(1)]);
        r.push(Space::new(format!("text-{}-{}", n, k), format!("{}({}) with every text $ of up to {} of {} pieces", n, args.join(", "), l, ps.len()), g.n, move |i, cx| {
            let s = g.at(i).concat();
            let a: Vec<V> = args
                .iter()
                .map(|x| match x.as_str() {
                    "$" => V::s(&s),
                    "L" => recs.clone(),
                    x if x.starts_with('#') => V::UInt(x[1..].parse().unwrap()),
                    x => V::s(x),
                })
                .collect();
            call_total(cx, n, &a)
        }));
    }
    // cards: what the library makes of texts that are nearly right
    let cards = ["", ":", "a", "a:", "a:\n.k", "a:\n.k:", "a:\n.k:[", "a:\n.k:[x", "a:\n.k:{x", "a:\n.k:{x:", "a:\n.k:\"x", "-1 * a:", "99999999999999999999 * a:", "1 * :", "$a:", "@", "@def", "@def:", "@param", "@param :", "@const", "@const a", "@nothing a:", "a 1 2:", ".k:1", "a:\n.k*:1", "a:\n.k$:1", "a:\n.k$b*:1\n.k$b*:2", "a:\n.k:1\n.k:2", "a:\n.k*:1\n.k.:2", "a:\n.k:[1]\n.k:2", "a:\n.k:{b:1}\n.k:2", "a:\n.k.:1", "a:\n.k.*.*:1", "a:\n.k:99999999999999999999", "a:\n.k:$no", "#", "a:#c", "é:\n.é:é", "\u{0}"];
    let nc = cards.len() as u64;
    r.push(Space::new("cards", "40 card texts, most of them broken", nc, move |i, cx| call_total(cx, "r_card", &[V::s(cards[i as usize])])));
    // the special forms, by template
    let forms = ["run", "first", "select", "nosuch", "@", ""];
    let vv = vals.clone();
    let n = vals.len();
    let g = of(&forms[..4]).x(&of(&(0..n).collect::<Vec<_>>()).seq(0, t.pick(2, 3)));
    r.push(Space::new("forms", "run, first, select and an unknown name x every 0-2 (thorough 3) arguments", g.n, move |i, cx| {
        let (f, a) = g.at(i);
        let src = format!("{{{{{}{}}}}}", f, a.iter().map(|n| format!(" ${}", n)).collect::<String>());
        let got = real_src(&src, &vv, &cx.fm);
        cx.trace();
        cx.trans(1);
        cx.state(&(f, a.len(), matches!(got, Real::Ok(_))));
        if let Real::Panic(p) = got {
            return viol(format!("{} {:?}", f, a.iter().map(|n| vv[*n].canon()).collect::<Vec<_>>()), format!("panics: {}", p));
        }
        Ok(())
    }));
    // every statement over every kind
    let vv = vals.clone();
    let stm = [
        "{{if $0}}a{{/if}}", "{{if $1}}a{{elif $0}}b{{else}}c{{/if}}", "{{let x = $0}}{{$x}}", "{{export x = $0}}", "{{return $0}}", "{{switch $0}}{{case $1}}{{/switch}}", "{{switch $0}}{{case [a b]}}1{{case {a b}}}2{{case ?(gt @ $1)}}3{{case <z:5>}}4{{case _}}5{{/switch}}", "{{as $0 : [<a> ?(eq @ $1)]}}{{$a}}{{/as}}", "{{@cat $0 @ $1}}x{{/cat}}", "{{@$0}}{{/$0}}", "{{run $0 $1}}",
        "{{$0.a}}{{$0.0}}", "{{first $0.a.b $0.0.0 $1.a $1}}", "{{define f a}}{{$a}}{{/define}}{{run $f $0}}{{run $f}}", "{{@let x}}{{$0}}{{$1}}{{/let}}{{$x}}", "{{cat [$0 $1] {a:$0}}}",
    ];
    let ns = stm.len() as u64;
    let nv = vals.len() as u64;
    r.push(Space::new("statements", "16 statements of all sorts over every pair of values", ns * nv * nv, move |i, cx| {
        let mut d = Digits(i);
        let s = stm[d.take(ns) as usize];
        let p = [d.pick(&vv).clone(), d.pick(&vv).clone()];
        let got = real_src(s, &p, &cx.fm);
        cx.trace();
        cx.trans(1);
        if let Real::Panic(e) = &got {
            return viol(format!("{} with {}", s, V::List(p.to_vec()).canon()), format!("panics: {}", e));
        }
        if let Real::Ok(o) = &got {
            cx.nontrivial();
            cx.state(&outs(o));
        }
        Ok(())
    }));
    r
}
