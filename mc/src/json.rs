//! C21 data formats: json, cards, base64.
use crate::common::*;
use crate::ctl::{kinds, l};
use crate::engine::*;
use crate::gen::*;
use crate::mfun::{b64, from_json, unb64, w_json};
use crate::val::V;

/// json text in another spelling
#[derive(Clone, Copy)]
struct Sp {
    pad: &'static str,
    comma: &'static str,
    colon: &'static str,
    esc: u8, // 0 as it is, 1 \uXXXX for everything, 2 \/ and \uXXXX for control characters only
}
fn spell(v: &V, s: &Sp, o: &mut String) {
    match v {
        V::Str(x) => {
            o.push('"');
            for c in x.chars() {
                match (c, s.esc) {
                    (c, 1) => {
                        let mut b = [0u16; 2];
                        for u in c.encode_utf16(&mut b) {
                            o.push_str(&format!("\\u{:04X}", u));
                        }
                    }
                    ('/', 2) => o.push_str("\\/"),
                    ('"', _) => o.push_str("\\\""),
                    ('\\', _) => o.push_str("\\\\"),
                    ('\n', 0) => o.push_str("\\n"),
                    ('\t', 0) => o.push_str("\\t"),
                    ('\r', 0) => o.push_str("\\r"),
                    ('\u{8}', 0) => o.push_str("\\b"),
                    ('\u{c}', 0) => o.push_str("\\f"),
                    (c, _) if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    (c, _) => o.push(c),
                }
            }
            o.push('"');
        }
        V::List(x) => {
            o.push('[');
            o.push_str(s.pad);
            for (n, v) in x.iter().enumerate() {
                if n > 0 {
                    o.push_str(s.comma);
                }
                spell(v, s, o);
            }
            o.push_str(s.pad);
            o.push(']');
        }
        V::Map(x) => {
            o.push('{');
            o.push_str(s.pad);
            for (n, (k, v)) in x.iter().enumerate() {
                if n > 0 {
                    o.push_str(s.comma);
                }
                spell(&V::s(k), s, o);
                o.push_str(s.colon);
                spell(v, s, o);
            }
            o.push_str(s.pad);
            o.push('}');
        }
        v => o.push_str(&w_json(v)),
    }
}
fn spellings() -> Vec<Sp> {
    let mut r = vec![];
    for (pad, comma, colon) in [("", ",", ":"), (" ", ", ", ": "), ("\n\t", " ,\n", " :\t"), ("\r\n", ",\r\n ", ":\n")] {
        for esc in 0..3 {
            r.push(Sp { pad, comma, colon, esc });
        }
    }
    r
}
fn tree(leaf: &G<V>, wide: u32, keys: &[&str]) -> G<V> {
    let k: Vec<String> = keys.iter().map(|s| s.to_string()).collect();
    let ks = of(&k);
    alt(vec![leaf.clone(), leaf.seq(0, wide).map(V::List), ks.x(leaf).seq(0, wide).map(|e| V::Map(e.into_iter().collect()))])
}
fn leaves() -> Vec<V> {
    vec![V::Null, V::Bool(true), V::UInt(0), V::Int(-7), V::Float(0.5), V::s(""), V::s("é\"\\/\n"), V::Float(1e300), V::UInt(u64::MAX), V::Int(i64::MIN), V::s("🎉\u{1}")]
}
/// json text that denotes a value: read, it is the value
fn check_read(cx: &mut Ctx, text: &str, want: &V) -> Res {
    check_call_with(cx, "r_json", &[V::s(text)], Ok(want.clone()))
}
/// written, a value is valid json that denotes it; read back it is what json keeps of it
fn check_write(cx: &mut Ctx, v: &V) -> Res {
    let got = call_fn(&cx.fm, "w_json", &[v.clone()]);
    cx.trace();
    cx.trans(1);
    let key = key_call("w_json", &[v.clone()]);
    cx.sample(|| key.clone());
    let s = match &got {
        Real::Ok(V::Str(s)) => s.clone(),
        g => return viol(key, rv(g)),
    };
    cx.state(&s);
    let want = kept(v);
    match serde_json::from_str::<serde_json::Value>(&s) {
        Ok(j) if close(&from_json(&j), &want) => {}
        o => return viol(key, format!("{} denotes {:?}, not {}", s, o, want.canon())),
    }
    cx.nontrivial();
    check_read(cx, &s, &want)
}
/// what json keeps of a value
fn kept(v: &V) -> V {
    match v {
        V::Tmpl(_) => V::Null,
        V::Float(f) if !f.is_finite() => V::Null,
        V::Int(i) if *i >= 0 => V::UInt(*i as u64),
        V::Date(..) => V::Str(v.show()),
        V::Bytes(b) => V::List(b.iter().map(|x| V::UInt(*x as u64)).collect()),
        V::List(x) => V::List(x.iter().map(kept).collect()),
        V::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), kept(v))).collect()),
        v => v.clone(),
    }
}
/// the same but for the last digits of floats (serde_json as built here reads them inexactly)
fn close(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Float(x), V::Float(y)) => x.to_bits() == y.to_bits() || ((x - y) / y).abs() < 1e-13 || (y.abs() < 1e-300 && (x - y).abs() < 1e-306),
        (V::List(x), V::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && close(p, q)),
        _ => a.same(b),
    }
}
pub fn c21(t: Tier) -> Vec<Space> {
    let sp = spellings();
    let lv = of(&leaves());
    let d1 = tree(&lv, 2, &["a", "", "é\"k"]);
    let g = d1.x(&of(&sp));
    let mk = |name: &str, b: &str, g: G<(V, Sp)>| {
        Space::new(name, b, g.n, move |i, cx| {
            let (v, s) = g.at(i);
            let mut o = String::new();
            spell(&v, &s, &mut o);
            check_read(cx, &o, &v)
        })
    };
    let mut r = vec![mk("read", "every json value of depth 1 over 11 leaves in 12 spellings (white space, escapes)", g)];
    let few = of(&leaves()[2..t.pick(5, 7)]);
    let g = tree(&tree(&few, t.pick(1, 2), &["a", "b"]), 2, &["a", "b"]).x(&of(&[sp[0], sp[4], sp[8]]));
    r.push(mk("read-deep", "every json value of depth 2 over 3 (thorough 5) leaves in 3 spellings", g));
    let g = d1.clone();
    r.push(Space::new("write", "every value of depth 1: valid json that denotes it, and read back the same", g.n, move |i, cx| check_write(cx, &g.at(i))));
    let g = tree(&tree(&few, t.pick(1, 2), &["a", "b"]), 2, &["a", "b"]);
    r.push(Space::new("write-deep", "every value of depth 2", g.n, move |i, cx| check_write(cx, &g.at(i))));
    let k2 = kinds();
    let g = tree(&of(&k2), 1, &["k", "é"]);
    r.push(Space::new("write-kinds", "values of all kinds, alone, in a list, in a map: dates and templates, bytes, NaN as json can hold them", g.n, move |i, cx| check_write(cx, &g.at(i))));
    r.push(calls("write-args", "no argument is an empty list, several are a list", of(&kinds()).seq(0, 2).map(|a| ("w_json".to_string(), a))));
    // numbers
    let int = of(&["0", "7", "-1", "-0", "12", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615"]);
    let frac = of(&["", ".0", ".5", ".125", ".1", ".30000000000000004"]);
    let exp = of(&["", "e0", "E2", "e+3", "e-5", "E-20", "e100"]);
    let g = int.x(&frac).x(&exp).x(&of(&["{}", "[{}]", " {} ", "{\"k\":{}}", "[1,{},{}]"]));
    r.push(Space::new("numbers", "every number of 10 integers x 6 fractions x 7 exponents in 5 places: exact integers, nearest floats", g.n, move |i, cx| {
        let (((a, b), c), w) = g.at(i);
        let n = format!("{}{}{}", a, b, c);
        let text = w.replace("{}", &n);
        if n == "-0" {
            return Ok(()); // json has no integer minus zero
        }
        let f: f64 = n.parse().expect("number");
        if f.is_infinite() {
            return Ok(());
        }
        let v = match (n.parse::<u64>(), n.parse::<i64>()) {
            (Ok(u), _) => V::UInt(u),
            (_, Ok(i)) => V::Int(i),
            _ => V::Float(f),
        };
        let want = match w {
            "[{}]" => l(&[v]),
            "{\"k\":{}}" => V::map(&[("k", v)]),
            "[1,{},{}]" => l(&[V::UInt(1), v.clone(), v]),
            _ => v,
        };
        check_read(cx, &text, &want)
    }));
    let m = t.pick(300i64, 3000);
    r.push(Space::new("small-numbers", "every integer from -300 to 300 (thorough 3000), quarters and tenths: written and read", (2 * m as u64 + 1) * 4, move |i, cx| {
        let n = (i % (2 * m as u64 + 1)) as i64 - m;
        check_write(cx, &match i / (2 * m as u64 + 1) {
            0 => V::Int(n),
            1 if n >= 0 => V::UInt(n as u64),
            1 => return Ok(()),
            2 => V::Float(n as f64 / 4.0),
            _ => V::Float(n as f64 / 10.0 * 3.0),
        })
    }));
    r.push(Space::new("float-bits", "floats with every exponent and 6 mantissas, both signs", 2046 * 6 * 2, move |i, cx| {
        let mut d = Digits(i);
        let e = d.take(2046);
        let m = [0u64, 1, (1 << 52) - 1, 0x5555555555555, 0x8000000000000, 0x123456789abcd][d.take(6) as usize];
        let s = d.take(2);
        check_write(cx, &V::Float(f64::from_bits(s << 63 | e << 52 | m)))
    }));
    // strings
    let chars: Vec<char> = (0u32..0x800).filter_map(char::from_u32).chain("\u{2028}\u{2029}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{10ffff}漢🎉".chars()).collect();
    let g = of(&chars).x(&of(&[0u8, 1, 2]));
    r.push(Space::new("chars", "every character up to U+07FF and 9 others as value and as key, escaped and not; written and read", g.n, move |i, cx| {
        let (c, e) = g.at(i);
        let v = V::map(&[(&c.to_string(), V::Str(format!("{}x{}", c, c)))]);
        let mut o = String::new();
        spell(&v, &Sp { pad: "", comma: ",", colon: ":", esc: e }, &mut o);
        check_read(cx, &o, &v)?;
        check_write(cx, &v)
    }));
    let es = ["\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\ud83c\\udf89", "a", "é", "{{", "'"];
    let g = of(&es).seq(0, t.pick(4, 5));
    r.push(Space::new("escapes", "every string of up to 4 (thorough 5) of 15 escapes and characters", g.n, move |i, cx| {
        let s = format!("\"{}\"", g.at(i).concat());
        let v: String = serde_json::from_str(&s).expect("json string");
        check_read(cx, &s, &V::Str(v))
    }));
    // what is no json: cut short, followed by something, unbalanced
    let docs = ["[1,2]", "{\"a\":1}", "\"abc\"", "[[],{\"k\":[\"x\",null]}]", "{\"a\":{\"b\":[true,false]},\"c\":\"d\"}", "[\"\\u0041\\n\"]", "[-1.5e3,{}]"];
    let cuts: Vec<(usize, usize)> = docs.iter().enumerate().flat_map(|(n, d)| (0..d.len()).map(move |k| (n, k))).collect();
    let nc = cuts.len() as u64;
    r.push(Space::new("cut", "7 documents cut at every byte are errors", nc, move |i, cx| {
        let (n, k) = cuts[i as usize];
        check_call_with(cx, "r_json", &[V::s(&docs[n][..k])], Err("cut".into()))
    }));
    let after = ["x", "]", "}", ",", "1", "\"", "[", " 2", "\n{}", "//"];
    let g = of(&docs).x(&of(&after)).x(&of(&["", " ", "\n"])).x(&of(&[true, false]));
    r.push(Space::new("garbage", "7 documents followed or preceded by 10 kinds of other text are errors", g.n, move |i, cx| {
        let (((d, a), p), end) = g.at(i);
        let s = if end { format!("{}{}{}", d, p, a) } else { format!("{}{}{}", a, p, d) };
        if serde_json::from_str::<serde_json::Value>(&s).is_ok() {
            return Ok(());
        }
        check_call_with(cx, "r_json", &[V::Str(s)], Err("garbage".into()))
    }));
    let toks = ["[", "]", "{", "}", ",", ":", "\"k\"", "1", "null", " "];
    let g = of(&toks).seq(1, t.pick(5, 7));
    r.push(Space::new("tokens", "every sequence of up to 5 (thorough 7) of 10 tokens: json is read, what is unbalanced is an error", g.n, move |i, cx| {
        let s = g.at(i).concat();
        match serde_json::from_str::<serde_json::Value>(&s) {
            Ok(j) => check_read(cx, &s, &from_json(&j)),
            Err(_) => {
                let n = |c: char| s.matches(c).count();
                if n('[') != n(']') || n('{') != n('}') || s.trim().is_empty() {
                    return check_call_with(cx, "r_json", &[V::Str(s)], Err("unbalanced".into()));
                }
                Ok(())
            }
        }
    }));
    r.push(Space::new("arguments", "r_json, r_card, base64 of none, of other kinds", 4 * (kinds().len() as u64 + 1), move |i, cx| {
        let f = ["r_json", "r_card", "as_base64", "from_base64"][(i % 4) as usize];
        let k = (i / 4) as usize;
        let a: Vec<V> = if k == 0 { vec![] } else { vec![kinds()[k - 1].clone()] };
        if f == "r_card" {
            let want = match a.first() {
                Some(V::Str(s)) => cards(s),
                _ => Err("no string".into()),
            };
            return check_call_with(cx, f, &a, want);
        }
        if let ("r_json", Some(V::Str(s))) = (f, a.first()) {
            if serde_json::from_str::<serde_json::Value>(s).is_err() {
                return Ok(()); // a literal of templito that is no json
            }
        }
        check_call(cx, f, &a)
    }));
    // nested and long
    let top = t.pick(40u64, 100);
    r.push(Space::new("ladder", "lists, maps and alternations nested n deep; n members, n keys, n characters; n up to 40 (thorough 100)", (top + 1) * 6, move |i, cx| {
        let n = i % (top + 1);
        let v = match i / (top + 1) {
            0 => (0..n).fold(V::UInt(1), |v, _| l(&[v])),
            1 => (0..n).fold(V::Null, |v, k| V::map(&[(&format!("k{}", k), v)])),
            2 => (0..n).fold(V::s("é"), |v, k| if k % 2 == 0 { l(&[V::UInt(k), v]) } else { V::map(&[("x", v), ("y", V::Bool(true))]) }),
            3 => V::List((0..n * 3).map(V::UInt).collect()),
            4 => V::Map((0..n * 3).map(|k| (format!("key {}", k), V::Int(-(k as i64)))).collect()),
            _ => V::Str("aé\"\n".repeat(n as usize * 8)),
        };
        check_write(cx, &v)?;
        for s in spellings().iter().step_by(4) {
            let mut o = String::new();
            spell(&v, s, &mut o);
            check_read(cx, &o, &kept(&v))?;
        }
        Ok(())
    }));
    let g = d1.clone();
    r.push(Space::new("templates", "written and read in a template", g.n, move |i, cx| {
        let v = g.at(i);
        let got = real_src("{{let s=w_json $0}}{{export v=r_json $s}}{{export eq=eq $0 (r_json $s)}}{{export n = (len (w_json $0 $0))}}", &[v.clone()], &cx.fm);
        cx.trace();
        cx.trans(1);
        let want = kept(&v);
        match &got {
            Real::Ok(o) if o.1.get("v").map_or(false, |x| x.same(&want)) && o.1.get("eq").map_or(false, |x| x.same(&V::Bool(true))) => Ok(()),
            g => viol(format!("r_json of w_json of {}", v.canon()), format!("{:?}", g)),
        }
    }));
    // base64
    r.push(Space::new("base64", "every sequence of 0-2 bytes, and 3 bytes with the middle fixed to 4 values: encoded, decoded again", 1 + 256 + 65536 + 4 * t.pick(4096, 65536), move |i, cx| {
        let b: Vec<u8> = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            257..=65792 => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
            _ => {
                let k = i - 65793;
                let step = t.pick(16u64, 1);
                let (m, r) = (k % 4, k / 4 * step);
                vec![(r >> 8) as u8, [0, 255, 0x5a, 0x0f][m as usize], r as u8]
            }
        };
        let e = b64(&b);
        check_call_with(cx, "as_base64", &[V::Bytes(b.clone())], Ok(V::Str(e.clone())))?;
        check_call_with(cx, "from_base64", &[V::Str(e)], Ok(V::Bytes(b)))
    }));
    let al: Vec<String> = ["A", "Q", "/", "+", "9", "=", "-", "é", " "].iter().map(|s| s.to_string()).collect();
    let g = of(&al).seq(0, t.pick(5, 6));
    r.push(Space::new("decode", "every text of up to 5 (thorough 6) of 9 pieces, as string and as bytes: decoded or an error", g.n, move |i, cx| {
        let s = g.at(i).concat();
        if let Ok(b) = unb64(s.as_bytes()) {
            check_call_with(cx, "from_base64", &[V::s(&s)], Ok(V::Bytes(b.clone())))?;
            return check_call_with(cx, "from_base64", &[V::Bytes(s.into_bytes())], Ok(V::Bytes(b)));
        }
        // not whole: an error, or - where only padding lacks - the bytes it would encode
        for a in [V::s(&s), V::Bytes(s.clone().into_bytes())] {
            let got = call_fn(&cx.fm, "from_base64", &[a.clone()]);
            cx.trace();
            cx.trans(1);
            let ok = match &got {
                Real::Err(_) => true,
                Real::Ok(V::Bytes(b)) => b64(b).trim_end_matches('=') == s.trim_end_matches('='),
                _ => false,
            };
            if !ok {
                return viol(key_call("from_base64", &[a]), format!("is no base64, but gives {}", rv(&got)));
            }
        }
        Ok(())
    }));
    let g = of(&al).seq(7, 8).n;
    let _ = g;
    let top = t.pick(300u64, 2000);
    r.push(Space::new("base64-long", "n bytes in 3 patterns, n up to 300 (thorough 2000); strings as their bytes", (top + 1) * 4, move |i, cx| {
        let n = (i % (top + 1)) as usize;
        let v = match i / (top + 1) {
            0 => V::Bytes(vec![255; n]),
            1 => V::Bytes((0..n).map(|k| (k * 7) as u8).collect()),
            2 => V::Bytes(vec![0; n]),
            _ => V::Str("é漢a".repeat(n / 6 + 1)),
        };
        let b = match &v {
            V::Bytes(b) => b.clone(),
            V::Str(s) => s.as_bytes().to_vec(),
            _ => unreachable!(),
        };
        check_call_with(cx, "as_base64", &[v], Ok(V::Str(b64(&b))))?;
        check_call_with(cx, "from_base64", &[V::Str(b64(&b))], Ok(V::Bytes(b)))
    }));
    // cards
    let lines = ["a:", "3 * b:", "\"c d\":", ".k:v", ".k:7", ".l:[x,2,\"é\"]", ".m:{p:1,q:[r]}", ".l*:z", ".g$s:t", "@def :", "@param k l", "e v1 5:", "@const w:9", "bad line [", "", "\t.Name:n"];
    let g = of(&lines).seq(0, t.pick(4, 5));
    r.push(Space::new("cards", "every text of up to 4 (thorough 5) of 16 card lines: the cards the card library reads, with all their data", g.n, move |i, cx| {
        let s = g.at(i).join("\n");
        // a property set twice, first to a list, is too much for the library (a known finding of C13)
        let want = match real(|| Ok::<_, String>(cards(&s))) {
            Real::Ok(w) => w,
            _ => return Ok(()),
        };
        check_call_with(cx, "r_card", &[V::Str(s)], want)
    }));
    // cards whose meaning is known without the library
    let ds: Vec<(&str, V)> = vec![("v", V::s("v")), ("7", V::Int(7)), ("[x,2]", l(&[V::s("x"), V::Int(2)])), ("{p:1,q:r}", V::map(&[("p", V::Int(1)), ("q", V::s("r"))])), ("\"two words\"", V::s("two words")), ("[[a],[]]", l(&[l(&[V::s("a")]), l(&[])]))];
    let n = ds.len();
    let g = of(&[("nm", "nm", 1u64), ("4 * nm", "nm", 4), ("\"é x\"", "é x", 1)]).x(&of(&(0..n).collect::<Vec<_>>()).seq(0, 3)).seq(0, t.pick(1, 2));
    r.push(Space::new("cards-known", "every 0-1 (thorough 2) cards with up to 3 properties of 6 values: name, number and data by hand", g.n, move |i, cx| {
        let mut s = String::new();
        let mut want = vec![];
        for ((src, name, num), ps) in g.at(i) {
            s.push_str(&format!("{}:\n", src));
            let mut m = std::collections::BTreeMap::new();
            for (k, p) in ps.iter().enumerate() {
                s.push_str(&format!(".p{}:{}\n", k, ds[*p].0));
                m.insert(format!("p{}", k), ds[*p].1.clone());
            }
            m.insert("Name".into(), V::s(name));
            m.insert("Num".into(), V::UInt(num));
            want.push(V::Map(m));
        }
        check_call_with(cx, "r_card", &[V::Str(s)], Ok(V::List(want)))
    }));
    let g = crate::chars::chars_g().x(&of(&["{}", "a{}", "{}b", "\\\\{}", "{}\\n"])).x(&of(&[0usize, 1, 2]));
    r.push(Space::new("every-escape", "a backslash before every ASCII character and 40 others, in 5 places of a text or key, in a list: what it stands for, or an error", g.n, move |i, cx| {
        let ((c, x), how) = g.at(i);
        if c == 'u' || c < ' ' {
            return Ok(());
        }
        let s = format!("\"{}\"", x.replace("{}", &format!("\\{}", c)));
        let s = match how {
            0 => s,
            1 => format!("[{}, 1]", s),
            _ => format!("{{{}: {}}}", s, s),
        };
        match serde_json::from_str::<serde_json::Value>(&s) {
            Ok(j) => check_read(cx, &s, &from_json(&j)),
            Err(_) => check_call_with(cx, "r_json", &[V::s(&s)], Err("no json".into())),
        }
    }));
    r
}
fn cdata(c: &card_format::CData) -> V {
    use card_format::CData as C;
    match c {
        C::S(s) => V::s(s),
        C::N(n) => V::Int(*n as i64),
        C::L(x) => V::List(x.iter().map(cdata).collect()),
        C::M(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), cdata(v))).collect()),
    }
}
fn cards(s: &str) -> Result<V, String> {
    card_format::parse_cards(s).map_err(|e| e.to_string()).map(|cs| {
        V::List(
            cs.iter()
                .map(|c| {
                    let mut m: std::collections::BTreeMap<String, V> = c.data.iter().map(|(k, v)| (k.clone(), cdata(v))).collect();
                    m.insert("Name".into(), V::s(&c.name));
                    m.insert("Num".into(), V::UInt(c.num as u64));
                    V::Map(m)
                })
                .collect(),
        )
    })
}
