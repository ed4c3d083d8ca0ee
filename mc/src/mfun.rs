//! Reference meaning of every function of the default function manager.
use crate::ast::{path, E, P};
use crate::interp::{Scope, World, R};
use crate::val::{self, V};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

pub const NAMES: &[&str] = &[
    "eq", "neq", "eq_any", "gt", "gte", "lt", "lte", "and", "nand", "or", "nor", "type_of", "is_null", "is_num", "cat", "md", "table", "split",
    "string_from_ints", "str_contains", "str_replace", "str_replace_n", "html_esc", "regex", "word_wrap", "debug", "add", "sub", "mul", "div", "mod",
    "min", "max", "parent", "join", "bread_crumbs", "base_name", "base_name_sure", "join_with", "with_ext", "stem", "full_stem", "list", "sort",
    "append", "sort_on", "bin_search", "bin_get", "index_of", "get", "filter", "len", "slice", "groups", "map", "r_json", "r_card", "w_json", "rand",
    "as_base64", "from_base64", "xy", "xywh", "cxyrr", "xy12", "fl_stk", "xml_esc", "font",
];
pub fn exists(n: &str) -> bool {
    NAMES.contains(&n)
}
thread_local! {
    pub static FILTERS: RefCell<HashMap<String, E>> = RefCell::new(HashMap::new());
}
/// tell the model what expression a filter source denotes
pub fn know_filter(e: &E) -> String {
    let s = crate::ast::expr_src(e);
    FILTERS.with(|f| f.borrow_mut().insert(s.clone(), e.clone()));
    s
}

fn err<T>(s: &str) -> R<T> {
    Err(s.to_string())
}
fn all(a: &[V], f: impl Fn(&V, &V) -> bool) -> R<V> {
    if a.is_empty() {
        return err("no args");
    }
    Ok(V::Bool(a[1..].iter().all(|x| f(&a[0], x))))
}
fn truthy(v: &V) -> bool {
    v.truth() == Some(true)
}
pub fn int_res(n: Option<i128>) -> R<V> {
    match n {
        Some(n) if n >= i64::MIN as i128 && n <= i64::MAX as i128 => Ok(V::Int(n as i64)),
        Some(n) if n >= 0 && n <= u64::MAX as i128 => Ok(V::UInt(n as u64)),
        _ => err("integer range"),
    }
}
fn big(v: &V) -> Option<i128> {
    match v {
        V::Int(i) => Some(*i as i128),
        V::UInt(u) => Some(*u as i128),
        _ => None,
    }
}
pub fn flt(v: &V) -> Option<f64> {
    match v {
        V::Int(i) => Some(*i as f64),
        V::UInt(u) => Some(*u as f64),
        V::Float(f) => Some(*f),
        _ => None,
    }
}
/// binary arithmetic: unsigned stays unsigned unless the result is negative, any float makes a float
pub fn arith(op: &str, a: &V, b: &V) -> R<V> {
    if let (Some(x), Some(y)) = (big(a), big(b)) {
        let r = match op {
            "add" => x.checked_add(y),
            "sub" => x.checked_sub(y),
            "mul" => x.checked_mul(y),
            "div" if y != 0 => Some(x / y),
            "mod" if y != 0 => Some(x % y),
            "min" => Some(x.min(y)),
            "max" => Some(x.max(y)),
            _ => None,
        };
        if let (V::UInt(_), V::UInt(_)) = (a, b) {
            return match r {
                Some(r) if r >= 0 && r <= u64::MAX as i128 => Ok(V::UInt(r as u64)),
                Some(r) if r < 0 => int_res(Some(r)),
                _ => err("uint range"),
            };
        }
        return int_res(r);
    }
    match (flt(a), flt(b)) {
        (Some(x), Some(y)) => Ok(V::Float(match op {
            "add" => x + y,
            "sub" => x - y,
            "mul" => x * y,
            "div" => x / y,
            "mod" => x % y,
            "min" => x.min(y),
            "max" => x.max(y),
            _ => unreachable!(),
        })),
        _ => err("not numbers"),
    }
}
fn fold(op: &str, a: &[V]) -> R<V> {
    if a.is_empty() {
        return err("no args");
    }
    let mut r = a[0].clone();
    for x in &a[1..] {
        r = arith(op, &r, x)?;
    }
    Ok(r)
}
pub fn esc(s: &str, apos: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str(apos),
            c => o.push(c),
        }
    }
    o
}

// ---- paths, on text: components of a unix path
#[derive(Clone, Debug, PartialEq)]
pub enum Comp {
    Root,
    Cur,
    Up,
    Name(String),
}
pub fn comps(p: &str) -> Vec<Comp> {
    let mut r = vec![];
    if p.starts_with('/') {
        r.push(Comp::Root);
    }
    for (n, c) in p.split('/').enumerate() {
        match c {
            "" => {}
            "." => {
                // only a leading dot counts
                if n == 0 {
                    r.push(Comp::Cur)
                }
            }
            ".." => r.push(Comp::Up),
            c => r.push(Comp::Name(c.into())),
        }
    }
    r
}
pub fn join(a: &[V]) -> String {
    let mut r = String::new();
    for v in a {
        let s = v.show();
        if s.starts_with('/') {
            r = s;
        } else {
            if !r.is_empty() && !r.ends_with('/') {
                r.push('/');
            }
            r.push_str(&s);
        }
    }
    r
}
/// byte length of the path text without its last component (None: no parent)
pub fn parent(p: &str) -> Option<String> {
    let c = comps(p);
    match c.last() {
        None | Some(Comp::Root) => return None,
        _ => {}
    }
    // cut the last component from the text, then separators and redundant dots before it
    let mut t = p;
    loop {
        t = t.trim_end_matches('/');
        if let Some(x) = t.strip_suffix("/.") {
            t = x;
            continue;
        }
        break;
    }
    let cut = t.rfind('/').map_or(0, |n| n + 1);
    let mut t = &t[..cut];
    loop {
        let x = t.trim_end_matches('/');
        if x.is_empty() {
            return Some(if p.starts_with('/') { "/".into() } else { "".into() });
        }
        if let Some(y) = x.strip_suffix("/.") {
            t = y;
            if t.is_empty() {
                return Some("/".into());
            }
            continue;
        }
        return Some(x.into());
    }
}
pub fn file_name(p: &str) -> Option<String> {
    match comps(p).last() {
        Some(Comp::Name(n)) => Some(n.clone()),
        _ => None,
    }
}
pub fn stem(name: &str) -> &str {
    match name.rfind('.') {
        Some(0) | None => name,
        Some(n) => &name[..n],
    }
}
fn with_file_name(p: &str, n: &str) -> String {
    let base = parent(p).unwrap_or_default();
    join(&[V::Str(base), V::s(n)])
}

/// sort criteria: "-" for descending, then a path
pub fn criterion(s: &str) -> R<(bool, Vec<P>)> {
    let (down, rest) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    Ok((down, path(rest)))
}
pub fn crit_cmp(cs: &[(bool, Vec<P>)], a: &V, b: &V) -> Ordering {
    for (down, p) in cs {
        let o = match (a.at(p), b.at(p)) {
            (Some(x), Some(y)) => val::ord(x, y),
            (Some(_), None) => Ordering::Greater,
            (None, Some(_)) => Ordering::Less,
            (None, None) => val::ord(a, b),
        };
        let o = if *down { o.reverse() } else { o };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
/// stable insertion sort: the definition of a stable sort
pub fn stable_sort(v: &mut Vec<V>, f: impl Fn(&V, &V) -> Ordering) {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && f(&v[j - 1], &v[j]) == Ordering::Greater {
            v.swap(j - 1, j);
            j -= 1;
        }
    }
}
pub fn from_json(j: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::String(s) => V::s(s),
        J::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(u), _) => V::UInt(u),
            (_, Some(i)) => V::Int(i),
            _ => V::Float(n.as_f64().unwrap()),
        },
        J::Array(a) => V::List(a.iter().map(from_json).collect()),
        J::Object(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}
pub fn w_json(v: &V) -> String {
    match v {
        V::Null | V::Tmpl(_) => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::UInt(u) => u.to_string(),
        V::Float(f) if f.is_finite() => serde_json::to_string(f).unwrap(),
        V::Float(_) => "null".into(),
        V::Str(s) => json_str(s),
        V::Date(..) => json_str(&v.show()),
        V::Bytes(b) => format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        V::List(l) => format!("[{}]", l.iter().map(w_json).collect::<Vec<_>>().join(",")),
        V::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", json_str(k), w_json(v))).collect::<Vec<_>>().join(",")),
    }
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(B64[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// strict decoding: whole groups, padding only at the end, unused bits zero
pub fn unb64(s: &[u8]) -> R<Vec<u8>> {
    if s.len() % 4 != 0 {
        return err("length");
    }
    let mut o = vec![];
    let groups = s.len() / 4;
    for (g, c) in s.chunks(4).enumerate() {
        let pad = c.iter().rev().take_while(|x| **x == b'=').count();
        if pad > 2 || (pad > 0 && g + 1 != groups) {
            return err("padding");
        }
        let mut n = 0u32;
        for x in &c[..4 - pad] {
            let p = B64.iter().position(|y| y == x).ok_or("char")?;
            n = n << 6 | p as u32;
        }
        n <<= 6 * pad;
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if b[3 - pad..].iter().any(|x| *x != 0) {
            return err("trailing bits");
        }
        o.extend_from_slice(&b[..3 - pad]);
    }
    Ok(o)
}

pub fn call(name: &str, a: &[V]) -> R<V> {
    let need = |n: usize| if a.len() < n { err("missing args") } else { Ok(()) };
    let show = |n: usize| a.get(n).map(|v| v.show());
    match name {
        "eq" => all(a, |x, y| x.eq(y)),
        "neq" => all(a, |x, y| !x.eq(y)),
        "eq_any" => {
            need(1)?;
            Ok(V::Bool(a[1..].iter().any(|x| x.eq(&a[0]))))
        }
        "gt" => all(a, |x, y| val::cmp(x, y) == Some(Ordering::Greater)),
        "lt" => all(a, |x, y| val::cmp(x, y) == Some(Ordering::Less)),
        "gte" => all(a, |x, y| matches!(val::cmp(x, y), Some(Ordering::Greater | Ordering::Equal))),
        "lte" => all(a, |x, y| matches!(val::cmp(x, y), Some(Ordering::Less | Ordering::Equal))),
        "and" => Ok(V::Bool(a.iter().all(truthy))),
        "nand" => Ok(V::Bool(!a.iter().all(truthy))),
        "or" => Ok(V::Bool(a.iter().any(truthy))),
        "nor" => Ok(V::Bool(!a.iter().any(truthy))),
        "type_of" => {
            need(1)?;
            match a.get(1) {
                Some(t) => Ok(V::Bool(t.show() == a[0].type_name())),
                None => Ok(V::s(a[0].type_name())),
            }
        }
        "is_null" => {
            need(1)?;
            Ok(V::Bool(matches!(a[0], V::Null)))
        }
        "is_num" => {
            need(1)?;
            Ok(V::Bool(a[0].is_num()))
        }
        "cat" => Ok(V::Str(a.iter().map(|v| v.show()).collect())),
        "md" => {
            let mut o = String::new();
            for v in a {
                let s = v.show();
                pulldown_cmark::html::push_html(&mut o, pulldown_cmark::Parser::new_ext(&s, pulldown_cmark::Options::all()));
            }
            Ok(V::Str(o))
        }
        "split" => {
            need(1)?;
            let sep = match a.get(1) {
                Some(V::Str(s)) => s.as_str(),
                _ => "\n",
            };
            match &a[0] {
                V::Str(s) => Ok(V::List(split(s, sep).into_iter().map(V::Str).collect())),
                _ => err("not a string"),
            }
        }
        "string_from_ints" => Ok(V::Str(a.iter().filter_map(|v| char::from_u32(u32::try_from(v.as_usize()?).ok()?)).collect())),
        "str_contains" => {
            need(2)?;
            let s = a[0].show();
            Ok(V::Bool(a[1..].iter().any(|x| find(&s, &x.show(), 0).is_some())))
        }
        "str_replace" => {
            need(3)?;
            Ok(V::Str(replace(&a[0].show(), &a[1].show(), &a[2].show(), usize::MAX)))
        }
        "str_replace_n" => {
            need(3)?;
            let n = a.get(3).and_then(|v| v.as_usize()).unwrap_or(1);
            Ok(V::Str(replace(&a[0].show(), &a[1].show(), &a[2].show(), n as usize)))
        }
        "html_esc" => Ok(V::Str(a.iter().map(|v| esc(&v.show(), "&#39;")).collect())),
        "xml_esc" => Ok(V::Str(a.iter().map(|v| esc(&v.show(), "&apos;")).collect())),
        "regex" => {
            need(2)?;
            let r = regex::Regex::new(&a[1].show()).map_err(|e| e.to_string())?;
            Ok(V::Bool(r.is_match(&a[0].show())))
        }
        "debug" => Ok(V::s("")),
        "sub" if a.len() == 1 => match &a[0] {
            V::Float(f) => Ok(V::Float(-f)),
            v => match big(v) {
                Some(n) => int_res(Some(-n)),
                None => err("not a number"),
            },
        },
        "add" | "sub" | "mul" | "div" | "mod" | "min" | "max" => fold(name, a),
        "join" => Ok(V::Str(join(a))),
        "parent" => Ok(V::Str(parent(&join(a)).unwrap_or_default())),
        "bread_crumbs" => {
            let mut r = vec![];
            let mut p = Some(join(a));
            while let Some(x) = p {
                p = parent(&x);
                r.insert(0, V::Str(x));
            }
            Ok(V::List(r))
        }
        "base_name" => file_name(&join(a)).map(V::Str).ok_or("no name".into()),
        "base_name_sure" => Ok(V::Str(file_name(&join(a)).unwrap_or_default())),
        "join_with" => {
            need(2)?;
            match &a[1] {
                V::List(l) => Ok(V::Str(l.iter().map(|v| v.show()).collect::<Vec<_>>().join(&a[0].show()))),
                _ => err("not a list"),
            }
        }
        "with_ext" => {
            need(2)?;
            if a[1].show().contains('/') {
                return err("extension with a separator");
            }
            let p = a[0].show();
            match file_name(&p) {
                None => Ok(V::Str(p)),
                Some(n) => {
                    let e = a[1].show();
                    let mut m = stem(&n).to_string();
                    if !e.is_empty() {
                        m.push('.');
                        m.push_str(&e);
                    }
                    // what precedes the file name is kept as it is written
                    let t = p.trim_end_matches(|c| c == '/' );
                    let t = strip_dots(t);
                    Ok(V::Str(format!("{}{}", &t[..t.len() - n.len()], m)))
                }
            }
        }
        "stem" => file_name(&join(a)).map(|n| V::s(stem(&n))).ok_or("no name".into()),
        "full_stem" => {
            let p = join(a);
            match file_name(&p) {
                None => err("no name"),
                Some(n) => Ok(V::Str(with_file_name(&p, stem(&n)))),
            }
        }
        "list" => Ok(V::List(a.to_vec())),
        "len" => Ok(V::UInt(
            a.iter()
                .map(|v| match v {
                    V::List(l) => l.len() as u64,
                    V::Map(m) => m.len() as u64,
                    V::Str(s) => s.len() as u64,
                    _ => 1,
                })
                .sum(),
        )),
        "slice" => {
            let st = match a.get(1).and_then(|v| v.as_usize()) {
                Some(n) => n,
                None => return err("no start"),
            };
            let end = a.get(2).and_then(|v| v.as_usize());
            let (len, isstr) = match &a[0] {
                V::List(l) => (l.len() as u64, false),
                V::Str(s) => (s.len() as u64, true),
                _ => return err("no list"),
            };
            let e = end.unwrap_or(len);
            if st > e || e > len {
                return err("range");
            }
            let (st, e) = (st as usize, e as usize);
            match &a[0] {
                V::List(l) => Ok(V::List(l[st..e].to_vec())),
                V::Str(s) if isstr && s.is_char_boundary(st) && s.is_char_boundary(e) => Ok(V::s(&s[st..e])),
                _ => err("char boundary"),
            }
        }
        "index_of" => {
            need(2)?;
            match &a[1] {
                V::List(l) => Ok(l.iter().position(|v| v.eq(&a[0])).map_or(V::Null, |n| V::UInt(n as u64))),
                _ => Ok(V::Null),
            }
        }
        "sort" => {
            let mut r: Vec<V> = a.iter().flat_map(|v| if let V::List(l) = v { l.clone() } else { vec![] }).collect();
            stable_sort(&mut r, val::ord);
            Ok(V::List(r))
        }
        "sort_on" => {
            need(2)?;
            let cs = crits(&a[1..])?;
            match &a[0] {
                V::List(l) => {
                    let mut l = l.clone();
                    stable_sort(&mut l, |x, y| crit_cmp(&cs, x, y));
                    Ok(V::List(l))
                }
                _ => err("no list"),
            }
        }
        "get" => {
            if a.len() != 2 {
                return err("two args");
            }
            match (&a[0], &a[1]) {
                (V::List(l), V::UInt(n)) => Ok(l.get(*n as usize).cloned().unwrap_or(V::Null)),
                (V::List(l), V::Int(n)) => Ok(if *n < 0 { V::Null } else { l.get(*n as usize).cloned().unwrap_or(V::Null) }),
                (V::Str(s), n) if matches!(n, V::UInt(_) | V::Int(_)) => {
                    let c = n.as_usize().and_then(|n| s.get(n as usize..)).and_then(|s| s.chars().next());
                    c.map(|c| V::Str(c.to_string())).ok_or("no char".into())
                }
                (V::Map(m), V::Str(k)) => Ok(m.get(k).cloned().unwrap_or(V::Null)),
                _ => err("get"),
            }
        }
        "filter" => {
            need(2)?;
            let src = a[1].show();
            let e = FILTERS.with(|f| f.borrow().get(&src).cloned()).unwrap_or_else(|| panic!("unknown filter {}", src));
            match &a[0] {
                V::List(l) => {
                    let mut r = vec![];
                    for v in l {
                        let mut w = World { globals: None, ..Default::default() };
                        let p = [v.clone()];
                        if let Ok(x) = w.eval(&e, &Scope::new(&p, &[])) {
                            if truthy(&x) {
                                r.push(v.clone());
                            }
                        }
                    }
                    Ok(V::List(r))
                }
                _ => err("no list"),
            }
        }
        "groups" => {
            let n = a.first().and_then(|v| v.as_usize()).ok_or("no size")?.max(1);
            match a.get(1) {
                Some(V::List(l)) => {
                    let mut r: Vec<V> = vec![];
                    let mut cur = vec![];
                    for v in l {
                        cur.push(v.clone());
                        if cur.len() as u64 == n {
                            r.push(V::List(std::mem::take(&mut cur)));
                        }
                    }
                    if !cur.is_empty() {
                        r.push(V::List(cur));
                    }
                    Ok(V::List(r))
                }
                _ => err("no list"),
            }
        }
        "append" => Ok(V::List(a.iter().flat_map(|v| if let V::List(l) = v { l.clone() } else { vec![v.clone()] }).collect())),
        "map" => {
            let mut m = BTreeMap::new();
            for p in a.chunks(2) {
                if let [k, v] = p {
                    match k {
                        V::Str(s) => m.insert(s.clone(), v.clone()),
                        _ => return err("key"),
                    };
                }
            }
            Ok(V::Map(m))
        }
        "r_json" => match a.first() {
            Some(V::Str(s)) => serde_json::from_str::<serde_json::Value>(s).map(|j| from_json(&j)).map_err(|e| e.to_string()),
            _ => err("no string"),
        },
        "w_json" => Ok(V::Str(match a.len() {
            0 => "[]".into(),
            1 => w_json(&a[0]),
            _ => format!("[{}]", a.iter().map(w_json).collect::<Vec<_>>().join(",")),
        })),
        "as_base64" => match a.first() {
            Some(V::Str(s)) => Ok(V::Str(b64(s.as_bytes()))),
            Some(V::Bytes(b)) => Ok(V::Str(b64(b))),
            _ => err("as_base64"),
        },
        "from_base64" => match a.first() {
            Some(V::Str(s)) => Ok(V::Bytes(unb64(s.as_bytes())?)),
            Some(V::Bytes(b)) => Ok(V::Bytes(unb64(b)?)),
            _ => err("from_base64"),
        },
        "xy" => attrs(a, &["x", "y"], 2),
        "xywh" => attrs(a, &["x", "y", "width", "height"], 4),
        "cxyrr" => attrs(a, &["cx", "cy", "rx", "ry"], 4),
        "xy12" => attrs(a, &["x", "y", "x2", "y2"], 4),
        "fl_stk" => {
            need(3)?;
            Ok(V::Str(format!("fill=\"{}\" stroke=\"{}\" stroke-width=\"{}{}\"", a[0].show(), a[1].show(), a[2].show(), show(3).unwrap_or_default())))
        }
        "font" => {
            need(1)?;
            let fam = show(1).map_or(String::new(), |f| format!("font-family=\"{}\" ", f));
            Ok(V::Str(format!("font-size=\"{}{}\" {}", a[0].show(), show(2).unwrap_or_default(), fam)))
        }
        _ => panic!("no model for {}", name),
    }
}
fn strip_dots(mut t: &str) -> &str {
    loop {
        t = t.trim_end_matches('/');
        match t.strip_suffix("/.") {
            Some(x) => t = x,
            None => return t,
        }
    }
}
fn crits(a: &[V]) -> R<Vec<(bool, Vec<P>)>> {
    a.iter()
        .map(|v| match v {
            V::Str(s) => criterion(s),
            _ => err("criterion"),
        })
        .collect()
}
fn attrs(a: &[V], names: &[&str], unit: usize) -> R<V> {
    if a.len() < names.len() {
        return err("missing");
    }
    let u = a.get(unit).map_or(String::new(), |v| v.show());
    Ok(V::Str(names.iter().zip(a).map(|(n, v)| format!("{}=\"{}{}\"", n, v.show(), u)).collect::<Vec<_>>().join(" ")))
}
fn find(h: &str, n: &str, from: usize) -> Option<usize> {
    let (h, n) = (h.as_bytes(), n.as_bytes());
    (from..=h.len()).find(|i| h[*i..].starts_with(n))
}
/// the pieces between non-overlapping occurrences, left to right
pub fn split(s: &str, sep: &str) -> Vec<String> {
    if sep.is_empty() {
        let mut r = vec![String::new()];
        r.extend(s.chars().map(|c| c.to_string()));
        r.push(String::new());
        return r;
    }
    let mut r = vec![];
    let mut at = 0;
    while let Some(p) = find(s, sep, at) {
        r.push(s[at..p].to_string());
        at = p + sep.len();
    }
    r.push(s[at..].to_string());
    r
}
pub fn replace(s: &str, from: &str, to: &str, mut n: usize) -> String {
    if from.is_empty() {
        // an empty needle is found before every char and at the end
        let mut o = String::new();
        for c in s.chars() {
            if n > 0 {
                o.push_str(to);
                n -= 1;
            }
            o.push(c);
        }
        if n > 0 {
            o.push_str(to);
        }
        return o;
    }
    let mut o = String::new();
    let mut at = 0;
    while n > 0 {
        match find(s, from, at) {
            Some(p) => {
                o.push_str(&s[at..p]);
                o.push_str(to);
                at = p + from.len();
                n -= 1;
            }
            None => break,
        }
    }
    o.push_str(&s[at..]);
    o
}
