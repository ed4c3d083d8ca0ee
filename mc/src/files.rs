//! C25 locked folders, C26 what file functions do, C27 which manager can do what, C28 exec and env.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::val::V;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::OnceLock;
use templito::func_man::{default_func_man, func_man_folders, BasicFuncs, FuncManager};
use templito::{TreeTemplate, WithFuncs};

// ------------------------------------------------------------ the model file system
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    F(Vec<u8>),
    D(BTreeMap<String, N>),
    L(String),
}
pub fn f(s: &str) -> N {
    N::F(s.as_bytes().to_vec())
}
pub fn d(x: &[(&str, N)]) -> N {
    N::D(x.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
pub fn build(p: &Path, n: &N) {
    match n {
        N::F(b) => std::fs::write(p, b).expect("fixture file"),
        N::L(t) => std::os::unix::fs::symlink(t, p).expect("fixture link"),
        N::D(m) => {
            if !p.is_dir() {
                std::fs::create_dir(p).expect("fixture dir");
            }
            for (k, v) in m {
                build(&p.join(k), v);
            }
        }
    }
}
/// make a tree that is as `have` into `want`
pub fn restore(p: &Path, have: &N, want: &N) {
    if have == want {
        return;
    }
    match (have, want) {
        (N::D(x), N::D(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => restore(&p.join(k), v, w),
                    None => remove(&p.join(k), v),
                }
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    build(&p.join(k), w);
                }
            }
        }
        _ => {
            remove(p, have);
            build(p, want);
        }
    }
}
fn remove(p: &Path, n: &N) {
    match n {
        N::D(_) => std::fs::remove_dir_all(p).expect("remove"),
        _ => std::fs::remove_file(p).expect("remove"),
    }
}
pub fn snapshot(p: &Path) -> N {
    let md = std::fs::symlink_metadata(p).expect("snapshot");
    if md.file_type().is_symlink() {
        return N::L(std::fs::read_link(p).expect("link").to_string_lossy().to_string());
    }
    if md.is_dir() {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(p).expect("snapshot dir") {
            let e = e.expect("entry");
            m.insert(e.file_name().to_string_lossy().to_string(), snapshot(&e.path()));
        }
        return N::D(m);
    }
    N::F(std::fs::read(p).expect("snapshot file"))
}
impl N {
    fn get(&self, path: &[String]) -> Option<&N> {
        match path {
            [] => Some(self),
            [a, r @ ..] => match self {
                N::D(m) => m.get(a)?.get(r),
                _ => None,
            },
        }
    }
    /// resolve as the operating system does
    fn walk(&self, from: &[String], comps: &[&str]) -> Option<Vec<String>> {
        self.walk_n(from, comps, 8)
    }
    fn walk_n(&self, from: &[String], comps: &[&str], fuel: u32) -> Option<Vec<String>> {
        let mut cur = from.to_vec();
        for c in comps {
            if !matches!(self.get(&cur)?, N::D(_)) {
                return None;
            }
            match *c {
                "" | "." => {}
                ".." => {
                    cur.pop()?;
                }
                n => {
                    cur.push(n.to_string());
                    if let N::L(t) = self.get(&cur)? {
                        if fuel == 0 {
                            return None;
                        }
                        cur.pop();
                        let tc: Vec<&str> = t.split('/').collect();
                        cur = self.walk_n(&cur, &tc, fuel - 1)?;
                    }
                }
            }
        }
        Some(cur)
    }
    /// put a file, making its folders; false if something is in the way
    fn put(&mut self, path: &[String], b: &[u8]) -> bool {
        match (self, path) {
            (N::D(m), [n]) => match m.get(n) {
                Some(N::D(_)) | Some(N::L(_)) => false,
                _ => {
                    m.insert(n.clone(), N::F(b.to_vec()));
                    true
                }
            },
            (N::D(m), [n, r @ ..]) => m.entry(n.clone()).or_insert_with(|| N::D(BTreeMap::new())).put(r, b),
            _ => false,
        }
    }
}

// ------------------------------------------------------------ images
fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}
fn adler(b: &[u8]) -> u32 {
    let (mut s, mut t) = (1u32, 0u32);
    for x in b {
        s = (s + *x as u32) % 65521;
        t = (t + s) % 65521;
    }
    (t << 16) | s
}
/// a grey png
pub fn png(w: u32, h: u32) -> Vec<u8> {
    let mut raw = vec![];
    for y in 0..h {
        raw.push(0);
        for x in 0..w {
            raw.push((x * 7 + y * 13) as u8);
        }
    }
    let mut z = vec![0x78, 0x01];
    let n = raw.chunks(65535).count();
    for (i, c) in raw.chunks(65535).enumerate() {
        z.push((i + 1 == n) as u8);
        z.extend((c.len() as u16).to_le_bytes());
        z.extend((!(c.len() as u16)).to_le_bytes());
        z.extend(c);
    }
    z.extend(adler(&raw).to_be_bytes());
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |t: &[u8], b: &[u8]| {
        o.extend((b.len() as u32).to_be_bytes());
        let mut tb = t.to_vec();
        tb.extend(b);
        o.extend(&tb);
        o.extend(crc(&tb).to_be_bytes());
    };
    let mut ih = vec![];
    ih.extend(w.to_be_bytes());
    ih.extend(h.to_be_bytes());
    ih.extend([8, 0, 0, 0, 0]);
    chunk(b"IHDR", &ih);
    chunk(b"IDAT", &z);
    chunk(b"IEND", &[]);
    o
}
/// a 24 bit bmp
pub fn bmp(w: u32, h: u32) -> Vec<u8> {
    let row = (w as usize * 3 + 3) / 4 * 4;
    let size = row * h as usize;
    let mut o = b"BM".to_vec();
    o.extend((54 + size as u32).to_le_bytes());
    o.extend([0; 4]);
    o.extend(54u32.to_le_bytes());
    o.extend(40u32.to_le_bytes());
    o.extend(w.to_le_bytes());
    o.extend(h.to_le_bytes());
    o.extend(1u16.to_le_bytes());
    o.extend(24u16.to_le_bytes());
    o.extend([0; 4]);
    o.extend((size as u32).to_le_bytes());
    o.extend([0; 16]);
    o.extend(vec![0x55; size]);
    o
}

// ------------------------------------------------------------ what the functions should answer
#[derive(Clone, Debug)]
enum A {
    Err,
    V(V),
}
impl PartialEq for A {
    fn eq(&self, o: &A) -> bool {
        a_show(self) == a_show(o)
    }
}
fn a_show(a: &A) -> String {
    match a {
        A::Err => "error".into(),
        A::V(v) => v.canon(),
    }
}
const READS: [&str; 7] = ["file", "file_bytes", "is_file", "is_dir", "dir", "scan_dir", "file_img_dimensions"];

fn sizes_of(b: &[u8]) -> Option<(u64, u64)> {
    if b.starts_with(&[0x89, b'P', b'N', b'G']) && b.len() > 24 {
        let n = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as u64;
        return Some((n(16), n(20)));
    }
    if b.starts_with(b"BM") && b.len() > 26 {
        let n = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as u64;
        return Some((n(18), n(22)));
    }
    None
}
fn front(b: &[u8]) -> BTreeMap<String, V> {
    let s = String::from_utf8(b.to_vec()).unwrap_or_default();
    match TreeTemplate::from_str(&s) {
        Ok(t) => t.front_matter(&default_func_man()).iter().map(|(k, v)| (k.clone(), V::of(v))).collect(),
        Err(_) => BTreeMap::new(),
    }
}
/// the items of a scanned folder; item_full_path is the real path within the base
fn scan(base: &N, at: &[String], short: &str, depth: u64, out: &mut BTreeMap<String, V>) {
    if let Some(N::D(m)) = base.get(at) {
        for (k, v) in m {
            if k.starts_with('_') {
                continue;
            }
            let mut p = at.to_vec();
            p.push(k.clone());
            match v {
                N::F(b) => {
                    let mut i = BTreeMap::new();
                    i.insert("item_full_path".to_string(), V::Str(p.join("/")));
                    i.insert("item_path".to_string(), V::s(short));
                    i.insert("item_file".to_string(), V::s(k));
                    i.extend(front(b));
                    out.insert(p.join("/"), V::Map(i));
                }
                N::D(_) if depth > 0 => {
                    let s2 = if short.is_empty() { k.clone() } else { format!("{}/{}", short, k) };
                    scan(base, &p, &s2, depth - 1, out)
                }
                _ => {}
            }
        }
    }
}
fn missing(func: &str) -> A {
    match func {
        "is_file" | "is_dir" => A::V(V::Bool(false)),
        _ => A::Err,
    }
}
/// the answer for a path which resolves (lexically) to `at`
fn answer(base: &N, func: &str, at: &[String], depth: u64) -> A {
    let strs: Vec<&str> = at.iter().map(|s| s.as_str()).collect();
    let real = match base.walk(&[], &strs) {
        Some(r) => r,
        None => return missing(func),
    };
    let n = base.get(&real).expect("walked");
    match (func, n) {
        ("file", N::F(b)) => String::from_utf8(b.clone()).map(|s| A::V(V::Str(s))).unwrap_or(A::Err),
        ("file_bytes", N::F(b)) => A::V(V::Bytes(b.clone())),
        ("is_file", n) => A::V(V::Bool(matches!(n, N::F(_)))),
        ("is_dir", n) => A::V(V::Bool(matches!(n, N::D(_)))),
        ("dir", N::D(m)) => A::V(V::List(m.keys().map(|k| V::s(k)).collect())),
        ("scan_dir", N::D(_)) => {
            let mut o = BTreeMap::new();
            scan(base, &real, "", depth, &mut o);
            A::V(V::List(o.into_values().collect()))
        }
        ("file_img_dimensions", N::F(b)) => match sizes_of(b) {
            Some((w, h)) => A::V(V::map(&[("w", V::UInt(w)), ("h", V::UInt(h))])),
            None => A::Err,
        },
        _ => A::Err,
    }
}
/// make an answer comparable: listings have no order, full paths may be spelled in several ways
fn normal(func: &str, v: V, base: &Path, listed: bool) -> V {
    match (func, v) {
        ("dir", V::List(mut l)) => {
            if listed {
                l = l.into_iter().map(|v| normal(func, v, base, false)).collect();
            } else {
                l.sort_by_key(|v| v.canon());
            }
            V::List(l)
        }
        ("scan_dir", V::List(l)) => {
            let mut l: Vec<V> = l
                .into_iter()
                .map(|v| match v {
                    V::Map(mut m) => {
                        if let Some(V::Str(s)) = m.get("item_full_path") {
                            let c = std::fs::canonicalize(s).ok().and_then(|p| p.strip_prefix(base).ok().map(|p| p.display().to_string()));
                            m.insert("item_full_path".into(), c.map(V::Str).unwrap_or(V::s("NOT IN BASE")));
                        }
                        V::Map(m)
                    }
                    v => v,
                })
                .collect();
            l.sort_by_key(|v| if let V::Map(m) = v { m.get("item_full_path").map(|p| p.canon()).unwrap_or_default() } else { v.canon() });
            V::List(l)
        }
        (_, v) => v,
    }
}

// ------------------------------------------------------------ C25
fn chain() -> Vec<String> {
    ["d1", "d2", "d3", "d4", "d5", "outer"].iter().map(|s| s.to_string()).collect()
}
fn fixture() -> N {
    let root = d(&[
        ("a.txt", f("inside a {{export k=1}}")),
        ("..a", f("inside dots")),
        ("b..", f("inside more dots")),
        ("5", f("inside five")),
        ("i.png", N::F(png(3, 2))),
        ("_u", f("inside under")),
        ("sub", d(&[("a.txt", f("inside sub a")), ("root", d(&[("a.txt", f("inside sub root a"))])), ("i.png", N::F(png(4, 1)))])),
        ("ldir", N::L("../root2".into())),
        ("lfile", N::L("a.txt".into())),
    ]);
    let outer = d(&[
        ("root", root),
        ("root2", d(&[("x.txt", f("SECRET2")), ("a.txt", f("SECRET2 {{export k=2}}")), ("sub", d(&[("a.txt", f("SECRET2"))]))])),
        ("roo", d(&[("a.txt", f("SECRET"))])),
        ("roott.txt", f("SECRET")),
        ("a.txt", f("SECRET {{export k=\"SECRET\"}}")),
        ("secret.txt", f("SECRET")),
        ("i.png", N::F(png(9, 9))),
        ("sub", d(&[("a.txt", f("SECRET")), ("i.png", N::F(png(9, 8)))])),
    ]);
    let mut n = outer;
    for c in chain().iter().rev() {
        n = d(&[(c, n), ("a.txt", f("SECRET")), ("i.png", N::F(png(9, 7))), ("sub", d(&[("a.txt", f("SECRET"))]))]);
    }
    n
}
/// fewer files to look at after every write
fn fixture_w() -> N {
    let root = d(&[("a.txt", f("inside")), ("sub", d(&[("a.txt", f("inside sub"))])), ("ldir", N::L("../root2".into()))]);
    let mut n = d(&[("root", root), ("root2", d(&[("a.txt", f("SECRET2"))])), ("a.txt", f("SECRET")), ("sub", d(&[("a.txt", f("SECRET"))]))]);
    for c in chain().iter().rev() {
        n = d(&[(c, n), ("a.txt", f("SECRET"))]);
    }
    n
}
struct Fix {
    base: PathBuf,
    model: N,
}
fn fix(cx: &Ctx) -> &'static Fix {
    static X: OnceLock<Fix> = OnceLock::new();
    X.get_or_init(|| {
        let base = cx.scratch.parent().expect("scratch").join(format!("fix-{}", std::process::id()));
        let model = fixture();
        build(&base, &model);
        let base = std::fs::canonicalize(base).expect("base");
        Fix { base, model }
    })
}
fn root() -> Vec<String> {
    let mut r = chain();
    r.push("root".into());
    r
}
/// where a path leads, lexically: (resolved within the base, whether it left the root on the way, absolute)
fn lexical(base: &Path, s: &str) -> (Option<Vec<String>>, bool, bool) {
    let mut cur: Option<Vec<String>>;
    let mut left = false;
    let rest: String;
    let abs = s.starts_with('/');
    if abs {
        let b = base.display().to_string();
        match s.strip_prefix(&b) {
            Some(r) if r.is_empty() || r.starts_with('/') => {
                cur = Some(vec![]);
                rest = r.to_string();
            }
            _ => return (None, true, true),
        }
    } else {
        cur = Some(root());
        rest = s.to_string();
    }
    for c in rest.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if let Some(v) = &mut cur {
                    if v.pop().is_none() {
                        cur = None;
                    }
                }
            }
            n => {
                if let Some(v) = &mut cur {
                    v.push(n.to_string());
                }
            }
        }
        if !abs && !cur.as_ref().map_or(false, |v| v.starts_with(&root())) {
            left = true;
        }
    }
    (cur, left, abs)
}
/// the answers which keep the property for a call on one path
fn allowed(fx: &Fix, func: &str, s: &str, depth: u64) -> Vec<A> {
    let nul = s.contains('\0');
    let (at, left, abs) = lexical(&fx.base, s);
    let at = match at {
        Some(a) if a.starts_with(&root()) => a,
        _ => return vec![A::Err],
    };
    let mut r = vec![answer(&fx.model, func, &at, depth)];
    if left || abs || nul {
        r.push(A::Err);
    }
    // the operating system may not get there the same way
    let comps: Vec<&str> = s.split('/').collect();
    let phys = if abs || nul { None } else { fx.model.walk(&root(), &comps) };
    let lex = fx.model.walk(&[], &at.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    if phys.is_none() || phys != lex {
        r.push(missing(func));
        r.push(A::Err);
    }
    r
}
/// names of the root as it may be given, and the folder to be in
fn spellings(base: &Path) -> Vec<(String, Vec<String>)> {
    let b = base.display().to_string();
    let outer = chain().join("/");
    vec![
        (format!("{}/{}/root", b, outer), vec![]),
        (format!("{}/{}/root/", b, outer), vec![]),
        (format!("{}/{}/./root/.", b, outer), vec![]),
        (format!("{}/{}/sub/../root", b, outer), vec![]),
        ("root".into(), chain()),
        ("./root/".into(), chain()),
        ("../outer/root".into(), chain()),
        (format!("{}/root", outer), vec![]),
        ("".into(), root()),
        (".".into(), root()),
        ("../root".into(), root()),
    ]
}
fn go(base: &Path, dir: &[String]) {
    let mut p = base.to_path_buf();
    p.extend(dir);
    std::env::set_current_dir(&p).expect("chdir");
}
fn leaks(r: &Real<V>) -> bool {
    rv(r).contains("SECRET")
}
/// one locked call with several paths
fn check_locked(cx: &mut Ctx, fx: &Fix, fm: &BasicFuncs, root_name: &str, func: &str, paths: &[String], depth: Option<u64>) -> Res {
    let mut args: Vec<V> = paths.iter().map(|p| V::s(p)).collect();
    if let Some(dp) = depth {
        args.push(V::UInt(dp));
    }
    let got = call_fn(fm, func, &args);
    cx.trace();
    cx.trans(1);
    let key = format!("root {:?}: {}", root_name, key_call(func, &args)).replace(&fx.base.display().to_string(), "BASE");
    let one: Vec<Vec<A>> = paths.iter().map(|p| allowed(fx, func, p, depth.unwrap_or(0))).collect();
    let one: Vec<Vec<A>> = if root_name.is_empty() {
        // the empty path is no folder to the operating system
        one.into_iter().zip(paths).map(|(o, p)| if lexical(&fx.base, p).0 == Some(root()) { [o, vec![missing(func), A::Err]].concat() } else { o }).collect()
    } else {
        one
    };
    let mut ok: Vec<A> = vec![];
    if one.iter().any(|o| o.contains(&A::Err)) {
        ok.push(A::Err);
    }
    // every way to choose
    let mut ways: Vec<Vec<V>> = vec![vec![]];
    for o in &one {
        let vs: Vec<V> = o.iter().filter_map(|a| if let A::V(v) = a { Some(v.clone()) } else { None }).collect();
        ways = ways.iter().flat_map(|w| vs.iter().map(move |v| [w.clone(), vec![v.clone()]].concat())).collect();
    }
    for w in ways {
        let v = match func {
            "file" => V::Str(w.iter().map(|v| v.show()).collect()),
            "file_bytes" => V::Bytes(w.iter().flat_map(|v| if let V::Bytes(b) = v { b.clone() } else { vec![] }).collect()),
            "is_file" | "is_dir" => V::Bool(w.iter().all(|v| v.canon() == "true")),
            "dir" if w.len() != 1 => V::List(w),
            _ if w.len() == 1 => w[0].clone(),
            _ => continue,
        };
        ok.push(A::V(v));
    }
    // a test of several paths may be settled by the first
    if func.starts_with("is_") && one.iter().any(|o| o.contains(&A::V(V::Bool(false)))) {
        ok.push(A::V(V::Bool(false)));
    }
    let g = match &got {
        Real::Ok(v) => A::V(normal(func, v.clone(), &fx.base, paths.len() != 1)),
        Real::Err(_) => A::Err,
        Real::Panic(_) => return viol(key, rv(&got)),
    };
    cx.state(&(func, a_show(&g)));
    if g != A::Err {
        cx.nontrivial();
    }
    cx.sample(|| format!("{} -> {}", key, a_show(&g)));
    let through_link = paths.iter().any(|p| p.contains("ldir"));
    if leaks(&got) && !through_link {
        return viol(key, format!("gives what lies outside: {}", rv(&got)));
    }
    if !ok.iter().any(|a| a_show(a) == a_show(&g)) {
        return viol(key, format!("gives {}, and should give {}", rv(&got), ok.iter().map(a_show).collect::<Vec<_>>().join(" or ")));
    }
    Ok(())
}
fn path_g(comps: &[&'static str], lo: u32, hi: u32) -> G<String> {
    of(comps).seq(lo, hi).map(|c| c.join("/"))
}
const COMPS: [&str; 9] = ["..", ".", "", "a.txt", "sub", "root", "root2", "ldir", "nope"];

pub fn c25(t: Tier) -> Vec<Space> {
    let mut r = vec![];
    // reading: relative paths of every shape
    let g = path_g(&COMPS, 0, t.pick(4, 5)).x(&fnames(&READS));
    r.push(Space::new("read", "7 reading functions x every path of up to 4 (thorough 5) of 9 components (.., ., empty, names inside, names that exist outside only, a link out, a missing name)", g.n, move |i, cx| {
        let fx = fix(cx);
        let (p, func) = g.at(i);
        let name = fx.base.join(root().join("/")).display().to_string();
        thread_local!(static FM: std::cell::RefCell<Option<BasicFuncs>> = Default::default());
        FM.with(|m| {
            let mut m = m.borrow_mut();
            let fm = m.get_or_insert_with(|| func_man_folders(&name));
            check_locked(cx, fx, fm, &name, &func, &[p], None)
        })
    }));
    // other spellings of the root, absolute paths
    let prefixes = 8u64;
    let nsp = 11u64;
    let g = path_g(&["..", "", "a.txt", "sub", "root", "root2"], 0, t.pick(3, 4)).x(&fnames(&READS));
    let per = g.n * prefixes;
    let mk = move |cx: &mut Ctx, sp: u64, i: u64| {
        let fx = fix(cx);
        let (name, cwd) = spellings(&fx.base)[sp as usize].clone();
        go(&fx.base, &cwd);
        let mut dd = Digits(i);
        let (p, func) = g.at(dd.take(g.n));
        let b = fx.base.display().to_string();
        let outer = chain().join("/");
        let pre = match dd.take(prefixes) {
            0 => String::new(),
            1 => "/".to_string(),
            2 => format!("{}/{}/root/", b, outer),
            3 => format!("{}/{}/root2/", b, outer),
            4 => format!("{}/{}/", b, outer),
            5 => format!("{}/{}/root", b, outer),
            6 => "./".to_string(),
            _ => "//".to_string(),
        };
        let s = format!("{}{}", pre, p);
        let fm = BasicFuncs::new().with_folder_lock(&name);
        check_locked(cx, fx, &fm, &name, &func, &[s], None)
    };
    for sp in 0..nsp {
        let mk = mk.clone();
        r.push(Space::new(
            format!("root-spelling-{}", sp),
            "another spelling of the root (absolute, with . or .., trailing slash, relative to the working folder, empty): 7 functions x 8 beginnings (none, /, the root, its sibling, its parent, the name continued) x every path of up to 3 (thorough 4) of 6 components",
            per,
            move |i, cx| mk(cx, sp, i),
        ));
    }
    // several paths, and scans of some depth
    let ps = ["a.txt", "../a.txt", "sub", "..", "nope", "../nope", "sub/../..", "i.png", "/etc/hostname", ".", "ldir", "sub/a.txt"];
    let g = path_g(&ps, 1, 1).seq(0, 3).x(&fnames(&READS[..5]));
    r.push(Space::new("several", "every 0-3 of 12 paths in one call: one that leads out makes it fail", g.n, move |i, cx| {
        let fx = fix(cx);
        let (p, func) = g.at(i);
        let name = fx.base.join(root().join("/")).display().to_string();
        let fm = func_man_folders(&name);
        check_locked(cx, fx, &fm, &name, &func, &p, None)
    }));
    let g = path_g(&["..", ".", "sub", "root", "ldir", "nope"], 0, t.pick(4, 5)).x(&of(&[0u64, 1, 2, 3, u64::MAX]));
    r.push(Space::new("scan-depth", "scan_dir to 5 depths from every path of up to 4 (thorough 5) of 6 components: links are not followed out", g.n, move |i, cx| {
        let fx = fix(cx);
        let (p, dp) = g.at(i);
        let name = fx.base.join(root().join("/")).display().to_string();
        let fm = func_man_folders(&name);
        check_locked(cx, fx, &fm, &name, "scan_dir", &[p], Some(dp))
    }));
    // odd characters
    let odd = ["\0", "..\0", "../a.txt\0", "..\\a.txt", "\\..\\a.txt", "%2e%2e/a.txt", "..%2fa.txt", ".. /a.txt", " ../a.txt", "...", "....", ".../a.txt", "..a", "..a/../a.txt", "b..", "b../../a.txt", "sub/b../../../a.txt", "~", "~/a.txt", "$HOME", "file:///etc/passwd", "\n../a.txt", "..\n/a.txt", "．．/a.txt", "ａ", "5", "lfile", "lfile/../a.txt", "sub//..//..//a.txt", "sub/./.././../a.txt", "./../a.txt", ".//..//a.txt", "*", "?.txt", "C:\\a.txt", "-"];
    let g = path_g(&odd, 1, 2).x(&fnames(&READS));
    r.push(Space::new("odd-paths", "every 1-2 of 36 odd paths joined: encoded, with control characters, dots in names, backslashes", g.n, move |i, cx| {
        let fx = fix(cx);
        let (p, func) = g.at(i);
        let name = fx.base.join(root().join("/")).display().to_string();
        let fm = func_man_folders(&name);
        check_locked(cx, fx, &fm, &name, &func, &[p], None)
    }));
    // many ..
    let top = t.pick(40u64, 200);
    r.push(Space::new("ladder", "n times .. before, after and between as many names, n up to 40 (thorough 200)", (top + 1) * 6 * 7, move |i, cx| {
        let fx = fix(cx);
        let mut dd = Digits(i);
        let func = READS[dd.take(7) as usize];
        let form = dd.take(6);
        let n = dd.take(top + 1) as usize;
        let p = match form {
            0 => format!("{}a.txt", "../".repeat(n)),
            1 => format!("{}{}a.txt", "sub/".repeat(n), "../".repeat(n)),
            2 => format!("{}{}a.txt", "sub/".repeat(n), "../".repeat(n + 1)),
            3 => format!("{}a.txt", "sub/../".repeat(n)),
            4 => format!("{}../a.txt", "sub/../".repeat(n)),
            _ => format!("{}{}root/a.txt", "./".repeat(n), "../".repeat(n.min(3))),
        };
        let name = fx.base.join(root().join("/")).display().to_string();
        let fm = func_man_folders(&name);
        check_locked(cx, fx, &fm, &name, func, &[p], None)
    }));
    // from templates
    let g = path_g(&["..", ".", "a.txt", "sub", "root2"], 1, t.pick(3, 4)).x(&of(&[0usize, 1, 2, 3, 4, 5]));
    r.push(Space::new("templates", "read from a template: as argument, on a block, from a called template, in front matter, in a loop, joined by the template", g.n, move |i, cx| {
        let fx = fix(cx);
        let (p, how) = g.at(i);
        let name = fx.base.join(root().join("/")).display().to_string();
        let fm = func_man_folders(&name);
        let src = match how {
            0 => format!("{{{{file \"{}\"}}}}", p),
            1 => format!("{{{{@file}}}}{}{{{{/file}}}}", p),
            2 => format!("{{{{global g}}}}{{{{file $0}}}}{{{{/global}}}}{{{{g \"{}\"}}}}", p),
            3 => format!("{{{{export x = file \"{}\"}}}}", p),
            4 => format!("{{{{for i v in list \"{}\"}}}}{{{{file $v}}}}{{{{/for}}}}", p),
            _ => format!("{{{{file (join {})}}}}", p.split('/').map(|c| format!("\"{}\"", c)).collect::<Vec<_>>().join(" ")),
        };
        let got = real_src(&src, &[], &fm);
        cx.trace();
        cx.trans(1);
        let shown = format!("{:?}", got);
        if shown.contains("SECRET") && !p.contains("ldir") {
            return viol(src, format!("shows what lies outside: {}", shown));
        }
        let ok = allowed(fx, "file", &p, 0);
        let good = match &got {
            Real::Ok(o) => {
                cx.nontrivial();
                let s = if how == 3 { o.1.get("x").map(|v| v.show()).unwrap_or_default() } else { o.0.clone() };
                ok.contains(&A::V(V::Str(s)))
            }
            Real::Err(_) => ok.contains(&A::Err),
            Real::Panic(_) => false,
        };
        cx.state(&shown);
        cx.sample(|| format!("{} -> {}", src, shown));
        if !good {
            return viol(src, format!("{} should be {}", shown, ok.iter().map(a_show).collect::<Vec<_>>().join(" or ")));
        }
        Ok(())
    }));
    // writing
    let wc = ["..", ".", "", "a.txt", "sub", "root2", "ldir", "new"];
    let g = path_g(&wc, 0, t.pick(4, 5)).x(&of(&[0u64, 1, 2, 3, 4]));
    r.push(Space::new("write", "locked write to every path of up to 4 (thorough 5) of 8 components and 5 beginnings: what lies outside is not changed, what is written is inside", g.n, move |i, cx| {
        let (p, pre) = g.at(i);
        check_write(cx, &p, pre)
    }));
    let odd: Vec<&'static str> = odd.iter().filter(|p| !p.starts_with("lfile")).cloned().collect();
    let g = path_g(&odd, 1, 2);
    r.push(Space::new("write-odd", "locked write to every 1-2 of the odd paths", g.n, move |i, cx| check_write(cx, &g.at(i), 0)));
    r.push(Space::new("write-ladder", "locked write to n times .. after n-1, n or n+1 names, n up to 20", 21 * 3 * 2, move |i, cx| {
        let mut dd = Digits(i);
        let n = dd.take(21) as usize;
        let m = (n + dd.take(3) as usize).saturating_sub(1);
        let p = match dd.take(2) {
            0 => format!("{}{}w.txt", "new/".repeat(m), "../".repeat(n)),
            _ => format!("{}{}w.txt", "./".repeat(m), "../".repeat(n.min(3))),
        };
        check_write(cx, &p, 0)
    }));
    let shapes = ["{}", "../{}", "{}/../..", "{}..", "..{}", "{}../a.txt", "..{}/a.txt", "../{}a.txt", "../a{}txt", "../a.txt{}", "{}/../../a.txt", "a.txt{}", "sub{}a.txt", "..{}a.txt", "{}a.txt", "sub/..{}../a.txt", "..{}..{}a.txt"];
    let g = crate::chars::chars_g().x(&of(&shapes)).x(&fnames(&READS));
    r.push(Space::new("every-character", "every ASCII character and 40 others in 17 paths around .., slashes and names: 7 functions", g.n, move |i, cx| {
        let fx = fix(cx);
        let ((c, x), func) = g.at(i);
        let name = fx.base.join(root().join("/")).display().to_string();
        let fm = func_man_folders(&name);
        check_locked(cx, fx, &fm, &name, &func, &[x.replace("{}", &c.to_string())], None)
    }));
    r
}
/// the writable copy of a thread
fn own(cx: &Ctx) -> (PathBuf, N) {
    let base = cx.scratch.join("w");
    let model = fixture_w();
    thread_local!(static MADE: std::cell::Cell<bool> = Default::default());
    if !MADE.with(|m| m.replace(true)) || !base.exists() {
        std::fs::create_dir_all(&cx.scratch).expect("scratch");
        let _ = std::fs::remove_dir_all(&base);
        build(&base, &model);
    }
    (std::fs::canonicalize(&base).expect("base"), model)
}
fn as_root() -> bool {
    unsafe { libc::geteuid() == 0 }
}
fn check_write(cx: &mut Ctx, p: &str, pre: u64) -> Res {
    let (base, model) = own(cx);
    let b = base.display().to_string();
    let outer = chain().join("/");
    let pre = match pre {
        0 => String::new(),
        1 => "/mc-".to_string(),
        2 => format!("{}/{}/root/", b, outer),
        3 => format!("{}/{}/", b, outer),
        _ => format!("{}/{}/root", b, outer),
    };
    if pre == "/mc-" && as_root() {
        return Ok(());
    }
    let s = format!("{}{}", pre, p);
    let name = base.join(root().join("/")).display().to_string();
    let fm = BasicFuncs::new().with_write_lock(&name);
    let args = [V::s(&s), V::s("WRITTEN")];
    let got = call_fn(&fm, "write", &args);
    cx.trace();
    cx.trans(1);
    let after = snapshot(&base);
    restore(&base, &after, &model);
    let key = key_call("write", &args).replace(&b, "BASE");
    let out = |r: &Real<V>| rv(r);
    cx.state(&(&after, out(&got).len() > 6));
    cx.sample(|| format!("{} -> {}", key, out(&got)));
    if let Real::Panic(_) = got {
        return viol(key, out(&got));
    }
    let fx = Fix { base: base.clone(), model: model.clone() };
    let (at, left, abs) = lexical(&fx.base, &s);
    let inside = matches!(&at, Some(a) if a.starts_with(&root()));
    let at = at.unwrap_or_default();
    let through = at.len() > root().len() && at[root().len()] == "ldir";
    // outside of the root nothing changes
    let strip = |n: &N| {
        let mut n = n.clone();
        fn cut(n: &mut N, p: &[String]) {
            if let N::D(m) = n {
                if p.len() == 1 {
                    m.remove(&p[0]);
                } else if let Some(c) = m.get_mut(&p[0]) {
                    cut(c, &p[1..]);
                }
            }
        }
        cut(&mut n, &root());
        n
    };
    if !through && strip(&after) != strip(&model) {
        return viol(key, "changes what lies outside the folder");
    }
    if !inside {
        return match got {
            Real::Err(_) if after == model => Ok(()),
            _ => viol(key, format!("leads out, and gives {}", out(&got))),
        };
    }
    if through {
        return Ok(());
    }
    match got {
        Real::Ok(v) => {
            cx.nontrivial();
            let mut want = model.clone();
            let ok = want.put(&at, b"WRITTEN") && v.canon() == "\"\"";
            // folders on the way may be made
            if !ok || !equal_but_dirs(&after, &want) {
                return viol(key, format!("should write {} and only that, gives {}", at.join("/"), v.canon()));
            }
            Ok(())
        }
        _ => {
            if !equal_but_dirs(&after, &model) {
                return viol(key, "fails and changes files");
            }
            let mut want = model.clone();
            let plain = !left && !abs && !s.is_empty() && s.split('/').all(|c| !["", ".", ".."].contains(&c)) && !s.contains('\0');
            if plain && want.put(&at, b"WRITTEN") && !s.contains("lfile") {
                return viol(key, format!("should be written: {}", out(&got)));
            }
            Ok(())
        }
    }
}
/// the same files, possibly more folders
fn equal_but_dirs(a: &N, b: &N) -> bool {
    match (a, b) {
        (N::D(x), N::D(y)) => {
            y.iter().all(|(k, v)| x.get(k).map_or(false, |w| equal_but_dirs(w, v))) && x.iter().all(|(k, v)| y.contains_key(k) || only_dirs(v))
        }
        _ => a == b,
    }
}
fn only_dirs(n: &N) -> bool {
    matches!(n, N::D(m) if m.values().all(only_dirs))
}

// ------------------------------------------------------------ C26
/// a folder of the thread's own, emptied
fn fresh(cx: &Ctx) -> PathBuf {
    let p = cx.scratch.join("f");
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("fresh");
    std::fs::canonicalize(p).expect("fresh")
}
/// a folder of the thread's own, kept between cases
fn kept(cx: &Ctx) -> PathBuf {
    let p = cx.scratch.join("k");
    if !p.exists() {
        std::fs::create_dir_all(&p).expect("kept");
    }
    p
}
/// a provider of file functions on one folder: locked to it or free
fn both_at(which: u64, base: &Path) -> (BasicFuncs, String) {
    let b = base.display().to_string();
    match which {
        0 => (func_man_folders(base).with_write_lock(base), String::new()),
        _ => (default_func_man().with_free_files(), format!("{}/", b)),
    }
}
fn expect(cx: &mut Ctx, key: String, func: &str, got: &Real<V>, want: A, base: &Path, listed: bool) -> Res {
    cx.trace();
    cx.trans(1);
    let g = match got {
        Real::Ok(v) => A::V(normal(func, v.clone(), base, listed)),
        _ => A::Err,
    };
    cx.state(&(func, a_show(&want)));
    if want != A::Err {
        cx.nontrivial();
    }
    cx.sample(|| format!("{} -> {}", key, a_show(&want)).chars().take(300).collect());
    if got.is_panic() || a_show(&g) != a_show(&want) {
        let cut = |s: String| s.chars().take(600).collect::<String>();
        return viol(key, format!("gives {}, and should give {}", cut(rv(got)), cut(a_show(&want))));
    }
    Ok(())
}
fn text_of(b: &[u8]) -> A {
    String::from_utf8(b.to_vec()).map(|s| A::V(V::Str(s))).unwrap_or(A::Err)
}
fn cat_files(func: &str, files: &[Vec<u8>]) -> A {
    match func {
        "file_bytes" => A::V(V::Bytes(files.concat())),
        // each file has to be text of its own
        _ if files.iter().all(|b| std::str::from_utf8(b).is_ok()) => text_of(&files.concat()),
        _ => A::Err,
    }
}
pub fn c26(t: Tier) -> Vec<Space> {
    let mut r = vec![];
    // contents
    let bytes = [0u8, b'a', b'\n', b'\r', b'{', 0xc3, 0xa9, 0xff, 0xef, 0xbb, 0xbf];
    let g = of(&bytes).seq(0, t.pick(3, 4));
    r.push(Space::new("contents", "files of every 0-3 (thorough 4) of 11 bytes read as text and as bytes, locked and free", g.n * 4, move |i, cx| {
        let b = g.at(i / 4);
        let base = kept(cx);
        std::fs::write(base.join("c"), &b).expect("write");
        let (fm, pre) = both_at(i % 2, &base);
        let func = ["file", "file_bytes"][(i / 2 % 2) as usize];
        let got = call_fn(&fm, func, &[V::Str(format!("{}c", pre))]);
        expect(cx, format!("{} {} of a file with {:?}", ["locked", "free"][(i % 2) as usize], func, b), func, &got, cat_files(func, &[b.clone()]), &base, false)
    }));
    let few: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), "é\n".as_bytes().to_vec(), vec![0xc3], vec![0xa9], b"{{x}}".to_vec()];
    let g = of(&(0..few.len()).collect::<Vec<_>>()).opt().seq(0, t.pick(3, 4));
    r.push(Space::new("several-files", "every 0-3 (thorough 4) of 6 files and a missing one in one call: joined in order, all or an error", g.n * 4, move |i, cx| {
        let sel = g.at(i / 4);
        let base = kept(cx);
        for (n, b) in few.iter().enumerate() {
            let p = base.join(format!("m{}", n));
            if !p.exists() {
                std::fs::write(p, b).expect("write");
            }
        }
        let (fm, pre) = both_at(i % 2, &base);
        let func = ["file", "file_bytes"][(i / 2 % 2) as usize];
        let args: Vec<V> = sel.iter().map(|x| V::Str(match x { Some(n) => format!("{}m{}", pre, n), None => format!("{}missing", pre) })).collect();
        let got = call_fn(&fm, func, &args);
        let want = if sel.iter().any(|x| x.is_none()) { A::Err } else { cat_files(func, &sel.iter().map(|x| few[x.unwrap()].clone()).collect::<Vec<_>>()) };
        expect(cx, format!("{} {} of {:?}", ["locked", "free"][(i % 2) as usize], func, sel), func, &got, want, &base, false)
    }));
    let sizes: Vec<usize> = (0..=40usize).chain((5..=t.pick(18, 21)).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1])).collect();
    let ns = sizes.len() as u64;
    r.push(Space::new("sizes", "files of each size up to 40 and around every power of two up to 2^18 (thorough 2^21), ending in a letter or a character of two bytes: read and written", ns * 2 * 2 * 3, move |i, cx| {
        let mut dd = Digits(i);
        let which = dd.take(2);
        let two = dd.take(2);
        let how = dd.take(3);
        let n = sizes[dd.take(ns) as usize];
        let mut s = "x".repeat(n);
        if two == 1 {
            s.push('é');
        }
        let base = kept(cx);
        let (fm, pre) = both_at(which, &base);
        let path = V::Str(format!("{}big", pre));
        if how == 2 {
            let got = call_fn(&fm, "write", &[path, V::s(&s)]);
            let there = std::fs::read(base.join("big")).expect("written");
            expect(cx, format!("write of {} bytes", s.len()), "write", &got, A::V(V::s("")), &base, false)?;
            if there != s.as_bytes() {
                return viol(format!("write of {} bytes", s.len()), format!("{} bytes arrived", there.len()));
            }
            return Ok(());
        }
        std::fs::write(base.join("big"), &s).expect("write");
        let func = ["file", "file_bytes"][how as usize];
        let got = call_fn(&fm, func, &[path]);
        expect(cx, format!("{} of {} bytes", func, s.len()), func, &got, cat_files(func, &[s.into_bytes()]), &base, false)
    }));
    // listings
    let names: [&str; 9] = ["a", "b.txt", ".hid", "_und", "sp ace", "é漢", "sub", "..x", "B"];
    r.push(Space::new("listings", "folders with every subset of 9 names (hidden, with space, of many bytes, a folder): listed completely, alone and with others", 512 * 2 * 3, move |i, cx| {
        let set = i / 6;
        let base = fresh(cx);
        let mut m = BTreeMap::new();
        for (n, name) in names.iter().enumerate() {
            if set >> n & 1 == 1 {
                m.insert(name.to_string(), if *name == "sub" { d(&[("in", f("x"))]) } else { f(name) });
            }
        }
        let model = d(&[("l", N::D(m.clone())), ("o", d(&[("other", f(""))]))]);
        build(&base, &model);
        let (fm, pre) = both_at(i % 2, &base);
        let list = V::List(m.keys().map(|k| V::s(k)).collect());
        let p = |x: &str| V::Str(format!("{}{}", pre, x));
        let (args, want, many) = match i / 2 % 3 {
            0 => (vec![p("l")], A::V(list), false),
            1 => (vec![p("o"), p("l")], A::V(V::List(vec![V::List(vec![V::s("other")]), list])), true),
            _ => (vec![p("l"), p("none")], A::Err, true),
        };
        let got = call_fn(&fm, "dir", &args);
        expect(cx, format!("dir of {:?} (form {})", m.keys().collect::<Vec<_>>(), i / 2 % 3), "dir", &got, want, &base, many)
    }));
    r.push(Space::new("listings-many", "folders with n files, n up to 300", 301 * 2, move |i, cx| {
        let n = i / 2;
        let base = fresh(cx);
        for k in 0..n {
            std::fs::write(base.join(format!("f{}", k)), "").expect("file");
        }
        let (fm, pre) = both_at(i % 2, &base);
        let got = call_fn(&fm, "dir", &[V::Str(format!("{}.", pre))]);
        let want: BTreeSet<String> = (0..n).map(|k| format!("f{}", k)).collect();
        let mut l: Vec<V> = want.iter().map(|s| V::s(s)).collect();
        l.sort_by_key(|v| v.canon());
        expect(cx, format!("dir of {} files", n), "dir", &got, A::V(V::List(l)), &base, false)
    }));
    // tests
    let g = of(&["a", "sub", "none", "sub/b", "la", "ls", "lx", "a/x", ".", "sub/"]).seq(0, t.pick(3, 4));
    r.push(Space::new("tests", "is_file and is_dir of every 0-3 (thorough 4) of 10 paths (file, folder, missing, links to each): true if every one is", g.n * 4, move |i, cx| {
        let base = kept(cx).join("tests");
        let model = d(&[("a", f("A")), ("sub", d(&[("b", f("B"))])), ("la", N::L("a".into())), ("ls", N::L("sub".into())), ("lx", N::L("gone".into()))]);
        if !base.exists() {
            build(&base, &model);
        }
        let ps = g.at(i / 4);
        let (fm, pre) = both_at(i % 2, &base);
        let func = ["is_file", "is_dir"][(i / 2 % 2) as usize];
        let args: Vec<V> = ps.iter().map(|p| V::Str(format!("{}{}", pre, p))).collect();
        let want = ps.iter().all(|p| match model.walk(&[], &p.split('/').collect::<Vec<_>>()) {
            Some(at) => matches!(model.get(&at), Some(N::D(_))) == (func == "is_dir"),
            None => false,
        });
        let got = call_fn(&fm, func, &args);
        expect(cx, format!("{} {} of {:?}", ["locked", "free"][(i % 2) as usize], func, ps), func, &got, A::V(V::Bool(want)), &base, false)
    }));
    // scans
    let slots: Vec<(&str, Vec<N>)> = vec![
        ("a.md", vec![f("text"), f("{{export t=\"A\" n=1}}body")]),
        ("_skip.md", vec![f("{{export t=\"no\"}}")]),
        (".dot", vec![f("{{let x=3}}{{export t=$x}}")]),
        ("link.md", vec![N::L("a.md".into())]),
        ("s", vec![d(&[]), d(&[("b.md", f("{{@export t}}B{{/export}}")), ("_n", f(""))]), d(&[("s", d(&[("c.txt", f("{{export broken"))]))])]),
        ("t", vec![d(&[("u", d(&[("v", d(&[("d.md", N::F(vec![0xff, 0xfe])), ("e.md", f("é"))]))]))])]),
        ("_t", vec![d(&[("x.md", f("hidden"))])]),
        ("ls", vec![N::L("s".into())]),
    ];
    let mut combos: Vec<Vec<(String, N)>> = vec![vec![]];
    for (n, v) in &slots {
        let mut next = vec![];
        for c in &combos {
            next.push(c.clone());
            for x in v {
                let mut c2 = c.clone();
                c2.push((n.to_string(), x.clone()));
                next.push(c2);
            }
        }
        combos = next;
    }
    let combos: Vec<N> = combos.into_iter().map(|c| N::D(c.into_iter().collect())).collect();
    let nc = combos.len() as u64;
    let depths: Vec<Option<V>> = vec![None, Some(V::UInt(0)), Some(V::Int(1)), Some(V::UInt(2)), Some(V::UInt(3)), Some(V::Null)];
    r.push(Space::new("scans", "every folder tree made of 8 optional parts (exports, hidden and underscored names, links, nested folders, broken and binary files) x 6 depths", nc * 6 * 2, move |i, cx| {
        let mut dd = Digits(i);
        let which = dd.take(2);
        let dp = &depths[dd.take(6) as usize];
        let c = &combos[dd.take(nc) as usize];
        let base = kept(cx).join("scan");
        // the trees of consecutive cases are the same
        thread_local!(static LAST: std::cell::Cell<u64> = std::cell::Cell::new(u64::MAX));
        let tree = i / 12;
        if LAST.with(|l| l.replace(tree)) != tree {
            let _ = std::fs::remove_dir_all(&base);
            std::fs::create_dir_all(&base).expect("scan");
            build(&base.join("x"), c);
        }
        let base = std::fs::canonicalize(&base).expect("scan");
        let model = d(&[("x", c.clone())]);
        let (fm, pre) = both_at(which, &base);
        let args: Vec<V> = [Some(V::Str(format!("{}x", pre))), dp.clone()].into_iter().flatten().collect();
        let depth = dp.as_ref().and_then(|v| v.as_usize()).unwrap_or(0);
        let want = answer(&model, "scan_dir", &["x".to_string()], depth);
        let got = call_fn(&fm, "scan_dir", &args);
        expect(cx, format!("{} scan_dir to {:?} of {:?}", ["locked", "free"][which as usize], dp.as_ref().map(|v| v.canon()), c), "scan_dir", &got, want, &base, false)
    }));
    // how deep a scan goes
    let deep_top = t.pick(10u64, 24);
    r.push(Space::new("scan-depths", "folders n deep with a file and a second branch at each level, scanned from each level to every depth up to n+1, n up to 10 (thorough 24)", (deep_top + 1) * (deep_top + 1) * (deep_top + 2) * 2, move |i, cx| {
        let mut dd = Digits(i);
        let which = dd.take(2);
        let (depth, from, n) = (dd.take(deep_top + 2), dd.take(deep_top + 1), dd.take(deep_top + 1));
        if depth > n + 1 || from > n {
            return Ok(());
        }
        let mut tree = d(&[("end", f(""))]);
        for k in (0..n).rev() {
            tree = d(&[("f", f(&format!("{{{{export at={}}}}}", k))), ("d", tree), ("e", d(&[("g", f("")), ("h", d(&[("i", f(""))]))]))]);
        }
        let base = kept(cx).join("deep");
        thread_local!(static LAST: std::cell::Cell<u64> = std::cell::Cell::new(u64::MAX));
        if LAST.with(|l| l.replace(n)) != n {
            let _ = std::fs::remove_dir_all(&base);
            std::fs::create_dir_all(&base).expect("scan");
            build(&base.join("x"), &tree);
        }
        let base = std::fs::canonicalize(&base).expect("scan");
        let model = d(&[("x", tree)]);
        let (fm, pre) = both_at(which, &base);
        let at: Vec<String> = std::iter::once("x".to_string()).chain((0..from).map(|_| "d".to_string())).collect();
        let got = call_fn(&fm, "scan_dir", &[V::Str(format!("{}{}", pre, at.join("/"))), V::UInt(depth)]);
        let want = answer(&model, "scan_dir", &at, depth);
        expect(cx, format!("{} scan_dir of {} to depth {} in a tree of {} levels", ["locked", "free"][which as usize], at.join("/"), depth, n), "scan_dir", &got, want, &base, false)
    }));
    let res = ["", "\\.md$", "a", "^/", "s/", "(", "txt|dot", "^a", "\\d$", "é"];
    r.push(Space::new("scan-filters", "scan_dir with each of 10 regular expressions and 4 depths: the files whose full path matches; a malformed one filters nothing", 10 * 4 * 2, move |i, cx| {
        let mut dd = Digits(i);
        let which = dd.take(2);
        let re = *dd.pick(&res);
        let depth = dd.take(4);
        let base = fresh(cx).join("root");
        let model = d(&[("a.md", f("{{export a=1}}")), ("b.txt", f("")), ("x1", f("")), ("s", d(&[("c.md", f("")), ("é", f("")), ("s", d(&[("dot", f("")), ("a2", f(""))]))]))]);
        build(&base, &model);
        let base = std::fs::canonicalize(&base).expect("base");
        let (fm, pre) = both_at(which, &base);
        let got = call_fn(&fm, "scan_dir", &[V::Str(format!("{}.", pre)), V::UInt(depth), V::s(re)]);
        let mut o = BTreeMap::new();
        scan(&model, &[], "", depth, &mut o);
        let b = base.display().to_string();
        let m = |k: &str| match re {
            "" | "(" | "^/" => true,
            "\\.md$" => k.ends_with(".md"),
            "a" => format!("{}/{}", b, k).contains('a'),
            "s/" => format!("{}/./{}", b, k).contains("s/"),
            "txt|dot" => k.contains("txt") || k.contains("dot"),
            "^a" => false,
            "\\d$" => k.ends_with(|c: char| c.is_ascii_digit()),
            _ => k.contains('é'),
        };
        let want = V::List(o.into_iter().filter(|(k, _)| m(k)).map(|(_, v)| v).collect());
        expect(cx, format!("scan_dir with {:?} to {}", re, depth), "scan_dir", &got, A::V(want), &base, false)
    }));
    // images
    let ws = [1u32, 2, 3, 7, 8, 100, 255, 256, 257];
    let nw = ws.len() as u64;
    r.push(Space::new("images", "png and bmp pictures of 9 widths x 9 heights; other files, missing ones and other arguments are errors", nw * nw * 2 * 2 + 12, move |i, cx| {
        let base = kept(cx).join("img");
        std::fs::create_dir_all(&base).expect("img");
        if i >= nw * nw * 4 {
            let k = i - nw * nw * 4;
            let (fm, pre) = both_at(k % 2, &base);
            std::fs::write(base.join("no.png"), b"no picture at all").expect("file");
            std::fs::write(base.join("empty.png"), b"").expect("file");
            let arg: Vec<V> = match k / 2 {
                0 => vec![],
                1 => vec![V::Str(format!("{}no.png", pre))],
                2 => vec![V::Str(format!("{}empty.png", pre))],
                3 => vec![V::Str(format!("{}gone.png", pre))],
                4 => vec![V::UInt(3)],
                _ => vec![V::Str(format!("{}.", pre))],
            };
            let got = call_fn(&fm, "file_img_dimensions", &arg);
            return expect(cx, key_call("file_img_dimensions", &arg), "file_img_dimensions", &got, A::Err, &base, false);
        }
        let mut dd = Digits(i);
        let which = dd.take(2);
        let kind = dd.take(2);
        let (w, h) = (*dd.pick(&ws), *dd.pick(&ws));
        let name = ["p.png", "p.bmp"][kind as usize];
        std::fs::write(base.join(name), if kind == 0 { png(w, h) } else { bmp(w, h) }).expect("img");
        let (fm, pre) = both_at(which, &base);
        let got = call_fn(&fm, "file_img_dimensions", &[V::Str(format!("{}{}", pre, name))]);
        expect(cx, format!("{} dimensions of {} {}x{}", ["locked", "free"][which as usize], name, w, h), "file_img_dimensions", &got, A::V(V::map(&[("w", V::UInt(w as u64)), ("h", V::UInt(h as u64))])), &base, false)
    }));
    // writing values
    let k = crate::ctl::kinds();
    let nk = k.len() as u64;
    r.push(Space::new("write-kinds", "each kind of value written over a longer file, into new folders, and over a folder", nk * 4 * 2, move |i, cx| {
        let mut dd = Digits(i);
        let which = dd.take(2);
        let where_ = dd.take(4);
        let v = dd.pick(&k).clone();
        let base = fresh(cx);
        build(&base, &d(&[("old", f(&"z".repeat(500))), ("sub", d(&[])), ("file", f("x"))]));
        let (fm, pre) = both_at(which, &base);
        let (p, ok) = [("old", true), ("new/er/deep.txt", true), ("sub", false), ("file/x", false)][where_ as usize];
        let got = call_fn(&fm, "write", &[V::Str(format!("{}{}", pre, p)), v.clone()]);
        let key = format!("write {} to {}", v.canon(), p);
        expect(cx, key.clone(), "write", &got, if ok { A::V(V::s("")) } else { A::Err }, &base, false)?;
        let mut want = d(&[("old", f(&"z".repeat(500))), ("sub", d(&[])), ("file", f("x"))]);
        if ok {
            want.put(&p.split('/').map(|s| s.to_string()).collect::<Vec<_>>(), v.show().as_bytes());
        }
        let after = snapshot(&base);
        if after != want {
            return viol(key, format!("leaves {:?}", after));
        }
        Ok(())
    }));
    let g = of(&[V::s("a"), V::s("é\n"), V::UInt(3), V::Null, V::s("")]).seq(0, t.pick(3, 4));
    r.push(Space::new("write-args", "write with every 0-3 (thorough 4) contents: the first is written by the locked one, all by the free one, none is an error", g.n * 2, move |i, cx| {
        let a = g.at(i / 2);
        let base = kept(cx);
        let (fm, pre) = both_at(i % 2, &base);
        let _ = std::fs::remove_file(base.join("wa"));
        let got = call_fn(&fm, "write", &[vec![V::Str(format!("{}wa", pre))], a.clone()].concat());
        let key = format!("{} write of {}", ["locked", "free"][(i % 2) as usize], V::List(a.clone()).canon());
        expect(cx, key.clone(), "write", &got, if a.is_empty() { A::Err } else { A::V(V::s("")) }, &base, false)?;
        let there = std::fs::read_to_string(base.join("wa")).ok();
        let all: String = a.iter().map(|v| v.show()).collect();
        let first = a.first().map(|v| v.show());
        let good = match (&there, a.len()) {
            (None, 0) => true,
            (Some(x), n) if n > 0 => if i % 2 == 1 { *x == all } else { Some(x) == first.as_ref() },
            _ => false,
        };
        if !good {
            return viol(key, format!("the file is {:?}", there));
        }
        Ok(())
    }));
    // histories of reading and writing within one run
    let ops = ["write \"a\" \"1\"", "write \"a\" \"22\"", "write \"s/b\" \"3\"", "write \"s\" \"4\"", "write \"b\" (file \"a\")", "file \"a\"", "file \"b\"", "file \"s/b\"", "is_file \"a\"", "is_dir \"s\"", "len (dir \".\")"];
    let g = of(&(0..ops.len()).collect::<Vec<_>>()).seq(1, t.pick(3, 5));
    r.push(Space::new("histories", "every sequence of up to 3 (thorough 5) of 11 reads and writes in one template: each sees what those before it did, as in a plain model of files", g.n, move |i, cx| {
        let seq = g.at(i);
        let base = fresh(cx);
        let fm = func_man_folders(&base).with_write_lock(&base);
        let src: String = seq.iter().map(|o| format!("{{{{{}}}}};", ops[*o])).collect();
        // the model
        let mut fs = d(&[]);
        let mut out = Some(String::new());
        let p = |s: &str| s.split('/').map(|x| x.to_string()).collect::<Vec<_>>();
        let read = |fs: &N, s: &str| match fs.get(&p(s)) {
            Some(N::F(b)) => Some(String::from_utf8(b.clone()).unwrap()),
            _ => None,
        };
        for o in &seq {
            let step = match *o {
                0 => fs.put(&p("a"), b"1").then(String::new),
                1 => fs.put(&p("a"), b"22").then(String::new),
                2 => fs.put(&p("s/b"), b"3").then(String::new),
                3 => fs.put(&p("s"), b"4").then(String::new),
                4 => match read(&fs, "a") {
                    Some(x) => fs.put(&p("b"), x.as_bytes()).then(String::new),
                    None => None,
                },
                5 => read(&fs, "a"),
                6 => read(&fs, "b"),
                7 => read(&fs, "s/b"),
                8 => Some(matches!(fs.get(&p("a")), Some(N::F(_))).to_string()),
                9 => Some(matches!(fs.get(&p("s")), Some(N::D(_))).to_string()),
                _ => Some(if let N::D(m) = &fs { m.len().to_string() } else { unreachable!() }),
            };
            match step {
                Some(s) => out.as_mut().unwrap().push_str(&format!("{};", s)),
                None => {
                    out = None;
                    break;
                }
            }
            cx.trans(1);
        }
        let got = real_src(&src, &[], &fm);
        cx.trace();
        let after = snapshot(&base);
        cx.state(&(&after, &out));
        if out.is_some() {
            cx.nontrivial();
        }
        cx.sample(|| format!("{} -> {:?}", src, out));
        let same = match (&out, &got) {
            (Some(a), Real::Ok(b)) => *a == b.0,
            (None, Real::Err(_)) => true,
            _ => false,
        };
        if !same || after != fs {
            return viol(src, format!("gives {:?} and leaves {:?}; the model gives {:?} and leaves {:?}", got, after, out, fs));
        }
        Ok(())
    }));
    // templates from files
    let al = ["a", "{{", "}}", "$0", "let x=1", "/if", "if $0", "é", "\\"];
    let g = of(&al).seq(0, t.pick(4, 5));
    r.push(Space::new("load", "TreeTemplate::load of files with every 0-4 (thorough 5) of 9 pieces is the template of their text", g.n, move |i, cx| {
        let s = g.at(i).concat();
        let base = kept(cx);
        std::fs::write(base.join("t.ito"), &s).expect("file");
        let l = real(|| TreeTemplate::load(base.join("t.ito")));
        let p = parse(&s);
        cx.trace();
        cx.trans(1);
        cx.state(&s);
        match (&l, &p) {
            (Real::Ok(a), Real::Ok(b)) if format!("{:?}", a) == format!("{:?}", b) => {
                cx.nontrivial();
                Ok(())
            }
            (Real::Err(_), Real::Err(_)) => Ok(()),
            _ => viol(format!("load {:?}", s), format!("{:?} instead of {:?}", l, p)),
        }
    }));
    r.push(Space::new("load-bad", "missing file, folder, bytes that are no text: errors", 3, move |i, cx| {
        let base = fresh(cx);
        build(&base, &d(&[("bin", N::F(vec![b'a', 0xff])), ("dir", d(&[]))]));
        let n = ["gone", "dir", "bin"][i as usize];
        cx.trace();
        match real(|| TreeTemplate::load(base.join(n))) {
            Real::Err(_) => Ok(()),
            g => viol(format!("load {}", n), format!("{:?}", g)),
        }
    }));
    r.push(Space::new("listing-odd", "a name that is no text makes the listing an error; unreadable and non-folder paths are errors", 4 * 2, move |i, cx| {
        use std::os::unix::ffi::OsStrExt;
        use std::os::unix::fs::PermissionsExt;
        let base = fresh(cx);
        build(&base, &d(&[("x", d(&[("ok", f(""))])), ("f", f("")), ("p", d(&[("q", f("q"))]))]));
        let (fm, pre) = both_at(i % 2, &base);
        let p = |s: &str| vec![V::Str(format!("{}{}", pre, s))];
        let got = match i / 2 {
            0 => {
                std::fs::write(base.join("x").join(std::ffi::OsStr::from_bytes(&[b'a', 0xff])), "").expect("odd name");
                call_fn(&fm, "dir", &p("x"))
            }
            1 => call_fn(&fm, "dir", &p("f")),
            2 => call_fn(&fm, "scan_dir", &p("f")),
            _ => {
                if as_root() {
                    return Ok(());
                }
                std::fs::set_permissions(base.join("p"), std::fs::Permissions::from_mode(0o000)).expect("chmod");
                let g = call_fn(&fm, "dir", &p("p"));
                std::fs::set_permissions(base.join("p"), std::fs::Permissions::from_mode(0o755)).expect("chmod");
                g
            }
        };
        expect(cx, format!("listing-odd {}", i), "dir", &got, A::Err, &base, false)
    }));
    let g = crate::chars::placed();
    r.push(Space::new("every-name", "files and folders whose names hold every ASCII character and 40 others in 8 places: written, read, tested, listed, loaded, scanned; locked and free", g.n * 2, move |i, cx| {
        let x = g.at(i / 2);
        if x.contains(['/', '\0']) || x == "." || x == ".." {
            return Ok(());
        }
        let base = fresh(cx);
        let (fm, pre) = both_at(i % 2, &base);
        let p = |n: &str| V::Str(format!("{}{}", pre, n));
        let key = |f: &str| format!("{} {} with the name {:?}", ["locked", "free"][(i % 2) as usize], f, x);
        let txt = format!("[{}]", x);
        let got = call_fn(&fm, "write", &[p(&x), V::s(&txt)]);
        expect(cx, key("write"), "write", &got, A::V(V::s("")), &base, false)?;
        let there = snapshot(&base);
        if there != N::D([(x.clone(), N::F(txt.clone().into_bytes()))].into_iter().collect()) {
            return viol(key("write"), format!("leaves {:?}", there));
        }
        std::fs::create_dir(base.join("a-dir")).expect("dir");
        std::fs::create_dir(base.join("a-dir").join(&x)).expect("dir");
        std::fs::write(base.join("a-dir").join(&x).join(&x), &txt).expect("file");
        let deep = format!("a-dir/{}/{}", x, x);
        for f in [x.as_str(), deep.as_str()] {
            expect(cx, key("file"), "file", &call_fn(&fm, "file", &[p(f)]), A::V(V::s(&txt)), &base, false)?;
            expect(cx, key("file_bytes"), "file_bytes", &call_fn(&fm, "file_bytes", &[p(f)]), A::V(V::Bytes(txt.clone().into_bytes())), &base, false)?;
            expect(cx, key("is_file"), "is_file", &call_fn(&fm, "is_file", &[p(f)]), A::V(V::Bool(true)), &base, false)?;
            expect(cx, key("is_dir"), "is_dir", &call_fn(&fm, "is_dir", &[p(f)]), A::V(V::Bool(false)), &base, false)?;
        }
        let mut want = vec![x.clone(), "a-dir".to_string()];
        want.sort();
        want.dedup();
        for (dir, want) in [(pre.as_str(), want), (&format!("{}a-dir", pre), vec![x.clone()]), (&format!("{}a-dir/{}", pre, x), vec![x.clone()])] {
            let got = call_fn(&fm, "dir", &[V::s(dir)]);
            let names = match &got {
                Real::Ok(V::List(l)) => {
                    let mut n: Vec<String> = l.iter().map(|v| v.show()).collect();
                    n.sort();
                    n
                }
                _ => vec!["?".into()],
            };
            if names != want {
                return viol(key("dir"), format!("gives {}, should list {:?}", rv(&got), want));
            }
        }
        expect(cx, key("is_dir"), "is_dir", &call_fn(&fm, "is_dir", &[p(&format!("a-dir/{}", x))]), A::V(V::Bool(true)), &base, false)?;
        Ok(())
    }));
    r
}

// ------------------------------------------------------------ C27
#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Defaults,
    FolderA,
    FolderB,
    Free,
    Exec,
    WriteA,
    WriteB,
}
const BUILDERS: [B; 7] = [B::Defaults, B::FolderA, B::FolderB, B::Free, B::Exec, B::WriteA, B::WriteB];
struct Caps {
    base: PathBuf,
    model: N,
}
fn caps_tree() -> N {
    let one = |n: &str, w: u32| d(&[("who", f(n)), (&format!("only{}", n), f("")), ("i.png", N::F(png(w, 1)))]);
    d(&[("A", one("A", 1)), ("B", one("B", 2)), ("C", one("C", 3)), ("secret", f("SECRET"))])
}
fn caps(cx: &Ctx) -> Caps {
    let base = cx.scratch.parent().expect("scratch").join(format!("caps{}-{}", cx.thread, std::process::id()));
    let model = caps_tree();
    if !base.exists() {
        build(&base, &model);
    }
    Caps { base: std::fs::canonicalize(base).expect("caps"), model }
}
fn make(seq: &[B], base: &Path) -> BasicFuncs {
    let mut fm = BasicFuncs::new();
    for b in seq {
        fm = match b {
            B::Defaults => fm.with_defaults(),
            B::FolderA => fm.with_folder_lock(base.join("A")),
            B::FolderB => fm.with_folder_lock(base.join("B")),
            B::Free => fm.with_free_files(),
            B::Exec => fm.with_exec(),
            B::WriteA => fm.with_write_lock(base.join("A")),
            B::WriteB => fm.with_write_lock(base.join("B")),
        };
    }
    fm
}
fn names_of(fm: &BasicFuncs) -> Vec<String> {
    let l = std::cell::RefCell::new(vec![]);
    fm.for_each(|k, _| l.borrow_mut().push(k.clone()));
    l.into_inner()
}
pub const DEFAULT_NAMES: &[&str] = &[
    "add", "and", "append", "as_base64", "base_name", "base_name_sure", "bin_get", "bin_search", "bread_crumbs", "cat", "cxyrr", "debug", "div", "eq", "eq_any", "filter", "fl_stk", "font", "from_base64", "full_stem", "get", "groups", "gt", "gte", "html_esc",
    "index_of", "is_null", "is_num", "join", "join_with", "len", "list", "lt", "lte", "map", "max", "md", "min", "mod", "mul", "nand", "neq", "nor", "or", "parent", "r_card", "r_json", "rand", "regex", "slice", "sort", "sort_on", "split", "stem",
    "str_contains", "str_replace", "str_replace_n", "string_from_ints", "sub", "table", "type_of", "w_json", "with_ext", "word_wrap", "xml_esc", "xy", "xy12", "xywh",
];
const FOLDER_NAMES: [&str; 7] = ["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions"];
const POWERS: [&str; 11] = ["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions", "write", "exec", "exec_stdin", "env"];

/// which provider of each name is in force
fn in_force(seq: &[B]) -> BTreeMap<&'static str, B> {
    let mut m = BTreeMap::new();
    for b in seq {
        match b {
            B::Defaults => {}
            B::FolderA | B::FolderB => FOLDER_NAMES.iter().for_each(|n| {
                m.insert(*n, *b);
            }),
            B::Free => FOLDER_NAMES.iter().chain(&["write"]).for_each(|n| {
                m.insert(*n, *b);
            }),
            B::Exec => ["exec", "exec_stdin", "env"].iter().for_each(|n| {
                m.insert(*n, *b);
            }),
            B::WriteA | B::WriteB => {
                m.insert("write", *b);
            }
        }
    }
    m
}
/// which folder a file function of the manager works in, found out by calling it
fn probe(fm: &BasicFuncs, name: &str) -> Real<V> {
    match name {
        "file" | "file_bytes" => call_fn(fm, name, &[V::s("who")]).map(|v| if let V::Bytes(b) = v { V::Str(String::from_utf8_lossy(&b).to_string()) } else { v }),
        "is_file" => {
            let hits: Vec<String> = ["A", "B", "C"].iter().filter(|n| matches!(call_fn(fm, name, &[V::Str(format!("only{}", n))]), Real::Ok(V::Bool(true)))).map(|s| s.to_string()).collect();
            Real::Ok(V::Str(hits.concat()))
        }
        "is_dir" => Real::Ok(call_fn(fm, name, &[V::s("..")]).map(|_| V::s("C")).ok().unwrap_or(V::s("locked"))),
        "dir" => match call_fn(fm, name, &[V::s(".")]) {
            Real::Ok(V::List(l)) => Real::Ok(V::Str(l.iter().filter_map(|v| v.show().strip_prefix("only").map(|s| s.to_string())).collect())),
            o => o,
        },
        "scan_dir" => match call_fn(fm, name, &[V::s(".")]) {
            Real::Ok(V::List(l)) => Real::Ok(V::Str(l.iter().filter_map(|v| if let V::Map(m) = v { m["item_file"].show().strip_prefix("only").map(|s| s.to_string()) } else { None }).collect())),
            o => o,
        },
        "file_img_dimensions" => match call_fn(fm, name, &[V::s("i.png")]) {
            Real::Ok(V::Map(m)) => Real::Ok(V::s(match m["w"].show().as_str() {
                "1" => "A",
                "2" => "B",
                "3" => "C",
                _ => "?",
            })),
            o => o,
        },
        "exec" => call_fn(fm, name, &[V::s("echo"), V::s("-n"), V::s("C")]),
        "exec_stdin" => call_fn(fm, name, &[V::s("cat"), V::s("C")]),
        "env" => call_fn(fm, name, &[V::s("MC_NOT_SET"), V::s("C")]),
        _ => unreachable!(),
    }
}
pub fn c27(t: Tier) -> Vec<Space> {
    let mut r = vec![];
    let g = of(&BUILDERS).seq(0, t.pick(3, 5));
    r.push(Space::new("managers", "every sequence of up to 3 (thorough 5) of 7 grants (defaults, two folder locks, free files, exec, two write locks): exactly the granted functions are there, and each works in the folder of the grant made last", g.n, move |i, cx| {
        let seq = g.at(i);
        let c = caps(cx);
        go(cx.scratch.parent().expect("scratch"), &[]);
        let fm = make(&seq, &c.base);
        cx.trace();
        let key = format!("{:?}", seq);
        let force = in_force(&seq);
        let mut want: BTreeSet<String> = force.keys().map(|s| s.to_string()).collect();
        if seq.contains(&B::Defaults) {
            want.extend(DEFAULT_NAMES.iter().map(|s| s.to_string()));
        }
        let got: BTreeSet<String> = names_of(&fm).into_iter().collect();
        cx.state(&got);
        cx.sample(|| format!("{} -> {} functions, {:?}", key, got.len(), force));
        // functions which work on nothing but their arguments may be added
        let new: Vec<&String> = got.difference(&want).filter(|n| POWERS.contains(&n.as_str()) || !seq.contains(&B::Defaults)).collect();
        if !new.is_empty() {
            return viol(key, format!("also provides {:?}", new));
        }
        if let Some(m) = want.difference(&got).next() {
            return viol(key, format!("does not provide {}", m));
        }
        for n in POWERS {
            cx.trans(1);
            let f = force.get(n);
            if f.is_none() {
                // not granted: the name is unknown to templates
                if fm.get_func(n).is_some() || !matches!(real_src(&format!("{{{{{} \"who\" \"who\"}}}}", n), &[], &fm), Real::Err(_)) {
                    return viol(key, format!("{} can be used", n));
                }
                continue;
            }
            cx.nontrivial();
            if n == "write" {
                continue;
            }
            let f = f.unwrap();
            if *f == B::Free && n == "is_file" {
                continue; // relative to the working folder, which all threads share
            }
            let got = probe(&fm, n);
            let want = match (n, f) {
                ("is_dir", B::FolderA) | ("is_dir", B::FolderB) => "locked",
                (_, B::FolderA) => "A",
                (_, B::FolderB) => "B",
                (_, B::Free) if n != "is_dir" => continue,
                _ => "C",
            };
            match &got {
                Real::Ok(v) if v.show() == want => {}
                g => return viol(key, format!("{} answers {} where {} was granted", n, rv(g), want)),
            }
        }
        Ok(())
    }));
    // the same with effects: one case at a time, in the folder C
    let g = of(&[B::FolderA, B::FolderB, B::Free, B::WriteA, B::WriteB]).seq(0, t.pick(3, 4));
    r.push(
        Space::new("managers-effects", "every sequence of up to 3 (thorough 4) of 5 file grants, from the folder C: what is read and where writing writes", g.n, move |i, cx| {
            let seq = g.at(i);
            let c = caps(cx);
            let key = format!("{:?} from C", seq);
            go(&c.base, &["C".to_string()]);
            let fm = make(&seq, &c.base);
            let force = in_force(&seq);
            cx.trace();
            for n in POWERS {
                let f = match force.get(n) {
                    Some(f) => *f,
                    None => continue,
                };
                cx.nontrivial();
                cx.trans(1);
                let folder = match f {
                    B::FolderA | B::WriteA => "A",
                    B::FolderB | B::WriteB => "B",
                    _ => "C",
                };
                if n == "write" {
                    for p in ["new.txt", "../out.txt", "who"] {
                        let got = call_fn(&fm, "write", &[V::s(p), V::s("W")]);
                        let after = snapshot(&c.base);
                        let mut want = c.model.clone();
                        let out = p == "../out.txt";
                        if !out || folder == "C" {
                            let path: Vec<String> = if out { vec!["out.txt".into()] } else { vec![folder.into(), p.into()] };
                            want.put(&path, b"W");
                        }
                        if after != c.model {
                            std::env::set_current_dir("/").expect("chdir");
                            std::fs::remove_dir_all(&c.base).expect("clean");
                            build(&c.base, &c.model);
                            go(&c.base, &["C".to_string()]);
                        }
                        let ok = matches!(got, Real::Ok(_));
                        if after != want || ok != (want != c.model) {
                            return viol(key, format!("write {:?} where {} was granted: {}, and leaves {:?}", p, folder, rv(&got), after));
                        }
                    }
                    continue;
                }
                let got = probe(&fm, n);
                let want = if n == "is_dir" && folder != "C" { "locked" } else { folder };
                cx.state(&(n, want));
                match &got {
                    Real::Ok(v) if v.show() == want => {}
                    g => return viol(key, format!("{} answers {} where {} was granted", n, rv(g), want)),
                }
                // beyond the folder
                for p in ["../secret", "../B/who", "../A/who"] {
                    let got = call_fn(&fm, n, &[V::s(p)]);
                    if folder != "C" && (rv(&got).contains("SECRET") || matches!(&got, Real::Ok(v) if v.canon() != "false")) {
                        return viol(key, format!("{} {:?} answers {}", n, p, rv(&got)));
                    }
                }
            }
            cx.sample(|| key.clone());
            Ok(())
        })
        .serial(),
    );
    // default functions reach no file, whatever they are given
    let c0 = |cx: &Ctx| caps(cx);
    let nd = DEFAULT_NAMES.len() as u64;
    let av: Vec<&'static str> = vec!["PATH", "../secret", "secret", "{{file \"secret\"}}", "file \"secret\"", "$PATH", "file:secret", "|x|\n", "a"];
    let g = of(&av).seq(0, t.pick(2, 3));
    r.push(Space::new("defaults-no-files", "every default function with every 0-2 (thorough 3) of 9 texts that name a file with a secret in it, as functions and blocks: the secret is never shown, nothing is written", nd * g.n * 2, move |i, cx| {
        let c = c0(cx);
        let mut dd = Digits(i);
        let name = DEFAULT_NAMES[dd.take(nd) as usize];
        let how = dd.take(2);
        let path = c.base.join("secret").display().to_string();
        let args: Vec<V> = g.at(dd.take(g.n)).iter().map(|a| V::Str(a.replace("PATH", &path))).collect();
        let got = if how == 0 {
            call_fn(&cx.fm, name, &args)
        } else {
            let p = args.iter().enumerate().skip(1).map(|(n, _)| format!(" ${}", n)).collect::<String>();
            real_src(&format!("{{{{@{}{}}}}}{{{{$0}}}}{{{{/{}}}}}", name, p, name), &args, &cx.fm).map(|o| V::Str(o.0))
        };
        cx.trace();
        cx.trans(1);
        cx.state(&rv(&got));
        if matches!(got, Real::Ok(_)) {
            cx.nontrivial();
        }
        let key = key_call(name, &args).replace(&c.base.display().to_string(), "BASE");
        cx.sample(|| format!("{} -> {}", key, rv(&got)).chars().take(200).collect());
        if rv(&got).contains("SECRET") {
            return viol(key, format!("shows what is in a file: {}", rv(&got)));
        }
        if i % 64 == 0 && snapshot(&c.base) != c.model {
            return viol(key, "changes files");
        }
        Ok(())
    }));
    // text from elsewhere that is evaluated: front matter of scanned files and filter expressions
    let exprs: Vec<String> = vec![
        "file \"secret\"", "file \"../secret\"", "file \"BASE/secret\"", "file_bytes \"BASE/secret\"", "dir \"BASE\"", "dir \"..\"", "is_file \"BASE/secret\"", "is_dir \"BASE\"", "scan_dir \"BASE\"", "scan_dir \"..\"", "file_img_dimensions \"BASE/A/i.png\"", "write \"BASE/pwn\" \"x\"",
        "write \"pwn\" \"x\"", "exec \"cat\" \"BASE/secret\"", "exec \"touch\" \"BASE/pwn\"", "exec_stdin \"cat\" \"SECRET\"", "env \"MC_SECRET\"", "env \"MC_SECRET\" \"d\"", "env \"PATH\"",
        // names in the working folder
        "file \"who\"", "file_bytes \"who\"", "is_file \"nosuch\"", "is_file \"who\"", "is_dir \".\"", "is_dir \"nosuch\"", "dir \".\"", "scan_dir \".\"", "file_img_dimensions \"i.png\"", "exec \"true\"", "exec_stdin \"true\" \"\"", "env \"NOSUCH\" \"\"", "env \"NOSUCH\" null",
    ]
    .into_iter()
    .map(|s| s.to_string())
    .collect();
    let forms: Vec<&'static str> = vec![
        "{{export x = EXPR}}", "{{let y = EXPR}}{{export x = $y}}", "{{@export x}}{{EXPR}}{{/export}}", "{{global x}}{{EXPR}}{{/global}}{{export x = x}}", "{{define g}}{{EXPR}}{{/define}}{{export x = run $g}}", "{{export x = (cat (EXPR) \"t\")}}", "{{return EXPR}}", "{{export x = first $none (EXPR)}}",
        "{{if EXPR}}{{export x=\"SECRET\"}}{{/if}}",
        // anything at all that the expression gives
        "{{export x = (len (list (EXPR)))}}", "{{export x = (type_of (EXPR))}}",
    ];
    let managers: Vec<Vec<B>> = vec![
        vec![B::FolderA],
        vec![B::Free],
        vec![B::Defaults, B::FolderA, B::Exec, B::WriteA],
        vec![B::Defaults, B::Free, B::Exec],
        vec![B::Exec, B::WriteB, B::FolderA],
        vec![B::Free, B::FolderA, B::Exec, B::Defaults],
    ];
    let (ne, nf, nm) = (exprs.len() as u64, forms.len() as u64, managers.len() as u64);
    let (ex2, mg2) = (exprs.clone(), managers.clone());
    r.push(
        Space::new("scanned-files", "32 expressions that use files, programs or the environment x 11 ways to put one into a file x 6 managers that may do all that: scanning the file does not do it", ne * nf * nm, move |i, cx| {
            let mut dd = Digits(i);
            let c = caps(cx);
            go(&c.base, &["C".to_string()]);
            let e = dd.pick(&ex2).replace("BASE", &c.base.display().to_string());
            let fo = *dd.pick(&forms);
            let m = dd.pick(&mg2).clone();
            let text = fo.replace("EXPR", &e);
            let s = c.base.join("A/scan");
            std::fs::create_dir_all(&s).expect("scan");
            std::fs::write(s.join("page.md"), &text).expect("page");
            let fm = make(&m, &c.base);
            let arg = if m.contains(&B::FolderA) { "scan".to_string() } else { s.display().to_string() };
            let got = call_fn(&fm, "scan_dir", &[V::Str(arg)]);
            std::fs::remove_dir_all(&s).expect("scan");
            let clean = snapshot(&c.base) == c.model;
            cx.trace();
            cx.trans(1);
            cx.state(&text);
            let key = format!("scan_dir over {:?} with {:?}", text, m).replace(&c.base.display().to_string(), "BASE");
            cx.sample(|| format!("{} -> {}", key, rv(&got)));
            match &got {
                Real::Ok(V::List(l)) if l.len() == 1 => {
                    cx.nontrivial();
                    if !clean {
                        return viol(key, "changes files");
                    }
                    if let V::Map(m) = &l[0] {
                        let ok = m.get("x").map_or(true, |x| x.canon() == "null" || x.show().is_empty());
                        if ok && !rv(&got).contains("SECRET") {
                            return Ok(());
                        }
                    }
                    viol(key, format!("what should not be available is: {}", rv(&got)))
                }
                g => viol(key, format!("should list the file: {}", rv(g))),
            }
        })
        .serial(),
    );
    r.push(
        Space::new("filters", "the same expressions as filter criteria, alone and within others, for the 6 managers with the defaults added", ne * 5 * nm, move |i, cx| {
            let mut dd = Digits(i);
            let c = caps(cx);
            go(&c.base, &["C".to_string()]);
            let e = dd.pick(&exprs).replace("BASE", &c.base.display().to_string());
            let e = match dd.take(5) {
                0 => e,
                3 => format!("gt (len (list ({}))) 0", e),
                4 => format!("eq (type_of ({0})) (type_of ({0}))", e),
                1 => format!("eq (cat ({})) \"x\"", e),
                _ => format!("or true ({})", e),
            };
            let m = [vec![B::Defaults], dd.pick(&managers).clone()].concat();
            let fm = make(&m, &c.base);
            let got = call_fn(&fm, "filter", &[V::List(vec![V::UInt(1)]), V::s(&e)]);
            let clean = snapshot(&c.base) == c.model;
            cx.trace();
            cx.trans(1);
            cx.state(&e);
            let key = format!("filter by {:?} with {:?}", e, m).replace(&c.base.display().to_string(), "BASE");
            cx.sample(|| format!("{} -> {}", key, rv(&got)));
            if !clean {
                std::fs::remove_file(c.base.join("pwn")).ok();
                return viol(key, "changes files");
            }
            match &got {
                Real::Ok(V::List(l)) if l.is_empty() => Ok(()),
                Real::Err(_) => Ok(()),
                g => viol(key, format!("the criteria can use what they should not: {}", rv(g))),
            }
        })
        .serial(),
    );
    r
}

// ------------------------------------------------------------ C28
pub fn c28(t: Tier) -> Vec<Space> {
    let fm = || default_func_man().with_exec();
    let mut r = vec![];
    let mut words: Vec<V> = ["", "a", "two words", "$HOME", "*", "'", "\"", "`id`", ";echo x", "|cat", "&&", "-n", "\\n", "a\nb", "é漢🎉", "~", "{{x}}", "$(id)", ">f", "%s", "#"].iter().map(|s| V::s(s)).collect();
    words.extend([V::Int(-3), V::Float(1.5), V::Null, V::Bool(true), V::List(vec![V::UInt(1), V::s("x y")]), V::map(&[("k", V::s("v"))])]);
    let w2 = words.clone();
    let g = alt(vec![of(&words).seq(0, 2), of(&words[..t.pick(4, 8)]).seq(3, t.pick(3, 4))]);
    r.push(Space::new("arguments", "exec with every 0-2 of 27 arguments, and 3 (thorough 4) of 4 (thorough 8): the program gets each exactly, one by one, and no shell sees them", g.n, move |i, cx| {
        let a = g.at(i);
        let fm = fm();
        let args: Vec<V> = [vec![V::s("sh"), V::s("-c"), V::s("printf '%s.' \"$#\"; printf '<%s>' \"$@\""), V::s("sh")], a.clone()].concat();
        let got = call_fn(&fm, "exec", &args);
        let want = format!("{}.{}", a.len(), if a.is_empty() { "<>".to_string() } else { a.iter().map(|v| format!("<{}>", v.show())).collect() });
        exp(cx, key_call("exec", &args), &got, Some(V::Str(want)))
    }));
    let g = of(&w2).seq(0, t.pick(1, 2)).x(&of(&w2));
    r.push(Space::new("arguments-stdin", "exec_stdin with 27 texts and every 0-1 (thorough 2) arguments: the program reads exactly the text", g.n, move |i, cx| {
        let (a, text) = g.at(i);
        let fm = fm();
        let args: Vec<V> = [vec![V::s("sh"), text.clone(), V::s("-c"), V::s("printf '%s.' \"$#\"; printf '<%s>' \"$@\"; cat"), V::s("sh")], a.clone()].concat();
        let got = call_fn(&fm, "exec_stdin", &args);
        let want = format!("{}.{}{}", a.len(), if a.is_empty() { "<>".to_string() } else { a.iter().map(|v| format!("<{}>", v.show())).collect() }, text.show());
        exp(cx, key_call("exec_stdin", &args), &got, Some(V::Str(want)))
    }));
    // amounts of data against programs that read none, some, all of it, before or after writing
    let sizes: Vec<usize> = vec![0, 1, 2, 100, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000, t.pick(500_000, 5_000_000)];
    let progs: Vec<&'static str> = vec!["cat", "exec 0<&-; echo done", "true", "head -c 10", "head -c 70000 /dev/zero | tr '\\0' x; cat", "cat >/dev/null; echo read", "head -c 1 >/dev/null; exec 0<&-; head -c 100000 /dev/zero | tr '\\0' y", "cat; echo end", "exec 1>&-; cat >/dev/null", "sleep 0.02; cat", "cat >&2", "exit 3", "cat; exit 5", "cat; kill -9 $$"];
    let (ns, np) = (sizes.len() as u64, progs.len() as u64);
    r.push(Space::new("pipes", "13 amounts of data around the size of a pipe x 14 programs that read all, part or none of it, slowly, after closing, before or after writing much themselves: answered with what the program wrote", ns * np, move |i, cx| {
        let n = sizes[(i / np) as usize];
        let p = progs[(i % np) as usize];
        let data: String = "abcdefghij".chars().cycle().take(n).collect();
        let fm = fm();
        let got = call_fn(&fm, "exec_stdin", &[V::s("sh"), V::s(&data), V::s("-c"), V::s(&p.replace("cat >&2", "cat >/dev/null"))]);
        let want = match p {
            "cat" | "sleep 0.02; cat" | "cat; exit 5" | "cat; kill -9 $$" => data.clone(),
            "exec 0<&-; echo done" => "done\n".into(),
            "true" | "exec 1>&-; cat >/dev/null" | "cat >&2" | "exit 3" => String::new(),
            "head -c 10" => data.chars().take(10).collect(),
            "cat >/dev/null; echo read" => "read\n".into(),
            "cat; echo end" => format!("{}end\n", data),
            x if x.contains(" x; cat") => format!("{}{}", "x".repeat(70000), data),
            _ => "y".repeat(100000),
        };
        exp(cx, format!("exec_stdin {:?} with {} bytes", p, n), &got, Some(V::Str(want)))
    }));
    let sz: Vec<usize> = (0..=20).chain([4096, 65536, 65537, 300_000, t.pick(1_000_000, 10_000_000)]).collect();
    let nsz = sz.len() as u64;
    r.push(Space::new("output", "programs that write n bytes, with and without an exit status and output to the error stream: all of it", nsz * 4, move |i, cx| {
        let n = sz[(i / 4) as usize];
        let fm = fm();
        let tail = ["", "; exit 1", "; head -c 100000 /dev/zero >&2", "; kill -9 $$"][(i % 4) as usize];
        let src = format!("(head -c {} /dev/zero | tr '\\0' z){}", n, tail.replace(">&2", ">/dev/null"));
        let got = call_fn(&fm, "exec", &[V::s("sh"), V::s("-c"), V::s(&src)]);
        exp(cx, format!("exec {}", src), &got, Some(V::Str("z".repeat(n))))
    }));
    let bytes = [0u8, b'a', b'\n', 0xc3, 0xa9, 0xff];
    let g = of(&bytes).seq(0, t.pick(3, 4));
    r.push(Space::new("bytes", "programs that write every 0-3 (thorough 4) of 6 bytes: text, or an error if it is none", g.n * 2, move |i, cx| {
        let b = g.at(i / 2);
        let fm = fm();
        let fmt: String = b.iter().map(|x| format!("\\{:03o}", x)).collect();
        let got = if i % 2 == 0 { call_fn(&fm, "exec", &[V::s("printf"), V::s(&fmt)]) } else { call_fn(&fm, "exec_stdin", &[V::s("printf"), V::s("in"), V::s(&fmt)]) };
        let want = if b.is_empty() { Some(V::s("")) } else { String::from_utf8(b.clone()).ok().map(V::Str) };
        exp(cx, format!("{} printf {:?}", ["exec", "exec_stdin"][(i % 2) as usize], b), &got, want)
    }));
    r.push(Space::new("failures", "no arguments, too few, a program that is none, is a folder or may not be run: errors", 12, move |i, cx| {
        let fm = fm();
        let p = kept(cx).join("plain");
        std::fs::write(&p, "echo x").expect("file");
        let v: Vec<V> = match i / 2 {
            0 => vec![],
            1 => vec![V::s("/nonexistent/program"), V::s("x")],
            2 => vec![V::s(""), V::s("x")],
            3 => vec![V::s("/"), V::s("x")],
            4 => vec![V::Str(p.display().to_string()), V::s("x")],
            _ => vec![V::s("echo\0"), V::s("x")],
        };
        let name = ["exec", "exec_stdin"][(i % 2) as usize];
        let got = call_fn(&fm, name, &v);
        exp(cx, key_call(name, &v), &got, None)
    }));
    r.push(Space::new("few-args", "exec_stdin with one argument is an error, exec is not", 2, move |i, cx| {
        let fm = fm();
        let name = ["exec", "exec_stdin"][i as usize];
        let got = call_fn(&fm, name, &[V::s("true")]);
        exp(cx, format!("{} true", name), &got, if i == 0 { Some(V::s("")) } else { None })
    }));
    // environment
    let names: Vec<V> = ["MC_SET", "MC_EMPTY", "MC_UTF", "MC_BAD", "MC_NOT_SET", "", "MC_SET=", "=", "mc_set", "MC SET", "MC_SET\0", "$MC_SET"].iter().map(|s| V::s(s)).chain([V::UInt(7), V::Null]).collect();
    let g = of(&names).x(&alt(vec![of(&[vec![]]), of(&crate::ctl::kinds()).map(|v| vec![v]), of(&[vec![V::s("d"), V::s("e")]])]));
    r.push(Space::new("environment", "14 names x no default, a default of each kind, two: the value if it is set (also if empty), else the default, else an error", g.n, move |i, cx| {
        let (n, d) = g.at(i);
        let fm = fm();
        let args = [vec![n.clone()], d.clone()].concat();
        let got = call_fn(&fm, "env", &args);
        let want = match n.show().as_str() {
            "MC_SET" => Some(V::s("value one")),
            "MC_EMPTY" => Some(V::s("")),
            "MC_UTF" => Some(V::s("é漢")),
            "7" => Some(V::s("seven")),
            _ => d.first().cloned(),
        };
        exp(cx, key_call("env", &args), &got, want)
    }));
    r.push(Space::new("env-none", "env without arguments is an error", 1, move |_, cx| {
        let fm = fm();
        let got = call_fn(&fm, "env", &[]);
        exp(cx, "env()".into(), &got, None)
    }));
    // once, in order
    let ops = ["A", "B", "C"];
    let st: Vec<String> = ops.iter().map(|o| format!("{{{{exec \"sh\" \"-c\" \"echo {} >>LOG; printf {}\"}}}}", o, o.to_lowercase())).chain([
        "{{if false}}{{exec \"sh\" \"-c\" \"echo N >>LOG\"}}{{/if}}".to_string(),
        "{{for i v in list 1 2}}{{exec_stdin \"sh\" \"L\" \"-c\" \"cat >>LOG; echo >>LOG\"}}{{/for}}".to_string(),
        "{{define d}}{{exec \"sh\" \"-c\" \"echo D >>LOG\"}}{{/define}}".to_string(),
        "{{first \"x\" (exec \"sh\" \"-c\" \"echo F >>LOG\")}}".to_string(),
    ]).collect();
    let effects: [(&str, &str); 7] = [("A\n", "a"), ("B\n", "b"), ("C\n", "c"), ("", ""), ("L\nL\n", ""), ("", ""), ("", "x")];
    let g = of(&(0..7usize).collect::<Vec<_>>()).seq(0, t.pick(3, 4));
    r.push(Space::new("order", "every sequence of up to 3 (thorough 4) of 7 statements that run a program, in loops, in branches not taken, in definitions not called: each runs exactly as often and in the order the template says", g.n, move |i, cx| {
        let seq = g.at(i);
        let fm = fm();
        let log = kept(cx).join("log");
        std::fs::write(&log, "").expect("log");
        let src: String = seq.iter().map(|n| st[*n].replace("LOG", &log.display().to_string())).collect();
        let got = real_src(&src, &[], &fm);
        let wrote = std::fs::read_to_string(&log).expect("log");
        let want: String = seq.iter().map(|n| effects[*n].0).collect();
        let shown: String = seq.iter().map(|n| effects[*n].1).collect();
        cx.trace();
        cx.trans(seq.len() as u64);
        cx.state(&wrote);
        cx.nontrivial();
        let key = format!("statements {:?}", seq);
        cx.sample(|| format!("{} -> {:?} {:?}", key, shown, want));
        match &got {
            Real::Ok(o) if o.0 == shown && wrote == want => Ok(()),
            g => viol(key, format!("{:?} and the programs ran {:?}; should be {:?} and {:?}", g, wrote, shown, want)),
        }
    }));
    let g = crate::chars::chars_g();
    r.push(Space::new("every-character", "every ASCII character but zero and 40 others in 8 places of an argument and of the input: the program gets exactly that", g.n, move |i, cx| {
        let c = g.at(i);
        if c == '\0' {
            return Ok(());
        }
        let all: Vec<V> = (0..crate::chars::SHAPES).map(|k| V::Str(crate::chars::shape(c, k))).collect();
        let fm = fm();
        let args: Vec<V> = [vec![V::s("sh"), V::s("-c"), V::s("printf '<%s>' \"$@\""), V::s("sh")], all.clone()].concat();
        let want: String = all.iter().map(|v| format!("<{}>", v.show())).collect();
        exp(cx, key_call("exec", &args), &call_fn(&fm, "exec", &args), Some(V::s(&want)))?;
        let args: Vec<V> = [vec![V::s("sh"), V::s(&want), V::s("-c"), V::s("printf '<%s>' \"$@\"; cat"), V::s("sh")], all].concat();
        exp(cx, key_call("exec_stdin", &args), &call_fn(&fm, "exec_stdin", &args), Some(V::Str(format!("{}{}", want, want))))?;
        let args = [V::s("cat"), V::Str(crate::chars::shape(c, 0))];
        exp(cx, key_call("exec_stdin", &args), &call_fn(&fm, "exec_stdin", &args), Some(args[1].clone()))
    }));
    r
}
fn exp(cx: &mut Ctx, key: String, got: &Real<V>, want: Option<V>) -> Res {
    cx.trace();
    cx.trans(1);
    let w = want.as_ref().map(|v| v.canon()).unwrap_or("error".into());
    cx.state(&w);
    if want.is_some() {
        cx.nontrivial();
    }
    cx.sample(|| format!("{} -> {}", key, w).chars().take(250).collect());
    let same = match (got, &want) {
        (Real::Ok(a), Some(b)) => a.same(b),
        (Real::Err(_), None) => true,
        _ => false,
    };
    if !same {
        let cut = |s: String| s.chars().take(500).collect::<String>();
        return viol(key, format!("gives {}, and should give {}", cut(rv(got)), cut(w)));
    }
    Ok(())
}
/// variables the checks look for
pub fn set_env() {
    use std::os::unix::ffi::OsStrExt;
    std::env::set_var("MC_SET", "value one");
    std::env::set_var("MC_EMPTY", "");
    std::env::set_var("MC_UTF", "é漢");
    std::env::set_var("7", "seven");
    std::env::set_var("MC_SECRET", "SECRET");
    std::env::set_var("MC_BAD", std::ffi::OsStr::from_bytes(&[0xff, 0xfe]));
    std::env::remove_var("MC_NOT_SET");
}
