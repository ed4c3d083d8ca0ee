//! C29 histories, faults and order: what one run may owe to another.
use crate::ast::*;
use crate::common::*;
use crate::ctl::l;
use crate::engine::*;
use crate::gen::*;
use crate::interp::World;
use crate::val::V;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use templito::func_man::{BasicFuncs, FuncAdder, FuncManager};
use templito::temp_man::{BasicTemps, NoTemplates, TempManager};
use templito::tparam::TCow;
use templito::{TData, TreeTemplate};

/// templates which leave something behind, if anything can
pub fn pool() -> Vec<(Tm, Vec<V>)> {
    let m = |b: Vec<It>| Tm { pnames: vec![], body: b };
    let fail = || It::Exp(cmd("fail", &[s("f")]));
    let show = |x: &str| It::Exp(cmd("first", &[var(x), s("-")]));
    let call = |x: &str| It::Exp(cmd("first", &[cmd(x, &[s("arg")]), s("none")]));
    vec![
        (m(vec![show("x"), It::Let(vec![("x".into(), s("X"))]), show("x"), It::Export(vec![("y".into(), s("Y"))]), show("y")]), vec![]),
        (m(vec![It::Global("g".into(), vec!["p".into()], vec![text("g1:"), show("p"), show("x"), show("y")]), call("g")]), vec![]),
        (m(vec![call("g"), call("h")]), vec![]),
        (m(vec![It::Global("g".into(), vec![], vec![text("g2")]), It::Let(vec![("x".into(), s("L"))]), fail()]), vec![]),
        (m(vec![It::Let(vec![("x".into(), s("L"))]), It::If(vec![(u(1), vec![It::Export(vec![("y".into(), s("E"))]), It::Global("h".into(), vec![], vec![call("g"), text("!")]), fail()])], None)]), vec![]),
        (m(vec![It::AtLet("x".into(), vec![show("0"), call("h")]), show("x"), It::Return(s("ret"))]), vec![V::s("P")]),
        (m(vec![It::Define("g".into(), vec![], vec![text("local"), It::Export(vec![("z".into(), u(1))])]), It::Exp(cmd("run", &[var("g")])), call("g")]), vec![]),
        (m(vec![It::For("x".into(), "y".into(), var("0"), vec![It::Exp(cmd("trace", &[var("y")])), It::Global("g".into(), vec![], vec![text("in loop")])]), show("x"), show("y")]), vec![V::List(vec![V::s("a"), V::s("b")])]),
        (m(vec![It::As(var("0"), Pt::Map(vec![("k".into(), Pt::Cap("x".into(), None))]), vec![show("x"), call("g")]), show("x")]), vec![V::map(&[("k", V::UInt(3))])]),
        (m(vec![It::Block("trace".into(), vec![var("@"), s("e")], vec![text("blk")]), show("@"), It::Block("g".into(), vec![], vec![text("body")])]), vec![]),
        (m(vec![show("0"), show("1"), It::Switch(var("0"), vec![(vec![Pt::Val(V::s("P"))], vec![call("g"), fail()]), (vec![Pt::Any], vec![call("h")])])]), vec![V::s("Q"), V::Null]),
        (m(vec![show("0"), It::Let(vec![("f".into(), cmd("list", &[var("0"), cmd("trace", &[s("t")])]))]), It::Define("g".into(), vec!["q".into()], vec![show("q"), call("h"), call("g")]), It::Exp(cmd("run", &[var("g"), s("w")])), text(";")]), vec![V::Float(0.5)]),
    ]
}
fn shown(r: &Result<(String, BTreeMap<String, V>), String>) -> String {
    match r {
        Ok(o) => outs(o),
        Err(_) => "an error".into(),
    }
}
pub fn agree(want: &Result<(String, BTreeMap<String, V>), String>, got: &Real<Out>) -> bool {
    match (want, got) {
        (Ok(a), Real::Ok(b)) => a.0 == b.0 && V::Map(a.1.clone()).same(&V::Map(b.1.clone())),
        (Err(_), Real::Err(_)) => true,
        _ => false,
    }
}
/// a manager which records what it is asked and can fail at the n-th look-up
#[derive(Default)]
struct Recorder {
    t: HashMap<String, TreeTemplate>,
    log: Vec<String>,
    gets: usize,
    fault: Option<usize>,
}
impl TempManager for Recorder {
    fn insert_t(&mut self, k: String, t: TreeTemplate) {
        self.log.push(format!("insert {}", k));
        self.t.insert(k, t);
    }
    fn get_t(&mut self, k: &str) -> anyhow::Result<&TreeTemplate> {
        self.log.push(format!("get {}", k));
        self.gets += 1;
        if self.fault == Some(self.gets - 1) {
            return Err(anyhow::Error::msg("fault"));
        }
        self.t.get(k).ok_or_else(|| anyhow::Error::msg("none"))
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
fn f_a<'a>(_: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    Ok(TCow::Owned(TData::String("fa".into())))
}
fn f_b<'a>(_: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    Ok(TCow::Owned(TData::String("fb".into())))
}
/// what a manager prints, with standard output turned to a file
fn printed(cx: &Ctx, f: impl FnOnce()) -> String {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    std::fs::create_dir_all(&cx.scratch).expect("scratch");
    let p = cx.scratch.join("printed");
    let file = std::fs::File::create(&p).expect("printed");
    std::io::stdout().flush().ok();
    unsafe {
        let old = libc::dup(1);
        libc::dup2(file.as_raw_fd(), 1);
        f();
        std::io::stdout().flush().ok();
        libc::dup2(old, 1);
        libc::close(old);
    }
    std::fs::read_to_string(&p).expect("printed")
}

pub fn c29(t: Tier) -> Vec<Space> {
    let mut r = vec![];
    let n = pool().len();
    // every history of runs which share their managers
    let ops = of(&(0..n).collect::<Vec<_>>()).x(&of(&[0usize, 1, 2]));
    let g = ops.seq(1, t.pick(3, 4));
    r.push(Space::new("histories", "every history of up to 3 (thorough 4) of 12 templates x run, run with exports, front matter, over one template manager and one function manager: each is what the reference gives knowing only the global templates registered before", g.n, move |i, cx| {
        let seq = g.at(i);
        let p = pool();
        let parsed: Vec<TreeTemplate> = p.iter().map(|(t, _)| parse(&source(&t.body)).ok().expect("pool parses")).collect();
        let before: Vec<String> = seq.iter().map(|(k, _)| format!("{:?}", parsed[*k])).collect();
        let mut w = World::new();
        let mut temps = BasicTemps::new();
        let key = format!("history {:?}", seq);
        for (step, (k, how)) in seq.iter().enumerate() {
            let (t, ps) = &p[*k];
            w.steps = 0;
            w.calls.clear();
            take_log();
            let at = |m: String| viol(format!("{} step {}: {}", key, step, source(&t.body)), m);
            if *how == 2 {
                let want = World::front_matter(t).0;
                let got = real(|| Ok::<_, Msg>(parsed[*k].front_matter(&cx.fm))).map(|m| V::Map(m.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()));
                cx.trace();
                match &got {
                    Real::Ok(v) if v.same(&V::Map(want.clone())) => {}
                    g => return at(format!("front matter {} should be {}", rv(g), V::Map(want).canon())),
                }
                continue;
            }
            let want = w.run(t, ps);
            assert!(!w.out_of_fuel());
            cx.trans(w.steps);
            let got = if *how == 0 {
                real_run(&parsed[*k], ps, &mut temps, &cx.fm)
            } else {
                let tds: Vec<_> = ps.iter().map(|p| p.td()).collect();
                let pr: Vec<&dyn templito::TParam> = tds.iter().map(|p| p as &dyn templito::TParam).collect();
                real(|| parsed[*k].run(&pr, &mut temps, &cx.fm)).map(|s| (s, want.as_ref().map(|w| w.1.clone()).unwrap_or_default()))
            };
            cx.trace();
            if want.is_ok() {
                cx.nontrivial();
            }
            let mut names: Vec<_> = temps.keys().cloned().collect();
            names.sort();
            cx.state(&(shown(&want), &names));
            if !agree(&want, &got) {
                return at(format!("the reference gives {}; templito gives {:?}", shown(&want), got));
            }
            if take_log() != w.calls {
                return at(format!("functions called differ from {:?}", w.calls));
            }
            if names != w.globals.as_ref().unwrap().keys().cloned().collect::<Vec<_>>() {
                return at(format!("registered templates are {:?}", names));
            }
        }
        cx.sample(|| key.clone());
        for ((k, _), b) in seq.iter().zip(before) {
            if format!("{:?}", parsed[*k]) != b {
                return viol(key, format!("template {} is changed by running", k));
            }
        }
        Ok(())
    }));
    let g = of(&(0..n).collect::<Vec<_>>()).seq(1, t.pick(3, 4));
    r.push(Space::new("histories-no-templates", "every history of up to 3 (thorough 4) of the 12 templates over NoTemplates: nothing is carried over", g.n, move |i, cx| {
        let seq = g.at(i);
        let p = pool();
        for (step, k) in seq.iter().enumerate() {
            let (t, ps) = &p[*k];
            let mut w = World { globals: None, ..Default::default() };
            let want = w.run(t, ps);
            cx.trans(w.steps);
            let got = real_run(&parse(&source(&t.body)).ok().expect("pool"), ps, &mut NoTemplates, &cx.fm);
            cx.trace();
            cx.state(&shown(&want));
            if want.is_ok() {
                cx.nontrivial();
            }
            if !agree(&want, &got) {
                return viol(format!("history {:?} step {} without templates", seq, step), format!("the reference gives {}; templito gives {:?}", shown(&want), got));
            }
        }
        cx.sample(|| format!("{:?}", seq));
        Ok(())
    }));
    // a fault at every call out of the template
    let g = of(&(0..n).collect::<Vec<_>>()).seq(1, 3).x(&of(&(0..t.pick(10usize, 16)).collect::<Vec<_>>())).x(&of(&[false, true]));
    r.push(Space::new("faults", "every template made of up to 3 of the 12, with the n-th function call or the n-th template look-up failing, n up to 10 (thorough 16): the outcome, and what the manager and the functions are asked, in order", g.n, move |i, cx| {
        let ((seq, nth), tm_fault) = g.at(i);
        let p = pool();
        let body: Vec<It> = seq.iter().flat_map(|k| p[*k].0.body.clone()).collect();
        let ps: Vec<V> = seq.iter().flat_map(|k| p[*k].1.clone()).collect();
        let t = Tm { pnames: vec![], body };
        let mut w = World::new();
        if tm_fault {
            w.fault_tm = Some(nth);
        } else {
            w.fault_fn = Some(nth);
        }
        let want = w.run(&t, &ps);
        assert!(!w.out_of_fuel());
        cx.trans(w.steps);
        let mut tm = Recorder { fault: if tm_fault { Some(nth) } else { None }, ..Default::default() };
        let src = source(&t.body);
        let rt = match parse(&src) {
            Real::Ok(t) => t,
            e => return viol(src, format!("does not parse: {:?}", e)),
        };
        take_log();
        set_fault(if tm_fault { None } else { Some(nth) });
        let got = real_run(&rt, &ps, &mut tm, &cx.fm);
        set_fault(None);
        let log = take_log();
        cx.trace();
        cx.state(&(shown(&want), &w.asked));
        if want.is_ok() {
            cx.nontrivial();
        }
        let key = format!("{} with fault at {} {}", src, if tm_fault { "template" } else { "call" }, nth);
        cx.sample(|| format!("{} -> {}", key, shown(&want)));
        if !agree(&want, &got) {
            return viol(key, format!("the reference gives {}; templito gives {:?}", shown(&want), got));
        }
        if log != w.calls {
            return viol(key, format!("functions called: {:?} instead of {:?}", log, w.calls));
        }
        // asking twice for the same is no difference
        let dedup = |l: &Vec<String>| {
            let mut l = l.clone();
            l.dedup();
            l
        };
        if dedup(&tm.log) != dedup(&w.asked) {
            return viol(key, format!("the template manager is asked {:?} instead of {:?}", tm.log, w.asked));
        }
        Ok(())
    }));
    // the order in which a map was filled is not seen
    let uses = ["{{$0}}", "{{for k v in $0}}{{$k}}{{$v}};{{/for}}", "{{w_json $0}}", "{{cat $0 $0}}", "{{for i v in sort (list $0 {k0:9} {a:1})}}{{$v}}|{{/for}}", "{{eq $0 $1}}{{gt $0 $1}}{{lte $0 $1}}", "{{for k v in append $0 $1}}{{$k}}{{$v}};{{/for}}{{len $0}}", "{{export m=$0;n=list $0 $0}}", "{{switch $0}}{{case {k1:<a>,k0:<b>}}}{{$a}}{{$b}}{{case _}}-{{/switch}}", "{{$0}}{{let q=map \"r\" $0}}{{$q}}{{$q.r.k0}}", "{{filter (list $0 $1) \"gt .k0 0\"}}{{index_of $1 (list $0)}}", "{{join_with \",\" (list $0)}}{{md $0}}{{xml_esc $0}}"];
    let nu = uses.len() as u64;
    let mut orders: Vec<Vec<usize>> = vec![];
    for k in 1..=t.pick(5, 6) {
        orders.extend(perms(k));
    }
    let no = orders.len() as u64;
    r.push(Space::new("map-order", "maps of up to 5 (thorough 6) keys filled in every order x 12 ways to show, loop, compare, write, export them: as for the order of the keys", nu * no, move |i, cx| {
        let u = uses[(i % nu) as usize];
        let o = &orders[(i / nu) as usize];
        let mk = |o: &[usize]| {
            let mut h = HashMap::new();
            for k in o {
                h.insert(format!("k{}", k), TData::UInt(*k + 1));
            }
            TData::Map(h)
        };
        let mut sorted = o.clone();
        sorted.sort();
        let go = |o: &[usize], cx: &Ctx| {
            let (a, b) = (mk(o), mk(&sorted));
            let t = parse(u).ok().expect("use");
            real(|| t.run_exp(&[&a, &b], &mut NoTemplates, &cx.fm)).map(|(s, m)| (s, m.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<BTreeMap<_, _>>()))
        };
        let (x, y) = (go(o, cx), go(&sorted, cx));
        cx.trace();
        cx.trans(2);
        cx.state(&format!("{:?}", x));
        cx.nontrivial();
        cx.sample(|| format!("{} {:?} -> {:?}", u, o, x));
        if x != y || x.is_panic() {
            return viol(format!("{} for a map filled in the order {:?}", u, o), format!("{:?}, in key order {:?}", x, y));
        }
        // written out with keys in order
        if let Real::Ok((s, _)) = &x {
            let ps: Vec<_> = sorted.iter().filter_map(|k| s.find(&format!("k{}", k))).collect();
            if i % nu < 4 && (ps.len() != sorted.len() || ps.windows(2).any(|w| w[0] > w[1])) {
                return viol(format!("{} for a map filled in the order {:?}", u, o), format!("keys are not in order: {:?}", s));
            }
        }
        Ok(())
    }));
    // a function is a function of its arguments
    let names: Vec<&str> = crate::files::DEFAULT_NAMES.iter().filter(|n| **n != "rand").cloned().collect();
    let g = fnames(&names).x(&of(&crate::ctl::kinds()).seq(0, 2));
    r.push(Space::new("functions-repeat", "every default function but rand on every 0-2 values of all kinds, three times, once from another manager: the same answer, and the arguments as they were", g.n, move |i, cx| {
        let (n, a) = g.at(i);
        thread_local!(static OTHER: BasicFuncs = templito::func_man::default_func_man());
        let tds: Vec<_> = a.iter().map(|a| a.td()).collect();
        let x = rv(&call_td(&cx.fm, &n, &tds));
        let y = rv(&call_td(&cx.fm, &n, &tds));
        let z = rv(&OTHER.with(|o| call_td(o, &n, &tds)));
        cx.trace();
        cx.trans(3);
        cx.state(&(&n, &x));
        cx.nontrivial();
        let key = key_call(&n, &a);
        cx.sample(|| format!("{} -> {}", key, x).chars().take(200).collect());
        if x != y || x != z {
            return viol(key, format!("{} and then {} and {}", x, y, z));
        }
        if tds.iter().zip(&a).any(|(t, v)| !V::of(t).same(&V::of(&v.td()))) {
            return viol(key, "changes its arguments");
        }
        Ok(())
    }));
    // ... whatever it was asked before: results of a call after each other call
    let few = [V::s("a"), V::s("A"), V::s("b"), V::s("[a-z]"), V::s("[A-Z]"), V::s("ab"), V::s("aB"), V::s("a "), V::UInt(1), V::Int(1), V::s("1"), l(&[V::s("a"), V::s("b")]), l(&[V::s("A"), V::s("b")]), V::map(&[("a", V::UInt(1))])];
    let many = [few.to_vec(), vec![V::s(""), V::s("."), V::s("^a$"), V::UInt(2), V::Float(1.0), V::Bool(true), V::Null, V::map(&[("A", V::UInt(1))]), l(&[]), V::s("29/02/2020")]].concat();
    let two = of(&t.pick(few.to_vec(), many)).seq(0, 2);
    let three = of(&t.pick(few[0..4].to_vec(), few[0..6].to_vec())).seq(3, 3);
    let calls: std::sync::Arc<Vec<Vec<V>>> = std::sync::Arc::new((0..two.n).map(|i| two.at(i)).chain((0..three.n).map(|i| three.at(i))).collect());
    let nc = calls.len() as u64;
    let fns: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    r.push(Space::new("call-after-call", "every default function but rand, every pair of calls of it with 0-2 of 14 values (thorough 24) or 3 of 4 (thorough 6): the second gives the same after each of the first", nc * fns.len() as u64, move |i, cx| {
        let n = &fns[(i / nc) as usize];
        let b = &calls[(i % nc) as usize];
        let btd: Vec<_> = b.iter().map(|a| a.td()).collect();
        let mut first: Option<(String, usize)> = None;
        for (k, a) in calls.iter().enumerate() {
            let atd: Vec<_> = a.iter().map(|a| a.td()).collect();
            let _ = call_td(&cx.fm, n, &atd);
            let x = rv(&call_td(&cx.fm, n, &btd));
            match &first {
                None => first = Some((x, k)),
                Some((y, _)) if *y == x => {}
                Some((y, k)) => return viol(key_call(n, b), format!("{} after {}, but {} after {}", x, key_call(n, a), y, key_call(n, &calls[*k]))),
            }
        }
        cx.trace();
        cx.trans(2 * nc);
        cx.nontrivial();
        cx.state(&(n, b.len(), &first));
        Ok(())
    }));
    // templates read and run one after the other, from nothing but their text
    let mut srcs: Vec<String> = vec![];
    for x in ["a", "A", "b", "", " ", "é"] {
        for f in [
            "@", "{{\"@\"}}", "{{let x=\"@\"}}{{$x}}", "{{if \"@\"}}y{{else}}n{{/if}}", "{{for k v in [\"@\"]}}{{$v}}{{/for}}", "{{export @x=1}}", "{{first $@x \"n\"}}", "{{define \"t@\"}}D@{{/define}}{{:t@}}", "{{global \"t@\"}}G@{{/global}}", "{{@cat}}@{{/cat}}", "{{@let x}}@{{/let}}{{$x}}", "{{/*@*/}}", "{{switch \"@\"}}{{case \"a\"}}1{{case $z}}{{$z}}{{/switch}}",
            "{{len \"@\"}}", "{{@", "@}}", "{{if \"@\"}}", "{{`@`}}", "{{return \"@\"}}", "{{map \"@\" 1}}", "{{regex \"a\" \"@\"}}", "{{no_@}}", "{{:t@}}",
        ] {
            srcs.push(f.replace('@', x));
        }
    }
    srcs.sort();
    srcs.dedup();
    let ns = srcs.len() as u64;
    let srcs = std::sync::Arc::new(srcs);
    r.push(Space::new("template-after-template", "every pair of 23 forms of template around 6 texts, the first read and run and then the second, with nothing shared but the function manager: the second gives the same after each of the first", ns, move |i, cx| {
        let b = &srcs[i as usize];
        let run = |cx: &Ctx, s: &str| match real_src(s, &[], &cx.fm) {
            Real::Ok((s, m)) => format!("{:?} {:?}", s, m.iter().map(|(k, v)| (k.clone(), v.canon())).collect::<BTreeMap<_, _>>()),
            Real::Err(e) => format!("error ({})", e),
            Real::Panic(p) => format!("PANIC ({})", p),
        };
        let mut first: Option<(String, usize)> = None;
        for (k, a) in srcs.iter().enumerate() {
            let _ = run(cx, a);
            let x = run(cx, b);
            match &first {
                None => first = Some((x, k)),
                Some((y, _)) if *y == x => {}
                Some((y, k)) => return viol(b.clone(), format!("{} after {:?}, but {} after {:?}", x, a, y, srcs[*k])),
            }
        }
        cx.trace();
        cx.trans(2 * ns);
        cx.nontrivial();
        cx.state(&first);
        Ok(())
    }));
    // function managers
    let acts: Vec<(usize, usize)> = (0..3).flat_map(|n| (0..4).map(move |k| (n, k))).collect();
    let g = of(&acts).seq(0, t.pick(3, 4));
    let fnm = ["f", "cat", "a f"];
    r.push(Space::new("registry", "every sequence of up to 3 (thorough 4) additions of 4 functions, by pointer and as closures, under 3 names (one of a default function), to an empty and to the default manager: the last one counts; names and descriptions in order", g.n * 2, move |i, cx| {
        let seq = g.at(i / 2);
        let mut fm = if i % 2 == 0 { BasicFuncs::new() } else { templito::func_man::default_func_man() };
        let mut model: BTreeMap<String, (String, &'static str)> = BTreeMap::new();
        let none: Vec<TData> = vec![];
        if i % 2 == 1 {
            let l = std::cell::RefCell::new(vec![]);
            fm.for_each(|k, d| l.borrow_mut().push((k.clone(), d.to_string())));
            for (k, d) in l.into_inner() {
                if k == "cat" {
                    model.insert(k, (rv(&call_td(&fm, "cat", &none)), Box::leak(d.into_boxed_str())));
                }
            }
        }
        for (n, k) in &seq {
            let name = fnm[*n];
            let c = Arc::new(std::cell::Cell::new(0u64));
            match k {
                0 => fm.add_fn(name, f_a, "first function"),
                1 => fm = fm.with_fn_(name, f_b, "second function"),
                2 => fm.add_func(name, Box::new(move |_| { c.set(c.get() + 1); Ok(TCow::Owned(TData::UInt(c.get() as usize))) }), "a closure"),
                _ => fm = fm.with_func(name, Box::new(move |a| Ok(a.get(0).cloned().unwrap_or(TCow::Owned(TData::String("closure two".into()))))), ""),
            }
            let v = match k {
                0 => "\"fa\"",
                1 => "\"fb\"",
                2 => "u1",
                _ => "\"closure two\"",
            };
            model.insert(name.into(), (v.into(), ["first function", "second function", "a closure", ""][*k]));
            cx.trans(1);
        }
        cx.trace();
        let key = format!("registering {:?} on {}", seq, ["an empty manager", "the defaults"][(i % 2) as usize]);
        cx.sample(|| key.clone());
        let l = std::cell::RefCell::new(vec![]);
        fm.for_each(|k, d| l.borrow_mut().push((k.clone(), d.to_string())));
        let l = l.into_inner();
        cx.state(&l);
        if l.windows(2).any(|w| w[0].0 >= w[1].0) {
            return viol(key, format!("names are not in order: {:?}", l));
        }
        for (k, d) in &l {
            match model.get(k) {
                Some(m) if m.1 == d => {}
                None if i % 2 == 1 && !fnm.contains(&k.as_str()) => {}
                _ => return viol(key, format!("lists {} as {:?}", k, d)),
            }
            if fm.get_func(k).is_none() {
                return viol(key, format!("lists {} and does not have it", k));
            }
        }
        for n in fnm {
            let m = model.get(n);
            if m.is_some() != l.iter().any(|x| x.0 == n) || m.is_some() != fm.get_func(n).is_some() {
                return viol(key, format!("{} is listed or missing", n));
            }
            if let Some((v, _)) = m {
                cx.nontrivial();
                if n != "a f" {
                    let want = match v.as_str() { "u1" => "1".to_string(), x => x.trim_matches('"').to_string() };
                    let got = real_src(&format!("{{{{{}}}}}", n), &[], &fm);
                    let again = if v == "u1" { "u2".to_string() } else { v.clone() };
                    let direct = rv(&call_td(&fm, n, &none));
                    if !matches!(&got, Real::Ok(o) if o.0 == want) || direct != again {
                        return viol(key, format!("{} gives {:?}, then {}; the last one added gives {}", n, got, direct, v));
                    }
                }
            }
        }
        Ok(())
    }));
    let words: Vec<String> = crate::files::DEFAULT_NAMES.iter().map(|s| s.to_string()).chain(["", "list", "string", "svg", "e", "(", "zzz", "Locked", "->", "?", "Int", "number", "path", "\n"].iter().map(|s| s.to_string())).collect();
    let nw = words.len() as u64;
    r.push(
        Space::new("printing", "print_all and print_filter with 82 words, 3 managers: exactly the functions whose name or description has the word", nw * 3 + 3, move |i, cx| {
            let base = std::path::Path::new("/nonexistent");
            use templito::WithFuncs;
            let fm = match i % 3 {
                0 => templito::func_man::default_func_man(),
                1 => templito::func_man::func_man_folders(base).with_exec().with_write_lock(base),
                _ => BasicFuncs::new().with_free_files().with_exec(),
            };
            let word = words.get((i / 3) as usize);
            let out = printed(cx, || match word {
                Some(w) => fm.print_filter(w),
                None => fm.print_all(),
            });
            let l = std::cell::RefCell::new(vec![]);
            fm.for_each(|k, d| l.borrow_mut().push((k.clone(), d.to_string())));
            let want: Vec<String> = l.into_inner().into_iter().filter(|(k, d)| word.map_or(true, |w| k.contains(w.as_str()) || d.contains(w.as_str()))).map(|x| x.0).collect();
            let got: Vec<String> = out.lines().filter(|l| l.starts_with(' ')).filter_map(|l| l.trim().split(':').next().map(|s| s.to_string())).collect();
            cx.trace();
            cx.trans(1);
            cx.state(&got);
            if !got.is_empty() {
                cx.nontrivial();
            }
            cx.sample(|| format!("{:?} -> {:?}", word, got).chars().take(200).collect());
            if got != want {
                return viol(format!("print_filter {:?} of manager {}", word, i % 3), format!("{:?} should be {:?}", got, want));
            }
            Ok(())
        })
        .serial(),
    );
    r.extend(crate::kinds::c29(t));
    r
}
/// `with_fn` of the adder, which another trait in scope also has
trait Named: Sized {
    fn with_fn_(self, k: &str, f: templito::func_man::TFn, d: &'static str) -> Self;
}
impl Named for BasicFuncs {
    fn with_fn_(self, k: &str, f: templito::func_man::TFn, d: &'static str) -> Self {
        FuncAdder::with_fn(self, k, f, d)
    }
}
