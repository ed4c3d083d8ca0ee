//! Execution of the real code next to the reference interpreter.
use crate::ast::*;
use crate::engine::*;
use crate::interp::World;
use crate::val::V;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use std::sync::Arc;
use templito::func_man::{BasicFuncs, FuncManager};
use templito::temp_man::{BasicTemps, TempManager};
use templito::tparam::TCow;
use templito::{TParam, TreeTemplate};

thread_local! {
    static LOG: std::cell::RefCell<Vec<String>> = Default::default();
    static FAULT: std::cell::Cell<Option<usize>> = Default::default();
}
/// let the n-th call of a recording function fail
pub fn set_fault(n: Option<usize>) {
    FAULT.with(|f| f.set(n));
}
fn trace_fn<'a>(a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    LOG.with(|l| l.borrow_mut().push(a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    if FAULT.with(|f| f.get()) == Some(LOG.with(|l| l.borrow().len()) - 1) {
        return Err(anyhow::Error::msg("fault"));
    }
    Ok(a.last().cloned().unwrap_or(TCow::Owned(templito::TData::Null)))
}
fn fail_fn<'a>(a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    LOG.with(|l| l.borrow_mut().push(a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    Err(anyhow::Error::msg("fail"))
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// the defaults and two functions which record that they were called:
/// `trace` gives its last argument back, `fail` is an error
pub fn probe_funcs() -> BasicFuncs {
    use templito::WithFuncs;
    templito::func_man::default_func_man().with_fn("trace", trace_fn, "").with_fn("fail", fail_fn, "")
}

pub type Out = (String, BTreeMap<String, V>);

pub fn real_run<TM: TempManager>(t: &TreeTemplate, params: &[V], tm: &mut TM, fm: &BasicFuncs) -> Real<Out> {
    let tds: Vec<_> = params.iter().map(|p| p.td()).collect();
    let ps: Vec<&dyn TParam> = tds.iter().map(|p| p as &dyn TParam).collect();
    real(|| t.run_exp(&ps, tm, fm)).map(|(s, m)| (s, m.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()))
}
pub fn parse(src: &str) -> Real<TreeTemplate> {
    real(|| TreeTemplate::from_str(src))
}
/// parse and run with fresh templates
pub fn real_src(src: &str, params: &[V], fm: &BasicFuncs) -> Real<Out> {
    match parse(src) {
        Real::Ok(t) => real_run(&t, params, &mut BasicTemps::new(), fm),
        Real::Err(e) => Real::Err(format!("PARSE: {}", e)),
        Real::Panic(p) => Real::Panic(p),
    }
}
pub fn outs(o: &Out) -> String {
    format!("{:?} exports {}", o.0, V::Map(o.1.clone()).canon())
}
fn out_r(r: &Real<Out>) -> String {
    match r {
        Real::Ok(o) => outs(o),
        Real::Err(e) => format!("error ({})", e),
        Real::Panic(p) => format!("PANIC ({})", p),
    }
}
pub fn names(pn: &[String]) -> String {
    if pn.is_empty() {
        String::new()
    } else {
        format!(" pnames={:?}", pn)
    }
}

/// Options of one differential run
#[derive(Default, Clone)]
pub struct Case {
    pub pnames: Vec<String>,
    pub params: Vec<V>,
    pub temps: Vec<(String, Arc<Tm>)>,
    pub body: Vec<It>,
    /// another spelling of the body
    pub src: Option<String>,
}
impl Case {
    pub fn new(body: Vec<It>) -> Self {
        Case { body, ..Default::default() }
    }
    pub fn params(mut self, p: &[V]) -> Self {
        self.params = p.to_vec();
        self
    }
    pub fn pnames(mut self, p: &[&str]) -> Self {
        self.pnames = p.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn temp(mut self, n: &str, p: &[&str], b: Vec<It>) -> Self {
        self.temps.push((n.to_string(), tm(p, b)));
        self
    }
    pub fn src(mut self, s: String) -> Self {
        self.src = Some(s);
        self
    }
    pub fn key(&self) -> String {
        let mut k = self.src.clone().unwrap_or_else(|| source(&self.body));
        if !self.params.is_empty() {
            k += &format!(" with {}", V::List(self.params.clone()).canon());
        }
        k += &names(&self.pnames);
        for (n, t) in &self.temps {
            k += &format!(" template {}({})={}", n, t.pnames.join(","), source(&t.body));
        }
        k
    }
    /// the real template has the model's meaning: same output, exports and registered templates, or both fail
    pub fn check(&self, cx: &mut Ctx) -> Res {
        let src = self.src.clone().unwrap_or_else(|| source(&self.body));
        let mut w = World::new();
        for (n, t) in &self.temps {
            w.globals.as_mut().unwrap().insert(n.clone(), t.clone());
        }
        let t = Tm { pnames: self.pnames.clone(), body: self.body.clone() };
        let want = w.run(&t, &self.params);
        if w.out_of_fuel() {
            return Ok(()); // the template does not end (soon): nothing to compare
        }
        cx.trans(w.steps);
        let mut temps: BasicTemps = HashMap::new();
        for (n, t) in &self.temps {
            let mut r = TreeTemplate::from_str(&source(&t.body)).expect("model template parses");
            r.pnames = t.pnames.clone();
            temps.insert(n.clone(), r);
        }
        let mut rt = match parse(&src) {
            Real::Ok(t) => t,
            Real::Err(e) => return viol(self.key(), format!("the template is well formed but does not parse: {}", e)),
            Real::Panic(p) => return viol(self.key(), format!("parser panics: {}", p)),
        };
        rt.pnames = self.pnames.clone();
        take_log();
        let got = real_run(&rt, &self.params, &mut temps, &cx.fm);
        let log = take_log();
        cx.trace();
        let shown = match &want {
            Ok(o) => outs(o),
            Err(_) => "an error".to_string(),
        };
        cx.state(&shown);
        if want.is_ok() {
            cx.nontrivial();
        }
        cx.sample(|| format!("{} -> {}", self.key(), shown));
        let same = match (&want, &got) {
            (Ok(a), Real::Ok(b)) => a.0 == b.0 && V::Map(a.1.clone()).same(&V::Map(b.1.clone())),
            (Err(_), Real::Err(_)) => true,
            _ => false,
        };
        if !same {
            return viol(self.key(), format!("the reference gives {}; templito gives {}", shown, out_r(&got)));
        }
        if log != w.calls {
            return viol(self.key(), format!("functions called: reference {:?}, templito {:?}", w.calls, log));
        }
        // templates registered while running
        let model = w.globals.unwrap();
        let mut rn: Vec<_> = temps.keys().cloned().collect();
        rn.sort();
        let mn: Vec<_> = model.keys().cloned().collect();
        if rn != mn {
            return viol(self.key(), format!("registered templates: reference {:?}, templito {:?}", mn, rn));
        }
        for (n, m) in &model {
            let mut e = TreeTemplate::from_str(&source(&m.body)).expect("model template parses");
            e.pnames = m.pnames.clone();
            if format!("{:?}", e) != format!("{:?}", temps[n]) {
                return viol(self.key(), format!("registered template {} differs from its source", n));
            }
        }
        Ok(())
    }
}

/// call a function of a manager directly
pub fn call_fn(fm: &BasicFuncs, name: &str, args: &[V]) -> Real<V> {
    let tds: Vec<_> = args.iter().map(|a| a.td()).collect();
    call_td(fm, name, &tds)
}
pub fn call_td(fm: &BasicFuncs, name: &str, tds: &[templito::TData]) -> Real<V> {
    real(|| {
        let f = match fm.get_func(name) {
            Some(f) => f,
            None => return Err(anyhow_like(format!("no function {}", name))),
        };
        let cows: Vec<TCow> = tds.iter().map(|t| TCow::Borrowed(t)).collect();
        match f(&cows) {
            Ok(v) => Ok(V::of(&v)),
            Err(e) => Err(anyhow_like(e.to_string())),
        }
    })
}
pub struct Msg(pub String);
impl std::fmt::Display for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
fn anyhow_like(s: String) -> Msg {
    Msg(s)
}
pub fn rv(r: &Real<V>) -> String {
    match r {
        Real::Ok(v) => v.canon(),
        Real::Err(e) => format!("error ({})", e),
        Real::Panic(p) => format!("PANIC ({})", p),
    }
}
pub fn key_call(name: &str, args: &[V]) -> String {
    format!("{}({})", name, args.iter().map(|a| a.canon()).collect::<Vec<_>>().join(", "))
}
/// one function call against the reference, directly and - with the arguments as parameters - from a template
pub fn check_call(cx: &mut Ctx, name: &str, args: &[V]) -> Res {
    let want = crate::mfun::call(name, args);
    check_call_with(cx, name, args, want)
}
pub fn check_call_with(cx: &mut Ctx, name: &str, args: &[V], want: Result<V, String>) -> Res {
    let got = call_fn(&cx.fm, name, args);
    cx.trace();
    cx.trans(1);
    let shown = match &want {
        Ok(v) => v.canon(),
        Err(_) => "error".into(),
    };
    cx.state(&(name, &shown));
    if want.is_ok() {
        cx.nontrivial();
    }
    let key = key_call(name, args);
    cx.sample(|| format!("{} -> {}", key, shown));
    let same = match (&want, &got) {
        (Ok(a), Real::Ok(b)) => a.same(b),
        (Err(_), Real::Err(_)) => true,
        _ => false,
    };
    if !same {
        return viol(key, format!("the reference gives {}; templito gives {}", shown, rv(&got)));
    }
    Ok(())
}
/// space of calls
pub fn calls(name: &str, bounds: &str, g: crate::gen::G<(String, Vec<V>)>) -> Space {
    Space::new(name, bounds, g.n, move |i, cx| {
        let (n, a) = g.at(i);
        check_call(cx, &n, &a)
    })
}
/// space of templates
pub fn cases(name: &str, bounds: &str, g: crate::gen::G<Case>) -> Space {
    Space::new(name, bounds, g.n, move |i, cx| g.at(i).check(cx))
}
pub fn fnames(n: &[&str]) -> crate::gen::G<String> {
    crate::gen::of(&n.iter().map(|s| s.to_string()).collect::<Vec<_>>())
}
