//! The reference interpreter: the documented meaning of templates, on the model syntax.
use crate::ast::*;
use crate::mfun;
use crate::val::V;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type R<T> = Result<T, String>;

pub struct Scope<'a> {
    pub params: &'a [V],
    pub pnames: &'a [String],
    pub maps: Vec<BTreeMap<String, V>>,
}
impl<'a> Scope<'a> {
    pub fn new(params: &'a [V], pnames: &'a [String]) -> Self {
        Scope { params, pnames, maps: vec![BTreeMap::new()] }
    }
    fn get(&self, p: &[P]) -> Option<V> {
        let base = match p.first()? {
            P::Num(n) => self.params.get(*n)?,
            P::Id(s) => match self.maps.iter().rev().find_map(|m| m.get(s)) {
                Some(v) => v,
                None => self.params.get(self.pnames.iter().position(|x| x == s)?)?,
            },
        };
        base.at(&p[1..]).cloned()
    }
    fn set(&mut self, k: &str, v: V) {
        self.maps.last_mut().unwrap().insert(k.into(), v);
    }
    fn set_root(&mut self, k: &str, v: V) {
        self.maps[0].insert(k.into(), v);
    }
}

/// The rest of the world a template sees, and a count of the steps taken
#[derive(Default)]
pub struct World {
    /// None: no template manager
    pub globals: Option<BTreeMap<String, Arc<Tm>>>,
    pub steps: u64,
    pub depth: u32,
    /// calls of the recording functions, in order
    pub calls: Vec<String>,
    /// what the template manager was asked, in order
    pub asked: Vec<String>,
    /// the n-th call of a recording function fails
    pub fault_fn: Option<usize>,
    /// the n-th look-up of a template fails
    pub fault_tm: Option<usize>,
}
pub const FUEL: u64 = 20_000;

impl World {
    pub fn new() -> Self {
        World { globals: Some(BTreeMap::new()), ..Default::default() }
    }
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > FUEL {
            return Err("OUT OF FUEL".into());
        }
        Ok(())
    }
    pub fn out_of_fuel(&self) -> bool {
        self.steps > FUEL
    }

    pub fn call_tm(&mut self, t: &Tm, args: &[V]) -> R<V> {
        if self.depth > 60 {
            self.steps = FUEL + 1;
            return Err("OUT OF FUEL".into());
        }
        self.depth += 1;
        let r = self.run(t, args);
        self.depth -= 1;
        let (out, mut exp) = r?;
        Ok(exp.remove("return").unwrap_or(V::Str(out)))
    }

    /// call by name: functions first, then templates
    pub fn call(&mut self, name: &str, args: &[V]) -> R<V> {
        self.step()?;
        if name == "trace" || name == "fail" {
            self.calls.push(args.iter().map(|x| x.show()).collect::<Vec<_>>().join(","));
            if self.fault_fn == Some(self.calls.len() - 1) {
                return Err("fault".into());
            }
            return match name {
                "trace" => Ok(args.last().cloned().unwrap_or(V::Null)),
                _ => Err("fail".into()),
            };
        }
        if mfun::exists(name) {
            return mfun::call(name, args);
        }
        self.asked.push(format!("get {}", name));
        if self.fault_tm == Some(self.asked.iter().filter(|a| a.starts_with("get ")).count() - 1) {
            return Err("fault".into());
        }
        match self.globals.as_ref().and_then(|g| g.get(name)).cloned() {
            Some(t) => self.call_tm(&t, args),
            None => Err(format!("no function or template {}", name)),
        }
    }

    pub fn eval(&mut self, e: &E, sc: &Scope) -> R<V> {
        self.step()?;
        match e {
            E::Lit(v) => Ok(v.clone()),
            E::Var(p) => sc.get(p).ok_or_else(|| format!("no variable {:?}", p)),
            E::List(l) => Ok(V::List(l.iter().map(|x| self.eval(x, sc)).collect::<R<_>>()?)),
            E::Map(l) => {
                let mut m = BTreeMap::new();
                for (k, x) in l {
                    let v = self.eval(x, sc)?;
                    m.insert(k.clone(), v);
                }
                Ok(V::Map(m))
            }
            E::Cmd(c, a) if c == "first" => {
                for x in a {
                    match self.eval(x, sc) {
                        Ok(V::Null) | Err(_) => {}
                        Ok(v) => return Ok(v),
                    }
                }
                Ok(V::Null)
            }
            E::Cmd(c, a) if c == "select" => {
                if a.len() < 3 {
                    return Err("select needs 3".into());
                }
                let t = self.eval(&a[0], sc)?;
                let n = match (t.as_usize(), t.truth()) {
                    (Some(n), _) => n.saturating_add(1),
                    (None, Some(true)) => 1,
                    (None, Some(false)) => 2,
                    _ => return Err("select on no bool".into()),
                };
                match a.get(n as usize) {
                    Some(x) => self.eval(x, sc),
                    None => Err("select out of range".into()),
                }
            }
            E::Cmd(c, a) => {
                let args = a.iter().map(|x| self.eval(x, sc)).collect::<R<Vec<V>>>()?;
                if c == "run" {
                    match args.first() {
                        Some(V::Tmpl(Some(t))) => return self.call_tm(&t.clone(), &args[1..]),
                        // a parameter of the run: the empty template
                        Some(V::Tmpl(None)) => return self.call_tm(&Tm { pnames: vec![], body: vec![] }, &args[1..]),
                        _ => {}
                    }
                }
                self.call(c, &args)
            }
        }
    }

    fn matches(&mut self, p: &Pt, d: &V, sc: &mut Scope) -> bool {
        self.steps += 1;
        match p {
            Pt::Any => true,
            Pt::Val(v) => v.eq(d),
            Pt::List(pl) => match d {
                V::List(dl) => pl.len() <= dl.len() && pl.iter().zip(dl).all(|(p, d)| self.matches(p, d, sc)),
                _ => false,
            },
            Pt::Map(pm) => match d {
                V::Map(m) => pm.iter().all(|(k, p)| m.get(k).map_or(false, |d| self.matches(p, d, sc))),
                _ => false,
            },
            Pt::Filter(e) => {
                sc.maps.push(BTreeMap::new());
                sc.set("@", d.clone());
                let r = self.eval(e, sc);
                sc.maps.pop();
                matches!(r, Ok(V::Bool(true)))
            }
            Pt::Cap(c, p) => {
                let ok = p.as_ref().map_or(true, |p| self.matches(p, d, sc));
                if ok {
                    sc.set(c, d.clone());
                }
                ok
            }
        }
    }

    pub fn block(&mut self, b: &[It], sc: &mut Scope) -> R<String> {
        sc.maps.push(BTreeMap::new());
        let r = self.seq(b, sc);
        sc.maps.pop();
        r
    }
    fn seq(&mut self, b: &[It], sc: &mut Scope) -> R<String> {
        let mut o = String::new();
        for i in b {
            o.push_str(&self.item(i, sc)?);
        }
        Ok(o)
    }
    fn case(&mut self, p: &Pt, d: &V, b: &[It], sc: &mut Scope) -> Option<R<String>> {
        sc.maps.push(BTreeMap::new());
        let r = if self.matches(p, d, sc) { Some(self.block(b, sc)) } else { None };
        sc.maps.pop();
        r
    }

    pub fn item(&mut self, i: &It, sc: &mut Scope) -> R<String> {
        self.step()?;
        match i {
            It::Text(s) => return Ok(s.clone()),
            It::Comment(_) => {}
            It::Exp(e) => return Ok(self.eval(e, sc)?.show()),
            It::If(arms, no) => {
                for (c, b) in arms {
                    if self.eval(c, sc).ok().and_then(|v| v.truth()) == Some(true) {
                        return self.block(b, sc);
                    }
                }
                if let Some(b) = no {
                    // every elif is nested in the else block before it: only the scope depth differs
                    return self.block(b, sc);
                }
            }
            It::For(k, v, e, b) => {
                let pairs: Vec<(V, V)> = match self.eval(e, sc)? {
                    V::Map(m) => m.into_iter().map(|(k, v)| (V::Str(k), v)).collect(),
                    V::List(l) => l.into_iter().enumerate().map(|(n, v)| (V::UInt(n as u64), v)).collect(),
                    V::UInt(n) if n > 1_000_000 => panic!("model loop too long"),
                    V::UInt(n) => (0..n).map(|n| (V::UInt(n), V::UInt(n))).collect(),
                    V::Int(n) => (0..n).map(|n| (V::UInt(n as u64), V::Int(n))).collect(),
                    _ => return Err("cannot loop".into()),
                };
                let mut o = String::new();
                for (x, y) in pairs {
                    sc.set(k, x);
                    sc.set(v, y);
                    o.push_str(&self.block(b, sc)?);
                }
                return Ok(o);
            }
            It::Let(l) => {
                for (k, e) in l {
                    let v = self.eval(e, sc)?;
                    sc.set(k, v);
                }
            }
            It::Export(l) => {
                for (k, e) in l {
                    let v = self.eval(e, sc)?;
                    sc.set_root(k, v);
                }
            }
            It::Return(e) => {
                let v = self.eval(e, sc)?;
                sc.set_root("return", v);
            }
            It::AtLet(n, b) => {
                let t = self.block(b, sc)?;
                sc.set(n, V::Str(t));
            }
            It::AtExport(n, b) => {
                let t = self.block(b, sc)?;
                sc.set_root(n, V::Str(t));
            }
            It::Define(n, p, b) => sc.set(n, V::Tmpl(Some(Arc::new(Tm { pnames: p.clone(), body: b.clone() })))),
            It::Global(n, p, b) => {
                self.asked.push(format!("insert {}", n));
                if let Some(g) = &mut self.globals {
                    g.insert(n.clone(), Arc::new(Tm { pnames: p.clone(), body: b.clone() }));
                }
            }
            It::Switch(e, cases) => {
                let d = self.eval(e, sc)?;
                for (ps, b) in cases {
                    for p in ps {
                        if let Some(r) = self.case(p, &d, b, sc) {
                            return r;
                        }
                    }
                }
            }
            It::As(e, p, b) => {
                let d = self.eval(e, sc)?;
                if let Some(r) = self.case(p, &d, b, sc) {
                    return r;
                }
            }
            It::Block(c, a, b) => {
                let t = V::Str(self.block(b, sc)?);
                if a.is_empty() {
                    return Ok(self.call(c, &[t])?.show());
                }
                sc.set("@", t);
                let args = a.iter().map(|x| self.eval(x, sc)).collect::<R<Vec<V>>>()?;
                return Ok(self.call(c, &args)?.show());
            }
        }
        Ok(String::new())
    }

    pub fn run(&mut self, t: &Tm, params: &[V]) -> R<(String, BTreeMap<String, V>)> {
        let mut sc = Scope::new(params, &t.pnames);
        let o = self.seq(&t.body, &mut sc)?;
        Ok((o, sc.maps.remove(0)))
    }

    pub fn front_matter(t: &Tm) -> (BTreeMap<String, V>, u64) {
        let mut w = World { globals: None, ..Default::default() };
        let mut sc = Scope::new(&[], &t.pnames);
        for i in &t.body {
            match i {
                It::AtExport(n, b) => {
                    if let Ok(s) = w.block(b, &mut sc) {
                        sc.set_root(n, V::Str(s));
                    }
                }
                It::Export(l) => {
                    for (k, e) in l {
                        if let Ok(v) = w.eval(e, &sc) {
                            sc.set_root(k, v);
                        }
                    }
                }
                _ => {}
            }
        }
        assert!(sc.maps.len() == 1);
        (sc.maps.remove(0), w.steps)
    }
}
