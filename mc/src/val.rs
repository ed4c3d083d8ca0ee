//! Model values, independent of the implementation's own equality and display code.
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use templito::TData;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Str(String),
    Int(i64),
    UInt(u64),
    Float(f64),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
    Date(i32, u32, u32),
    Bytes(Vec<u8>),
    Tmpl(Option<std::sync::Arc<crate::ast::Tm>>),
}

impl V {
    pub fn s(x: &str) -> V {
        V::Str(x.to_string())
    }
    pub fn map(x: &[(&str, V)]) -> V {
        V::Map(x.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
    }
    /// canonical text: total, injective, independent of the implementation
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_to(&mut s);
        s
    }
    pub fn canon_to(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            V::Null => o.push_str("null"),
            V::Bool(b) => write!(o, "{}", b).unwrap(),
            V::Str(s) => write!(o, "{:?}", s).unwrap(),
            V::Int(i) => write!(o, "i{}", i).unwrap(),
            V::UInt(i) => write!(o, "u{}", i).unwrap(),
            V::Float(f) => {
                if f.is_nan() {
                    o.push_str("fNaN")
                } else {
                    write!(o, "f{:?}", f).unwrap()
                }
            }
            V::List(l) => {
                o.push('[');
                for (n, v) in l.iter().enumerate() {
                    if n > 0 {
                        o.push(',')
                    }
                    v.canon_to(o);
                }
                o.push(']');
            }
            V::Map(m) => {
                o.push('{');
                for (n, (k, v)) in m.iter().enumerate() {
                    if n > 0 {
                        o.push(',')
                    }
                    write!(o, "{:?}:", k).unwrap();
                    v.canon_to(o);
                }
                o.push('}');
            }
            V::Date(y, m, d) => write!(o, "d{}-{}-{}", y, m, d).unwrap(),
            V::Bytes(b) => write!(o, "b{:?}", b).unwrap(),
            V::Tmpl(_) => o.push_str("TEMPLATE"),
        }
    }
    pub fn same(&self, o: &V) -> bool {
        self.canon() == o.canon()
    }
    pub fn td(&self) -> TData {
        match self {
            V::Null => TData::Null,
            V::Bool(b) => TData::Bool(*b),
            V::Str(s) => TData::String(s.clone()),
            V::Int(i) => TData::Int(*i as isize),
            V::UInt(i) => TData::UInt(*i as usize),
            V::Float(f) => TData::Float(*f),
            V::List(l) => TData::List(l.iter().map(|v| v.td()).collect()),
            V::Map(m) => TData::Map(m.iter().map(|(k, v)| (k.clone(), v.td())).collect::<HashMap<_, _>>()),
            V::Date(y, m, d) => TData::Date(chrono::NaiveDate::from_ymd_opt(*y, *m, *d).expect("date")),
            V::Bytes(b) => TData::Bytes(b.clone()),
            V::Tmpl(None) => TData::Template(templito::TreeTemplate { pnames: vec![], v: vec![] }),
            V::Tmpl(Some(t)) => {
                let mut r = <templito::TreeTemplate as std::str::FromStr>::from_str(&crate::ast::source(&t.body)).expect("model template");
                r.pnames = t.pnames.clone();
                TData::Template(r)
            }
        }
    }
    pub fn of(t: &TData) -> V {
        use chrono::Datelike;
        match t {
            TData::Null => V::Null,
            TData::Bool(b) => V::Bool(*b),
            TData::String(s) => V::Str(s.clone()),
            TData::Int(i) => V::Int(*i as i64),
            TData::UInt(i) => V::UInt(*i as u64),
            TData::Float(f) => V::Float(*f),
            TData::List(l) => V::List(l.iter().map(V::of).collect()),
            TData::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
            TData::Date(d) => V::Date(d.year(), d.month(), d.day()),
            TData::Bytes(b) => V::Bytes(b.clone()),
            TData::Template(_) => V::Tmpl(None),
        }
    }
    /// text a template shows for the value
    pub fn show(&self) -> String {
        match self {
            V::Null => "NULL".into(),
            V::Bool(b) => b.to_string(),
            V::Str(s) => s.clone(),
            V::Int(i) => i.to_string(),
            V::UInt(i) => i.to_string(),
            V::Float(f) => format!("{}", f),
            V::List(l) => format!("[{}]", l.iter().map(|v| v.show()).collect::<Vec<_>>().join(",")),
            V::Map(m) => format!("{:?}", m.iter().map(|(k, v)| (k, v.td_dbg())).collect::<BTreeMap<_, _>>()),
            V::Date(y, m, d) => format!("{:02}/{:02}/{:04}", d, m, y),
            V::Bytes(b) => format!("b\"{:?}\"", b),
            V::Tmpl(_) => "TEMPLATE".into(),
        }
    }
    fn td_dbg(&self) -> Raw {
        Raw(self.dbg())
    }
    pub fn dbg(&self) -> String {
        match self {
            V::Null => "Null".into(),
            V::Bool(b) => format!("Bool({:?})", b),
            V::Str(s) => format!("String({:?})", s),
            V::Int(i) => format!("Int({:?})", i),
            V::UInt(i) => format!("UInt({:?})", i),
            V::Float(f) => format!("Float({:?})", f),
            V::List(l) => format!("List([{}])", l.iter().map(|v| v.dbg()).collect::<Vec<_>>().join(", ")),
            V::Map(m) => format!("Map({:?})", m.iter().map(|(k, v)| (k, v.td_dbg())).collect::<BTreeMap<_, _>>()),
            V::Date(y, m, d) => format!("Date({:04}-{:02}-{:02})", y, m, d),
            V::Bytes(b) => format!("Bytes({:?})", b),
            V::Tmpl(_) => "Template(TreeTemplate { pnames: [], v: [] })".into(),
        }
    }
    /// Some(truth) as the conditional functions see it, None if the value has no truth value
    pub fn truth(&self) -> Option<bool> {
        match self {
            V::Null => Some(false),
            V::Bool(b) => Some(*b),
            V::Str(s) => Some(!s.is_empty()),
            V::Int(i) => Some(*i != 0),
            V::UInt(i) => Some(*i != 0),
            V::Float(f) => Some(*f != 0.0),
            V::List(l) => Some(!l.is_empty()),
            V::Map(m) => Some(!m.is_empty()),
            V::Date(..) | V::Bytes(_) | V::Tmpl(_) => None,
        }
    }
    /// follow a path of map keys and list indices
    pub fn at(&self, p: &[crate::ast::P]) -> Option<&V> {
        use crate::ast::P;
        match (p.first(), self) {
            (None, _) => Some(self),
            (Some(P::Id(k)), V::Map(m)) => m.get(k)?.at(&p[1..]),
            (Some(P::Num(n)), V::List(l)) => l.get(*n)?.at(&p[1..]),
            _ => None,
        }
    }
    pub fn as_usize(&self) -> Option<u64> {
        match self {
            V::UInt(u) => Some(*u),
            V::Int(i) if *i >= 0 => Some(*i as u64),
            _ => None,
        }
    }
    pub fn type_name(&self) -> &'static str {
        match self {
            V::Null => "null",
            V::Bool(_) => "bool",
            V::Str(_) => "string",
            V::Int(_) => "int",
            V::UInt(_) => "uint",
            V::Float(_) => "float",
            V::List(_) => "list",
            V::Map(_) => "map",
            V::Date(..) => "date",
            V::Bytes(_) => "bytes",
            V::Tmpl(_) => "template",
        }
    }
    pub fn is_num(&self) -> bool {
        matches!(self, V::Int(_) | V::UInt(_) | V::Float(_))
    }
    /// value equality as the language defines it: numbers by value across kinds, containers member-wise
    pub fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (a, b) if a.is_num() && b.is_num() => num_cmp(a, b) == Some(Ordering::Equal),
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Date(a, b, c), V::Date(d, e, f)) => (a, b, c) == (d, e, f),
            (V::Bytes(a), V::Bytes(b)) => a == b,
            (V::List(a), V::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y)),
            (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.eq(y))),
            (V::Tmpl(a), V::Tmpl(b)) => format!("{:?}", a) == format!("{:?}", b),
            _ => false,
        }
    }
}
struct Raw(String);
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

/// numeric comparison by value, exact across kinds; None with NaN
pub fn num_cmp(a: &V, b: &V) -> Option<Ordering> {
    let int = |v: &V| match v {
        V::Int(i) => Some(*i as i128),
        V::UInt(u) => Some(*u as i128),
        _ => None,
    };
    match (a, b) {
        (V::Float(x), V::Float(y)) => x.partial_cmp(y),
        (V::Float(x), _) => int_vs_float(int(b)?, *x).map(|o| o.reverse()),
        (_, V::Float(y)) => int_vs_float(int(a)?, *y),
        _ => Some(int(a)?.cmp(&int(b)?)),
    }
}
fn int_vs_float(i: i128, f: f64) -> Option<Ordering> {
    if f.is_nan() {
        return None;
    }
    // every finite double is an integer times a power of two: compare without rounding
    if f == f64::INFINITY || f >= 1e30 {
        return Some(Ordering::Less);
    }
    if f == f64::NEG_INFINITY || f <= -1e30 {
        return Some(Ordering::Greater);
    }
    let lo = f.floor() as i128;
    if (lo as f64) == f {
        return Some(i.cmp(&lo));
    }
    Some(if i <= lo { Ordering::Less } else { Ordering::Greater })
}

fn rank(v: &V) -> u8 {
    match v {
        V::Null => 0,
        V::Tmpl(_) => 1,
        V::Map(_) => 2,
        V::List(_) => 3,
        V::Bool(_) => 4,
        V::Int(_) | V::UInt(_) | V::Float(_) => 5,
        V::Date(..) => 6,
        V::Str(_) => 7,
        V::Bytes(_) => 8,
    }
}
/// the total order used for sorting: by kind, then by value, NaN after every other number
pub fn ord(a: &V, b: &V) -> Ordering {
    let nan = |v: &V| matches!(v, V::Float(f) if f.is_nan());
    match (a, b) {
        _ if rank(a) != rank(b) => rank(a).cmp(&rank(b)),
        (V::Str(x), V::Str(y)) => x.cmp(y),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Bytes(x), V::Bytes(y)) => x.cmp(y),
        (V::Date(..), V::Date(..)) => {
            let t = |v: &V| if let V::Date(y, m, d) = v { (*y, *m, *d) } else { (0, 0, 0) };
            t(a).cmp(&t(b))
        }
        (V::List(x), V::List(y)) => {
            for (p, q) in x.iter().zip(y) {
                let o = ord(p, q);
                if o != Ordering::Equal {
                    return o;
                }
            }
            x.len().cmp(&y.len())
        }
        (V::Map(x), V::Map(y)) => {
            for ((k, p), (l, q)) in x.iter().zip(y) {
                let o = k.cmp(l).then_with(|| ord(p, q));
                if o != Ordering::Equal {
                    return o;
                }
            }
            x.len().cmp(&y.len())
        }
        _ if a.is_num() => num_cmp(a, b).unwrap_or_else(|| nan(a).cmp(&nan(b))),
        _ => Ordering::Equal,
    }
}
/// what the comparison functions see: None when a number is NaN or two templates differ
pub fn cmp(a: &V, b: &V) -> Option<Ordering> {
    if a.is_num() && b.is_num() {
        return num_cmp(a, b);
    }
    match ord(a, b) {
        Ordering::Equal if !a.eq(b) => None,
        o => Some(o),
    }
}
