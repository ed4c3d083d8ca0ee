//! Counted enumerations: a finite set with a bijection from 0..n.
use std::sync::Arc;

pub struct G<T> {
    pub n: u64,
    f: Arc<dyn Fn(u64) -> T + Send + Sync>,
}
impl<T> Clone for G<T> {
    fn clone(&self) -> Self {
        G { n: self.n, f: self.f.clone() }
    }
}
impl<T: 'static> G<T> {
    pub fn new(n: u64, f: impl Fn(u64) -> T + Send + Sync + 'static) -> Self {
        G { n, f: Arc::new(f) }
    }
    pub fn at(&self, i: u64) -> T {
        assert!(i < self.n, "index {} out of {}", i, self.n);
        (self.f)(i)
    }
    pub fn map<U: 'static>(&self, g: impl Fn(T) -> U + Send + Sync + 'static) -> G<U> {
        let s = self.clone();
        G::new(self.n, move |i| g(s.at(i)))
    }
    pub fn x<U: 'static>(&self, o: &G<U>) -> G<(T, U)> {
        let (a, b) = (self.clone(), o.clone());
        G::new(a.n.checked_mul(b.n).expect("space too big"), move |i| (a.at(i / b.n), b.at(i % b.n)))
    }
    pub fn opt(&self) -> G<Option<T>> {
        let a = self.clone();
        G::new(a.n + 1, move |i| if i == 0 { None } else { Some(a.at(i - 1)) })
    }
    /// sequences of length lo..=hi, shortest first
    pub fn seq(&self, lo: u32, hi: u32) -> G<Vec<T>> {
        let a = self.clone();
        let k = a.n;
        let n = (lo..=hi).map(|l| k.checked_pow(l).expect("space too big")).sum();
        G::new(n, move |mut i| {
            let mut l = lo;
            loop {
                let c = k.pow(l);
                if i < c {
                    break;
                }
                i -= c;
                l += 1;
            }
            let mut r: Vec<T> = vec![];
            for _ in 0..l {
                r.push(a.at(i % k));
                i /= k;
            }
            r.reverse();
            r
        })
    }
}
pub fn of<T: Clone + Send + Sync + 'static>(v: &[T]) -> G<T> {
    let v: Vec<T> = v.to_vec();
    G::new(v.len() as u64, move |i| v[i as usize].clone())
}
pub fn alt<T: 'static>(v: Vec<G<T>>) -> G<T> {
    let n = v.iter().map(|g| g.n).sum();
    G::new(n, move |mut i| {
        for g in &v {
            if i < g.n {
                return g.at(i);
            }
            i -= g.n;
        }
        unreachable!()
    })
}
