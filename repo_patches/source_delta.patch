From 8b42d781b93a9f1e4bfa2d560f51ca1cc86c2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 01/31] fix: a backslash at the end of a template is text, not
 an endless loop

---
 src/parse/template.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index d68978e..e49165a 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -16,6 +16,7 @@ parser! {(StringItem->String)
     or!(
         ("\\",WN.plus(),maybe("\\")).map(|_|String::new()),
         ("\\",Any.one()).map(|(_,c)|c.to_string()),
+        ("\\",eoi).map(|_|"\\".to_string()),
         ("{",fail_on("{")).map(|(s,_)|s.to_string()),
         WN.plus(),
         not(" \n\t\r{\\").plus(),
-- 
2.43.0


From 59f241f2857f830201f7fd5670ff56bafc122bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 02/31] fix: 'run' without arguments is an error, not a panic

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..ada3d06 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -68,7 +68,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         //Convert TParams to pointers to call the Template
         let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
+        for p in tds.iter().skip(1) {
             v.push(p);
         }
         if let Some(tp) = tds.get(0) {
-- 
2.43.0


From 169f40829f4f1b9b0d5fed6e1aa4c2f1e339b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 03/31] fix: 'select' with an index past its values is an
 error, not a panic

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index ada3d06..f27a6c4 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -97,14 +97,14 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         let bval = args[0].run(scope, tm, fm)?;
         let bval = if let Some(n) = bval.as_usize() {
-            n + 1
+            n.saturating_add(1)
         } else if let Some(b) = bval.as_bool() {
             2 - (b as usize)
         } else {
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 66df30220f5fa62732efd16373d4c4c1644005cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 04/31] fix: 'as' without a match and failing blocks no longer
 leave their scope open

---
 src/template.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..c50d9fb 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -99,7 +99,13 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     let mut res = String::new();
     scope.push();
     for item in block {
-        res.push_str(&item.run(scope, tm, fm)?);
+        match item.run(scope, tm, fm) {
+            Ok(s) => res.push_str(&s),
+            Err(e) => {
+                scope.pop();
+                return Err(e);
+            }
+        }
     }
     scope.pop();
     Ok(res)
@@ -262,14 +268,14 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
-                if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
-                    scope.pop();
-                    return Ok(r);
-                }
-                return Ok(String::new());
+                scope.push();
+                let r = match pat.match_data(&val, scope, tm, fm) {
+                    true => run_block(block, scope, tm, fm),
+                    false => Ok(String::new()),
+                };
+                scope.pop();
+                return r;
             }
         }
     }
-- 
2.43.0


From ac17f6af1f0d1bc3daf545632c64427073c7f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 05/31] fix: integer arithmetic is exact or an error, never a
 panic or a wrapped number

---
 src/funcs/math.rs | 53 +++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 2fb67a8..6a96630 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -17,7 +18,7 @@ pub fn fold<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(l: &[T], f: F) -> anyho
 
 pub enum NumMatch {
     U(usize, usize),
-    I(isize, isize),
+    I(i128, i128),
     F(f64, f64),
 }
 use NumMatch::*;
@@ -25,10 +26,10 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(*a as isize, *b),
+        (TData::UInt(a), TData::Int(b)) => I(*a as i128, *b as i128),
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, *b as isize),
-        (TData::Int(a), TData::Int(b)) => I(*a, *b),
+        (TData::Int(a), TData::UInt(b)) => I(*a as i128, *b as i128),
+        (TData::Int(a), TData::Int(b)) => I(*a as i128, *b as i128),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
         (TData::Float(a), TData::Int(b)) => F(*a, *b as f64),
@@ -37,11 +38,27 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+/// The exact integer or an error if it cannot be represented
+fn int_res<'a>(n: Option<i128>) -> anyhow::Result<TCow<'a>> {
+    let n = n.e_str("Integer result does not exist")?;
+    if let Ok(i) = isize::try_from(n) {
+        return b_ok(TData::Int(i));
+    }
+    match usize::try_from(n) {
+        Ok(u) => b_ok(TData::UInt(u)),
+        Err(_) => e_str("Integer result out of range"),
+    }
+}
+
+fn uint_res<'a>(n: Option<usize>) -> anyhow::Result<TCow<'a>> {
+    b_ok(TData::UInt(n.e_str("Integer result out of range")?))
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
+        Some(U(a, b)) => uint_res(a.checked_add(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a + b))),
+        Some(I(a, b)) => int_res(a.checked_add(b)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -49,9 +66,9 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if l.len() == 1 {
         match l[0].deref() {
-            TData::UInt(n) => return b_ok(TData::Int(-(*n as isize))),
+            TData::UInt(n) => return int_res(Some(-(*n as i128))),
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return b_ok(TData::Int(-*n)),
+            TData::Int(n) => return int_res(Some(-(*n as i128))),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -60,38 +77,38 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             if a >= b {
                 Ok(TCow::Owned(TData::UInt(a - b)))
             } else {
-                Ok(TCow::Owned(TData::Int(a as isize - b as isize)))
+                int_res(Some(a as i128 - b as i128))
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a - b))),
+        Some(I(a, b)) => int_res(a.checked_sub(b)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
 
 pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a * b))),
+        Some(U(a, b)) => uint_res(a.checked_mul(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a * b))),
+        Some(I(a, b)) => int_res(a.checked_mul(b)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
 
 pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a / b))),
+        Some(U(a, b)) => uint_res(a.checked_div(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a / b))),
+        Some(I(a, b)) => int_res(a.checked_div(b)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
 
 pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a % b))),
+        Some(U(a, b)) => uint_res(a.checked_rem(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a % b))),
+        Some(I(a, b)) => int_res(a.checked_rem(b)),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
@@ -100,7 +117,7 @@ pub fn min<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.min(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.min(b)))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.min(b)))),
+        Some(I(a, b)) => int_res(Some(a.min(b))),
         _ => e_str("Can only min numbers"),
     })
 }
@@ -108,7 +125,7 @@ pub fn max<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.max(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.max(b)))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.max(b)))),
+        Some(I(a, b)) => int_res(Some(a.max(b))),
         _ => e_str("Can only max numbers"),
     })
 }
-- 
2.43.0


From c0b0e192ed67235d23d26ddf92fbf34e464a5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 06/31] fix: lists, maps, bytes and templates equal themselves,
 and comparison is one consistent order

---
 src/tdata.rs | 109 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 89 insertions(+), 20 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..5118486 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -21,39 +21,66 @@ pub enum TData {
     Bytes(Vec<u8>),
 }
 
+/// How an integer compares to a float, exactly
+fn int_float_cmp(i: i128, f: f64) -> Option<Ordering> {
+    if f.is_nan() {
+        return None;
+    }
+    let whole = f.trunc();
+    //Out of range floats saturate, far beyond any isize or usize
+    Some(i.cmp(&(whole as i128)).then(if f > whole {
+        Ordering::Less
+    } else if f < whole {
+        Ordering::Greater
+    } else {
+        Ordering::Equal
+    }))
+}
+
+/// None if either is not a number or is NaN
+fn num_cmp(a: &TData, b: &TData) -> Option<Ordering> {
+    use math::NumMatch::*;
+    use TData::*;
+    match (a, b) {
+        (Int(i), Float(f)) => return int_float_cmp(*i as i128, *f),
+        (UInt(u), Float(f)) => return int_float_cmp(*u as i128, *f),
+        (Float(f), Int(i)) => return int_float_cmp(*i as i128, *f).map(Ordering::reverse),
+        (Float(f), UInt(u)) => return int_float_cmp(*u as i128, *f).map(Ordering::reverse),
+        _ => {}
+    }
+    match math::num_match(a, b)? {
+        I(a, b) => a.partial_cmp(&b),
+        U(a, b) => a.partial_cmp(&b),
+        F(a, b) => a.partial_cmp(&b),
+    }
+}
+
 impl PartialOrd for TData {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        use math::NumMatch::*;
-        use TData::*;
-        match math::num_match(self, other) {
-            Some(I(a, b)) => return a.partial_cmp(&b),
-            Some(U(a, b)) => return a.partial_cmp(&b),
-            Some(F(a, b)) => return a.partial_cmp(&b),
-            None => {}
+        if math::num_match(self, other).is_some() {
+            return num_cmp(self, other);
         }
-        match (self, other) {
-            (String(a), String(b)) => return a.partial_cmp(b),
-            (Date(a), Date(b)) => return a.partial_cmp(b),
-            _ => {}
+        match self.sort_cmp(other) {
+            Ordering::Equal if self != other => None,
+            o => Some(o),
         }
-        self.mode_rank().partial_cmp(&other.mode_rank())
     }
 }
 
 impl PartialEq for TData {
     fn eq(&self, other: &Self) -> bool {
-        use math::NumMatch::*;
         use TData::*;
-        match math::num_match(self, other) {
-            Some(I(a, b)) => return a == b,
-            Some(U(a, b)) => return a == b,
-            Some(F(a, b)) => return a == b,
-            None => {}
+        if math::num_match(self, other).is_some() {
+            return num_cmp(self, other) == Some(Ordering::Equal);
         }
         match (self, other) {
             (String(a), String(b)) => a == b,
             (Bool(a), Bool(b)) => a == b,
             (Date(a), Date(b)) => a == b,
+            (List(a), List(b)) => a == b,
+            (Map(a), Map(b)) => a == b,
+            (Bytes(a), Bytes(b)) => a == b,
+            (Template(a), Template(b)) => a == b,
             (Null, Null) => true,
             _ => false,
         }
@@ -161,6 +188,48 @@ impl TData {
         }
     }
 
+    /// A total order on all data, for sorting and searching:
+    /// numbers by value (NaN last), then as mode_rank
+    pub fn sort_cmp(&self, other: &Self) -> Ordering {
+        use TData::*;
+        let is_nan = |t: &TData| match t {
+            Float(f) => f.is_nan(),
+            _ => false,
+        };
+        match (self, other) {
+            (String(a), String(b)) => a.cmp(b),
+            (Date(a), Date(b)) => a.cmp(b),
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Bytes(a), Bytes(b)) => a.cmp(b),
+            (List(a), List(b)) => {
+                for (x, y) in a.iter().zip(b) {
+                    match x.sort_cmp(y) {
+                        Ordering::Equal => {}
+                        o => return o,
+                    }
+                }
+                a.len().cmp(&b.len())
+            }
+            (Map(a), Map(b)) => {
+                let mut a: Vec<_> = a.iter().collect();
+                let mut b: Vec<_> = b.iter().collect();
+                a.sort_by(|x, y| x.0.cmp(y.0));
+                b.sort_by(|x, y| x.0.cmp(y.0));
+                for ((ka, va), (kb, vb)) in a.iter().zip(&b) {
+                    match ka.cmp(kb).then_with(|| va.sort_cmp(vb)) {
+                        Ordering::Equal => {}
+                        o => return o,
+                    }
+                }
+                a.len().cmp(&b.len())
+            }
+            _ if math::num_match(self, other).is_some() => {
+                num_cmp(self, other).unwrap_or_else(|| is_nan(self).cmp(&is_nan(other)))
+            }
+            _ => self.mode_rank().cmp(&other.mode_rank()),
+        }
+    }
+
     pub fn mode_rank(&self) -> usize {
         use TData::*;
         match self {
@@ -171,8 +240,8 @@ impl TData {
             Bool(_) => 4,
             Int(_) => 5,
             UInt(_) => 6,
-            Date(_) => 7,
-            Float(_) => 8,
+            Float(_) => 7,
+            Date(_) => 8,
             String(_) => 9,
             Bytes(_) => 10,
         }
-- 
2.43.0


From 8233ff5e1842b69e9a11e9573290744bb4aae737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 07/31] fix: sorting uses a total order, so NaN can not confuse
 it

---
 src/funcs/lists.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 88d4086..4bf77f6 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -80,7 +80,7 @@ pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
     }
-    res.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+    res.sort_by(|a, b| a.sort_cmp(b));
     b_ok(TData::List(res))
 }
 
@@ -102,10 +102,10 @@ impl Comparator {
     fn compare(&self, a: &TData, b: &TData) -> Ordering {
         o_flip(
             match (a.get_v(&self.v), b.get_v(&self.v)) {
-                (Some(ba), Some(bb)) => ba.partial_cmp(&bb).unwrap_or(Ordering::Equal),
+                (Some(ba), Some(bb)) => ba.sort_cmp(&bb),
                 (Some(_), None) => Ordering::Greater,
                 (None, Some(_)) => Ordering::Less,
-                _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                _ => a.sort_cmp(b),
             },
             self.down,
         )
-- 
2.43.0


From 49a85c48e9596b850abf74f81c466eb913299883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 08/31] fix: 'bin_get' returns the list item it found

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 4bf77f6..b1de0c1 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -184,7 +184,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let comps = build_comparator(&args[2..])?;
     let n = list.binary_search_by(|v| compare(&comps, v, args[1].deref()));
     match n {
-        Ok(n) => Ok(args[n].clone()),
+        Ok(n) => Ok(TCow::Owned(list[n].clone())),
         Err(_) => Ok(TCow::Owned(TData::Null)),
     }
 }
-- 
2.43.0


From 2b078caa769cf25d38b8f417aa6aa83b7e484e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 09/31] fix: 'get' without enough arguments is an error, not a
 panic

---
 src/funcs/lists.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index b1de0c1..238431d 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -190,6 +190,9 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 pub fn get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
+    if args.len() < 2 {
+        return e_str("Get requires List and Number");
+    }
     let pos = match args[1].deref() {
         TData::Int(i) => TData::UInt(*i as usize),
         v => v.clone(),
-- 
2.43.0


From 48c2afdc51d8ccd29f7eb990f269d20312a6e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 10/31] fix: 'html_esc' ends its quote entities with a
 semicolon

---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..93d62c2 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -97,8 +97,8 @@ pub fn html_esc<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
                 '&' => res.push_str("&amp;"),
                 '<' => res.push_str("&lt;"),
                 '>' => res.push_str("&gt;"),
-                '"' => res.push_str("&quot"),
-                '\'' => res.push_str("&#39"),
+                '"' => res.push_str("&quot;"),
+                '\'' => res.push_str("&#39;"),
                 c => res.push(c),
             }
         }
-- 
2.43.0


From 8469f06f45da31261b3851da533c1f89f8704f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 11/31] fix: 'string_from_ints' does not truncate its numbers

---
 src/funcs/strings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 93d62c2..00d4961 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use pulldown_cmark as mdown;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tparam::*;
 
@@ -48,7 +49,7 @@ pub fn contains<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn string_from_ints<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = String::new();
     for a in args {
-        let c = a.as_usize().map(|n| n as u32).map(char::from_u32);
+        let c = a.as_usize().map(|n| u32::try_from(n).ok().and_then(char::from_u32));
         if let Some(Some(ch)) = c {
             res.push(ch)
         }
-- 
2.43.0


From cd33cbcaf3c7763c6b2f6e65a81a22470df4d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 12/31] fix: 'neq' tells if A is different to all the B's, as
 documented

---
 src/funcs/bools.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/funcs/bools.rs b/src/funcs/bools.rs
index 9dc3f40..db06c62 100644
--- a/src/funcs/bools.rs
+++ b/src/funcs/bools.rs
@@ -30,11 +30,11 @@ pub fn neq<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("Not enough args for neq");
     }
     for a in &l[1..] {
-        if *a != l[0] {
-            return b_ok(TData::Bool(true));
+        if *a == l[0] {
+            return b_ok(TData::Bool(false));
         }
     }
-    b_ok(TData::Bool(false))
+    b_ok(TData::Bool(true))
 }
 
 pub fn gt<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From e1c77d7d64aeac0e79efba227b62a535e2ce62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 13/31] fix: names that merely start with null are names

---
 src/parse/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 5b9c772..d749ddb 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -37,7 +37,7 @@ parser! {(Var->VarPart)
 
 parser! { (SimpleData->TData)
     or!(
-        "null".map(|_|TData::Null),
+        keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
         common::Float.map(|f|TData::Float(f)),
-- 
2.43.0


From 67a279039bf125f5f7f7aec1fb2acd3ff1385ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 14/31] fix: date literals with out of range numbers are not
 wrapped into other dates

---
 src/parse/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index d749ddb..0389715 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::expr::*;
 use crate::TData;
 use gobble::*;
+use std::convert::TryFrom;
 
 parser! {(Month->usize)
     or!(
@@ -25,8 +26,10 @@ parser! {(Month->usize)
 
 parser! {(Date->chrono::NaiveDate)
     (common::UInt,"/",Month,"/",common::Int)
-        .try_map(|(d,_,m,_,y)| chrono::NaiveDate::from_ymd_opt(y as i32,m as u32,d as u32)
-            .ok_or(Expected::Str("Date Creation Failed")))
+        .try_map(|(d,_,m,_,y)| match (i32::try_from(y),u32::try_from(d)) {
+            (Ok(y),Ok(d))=>chrono::NaiveDate::from_ymd_opt(y,m as u32,d),
+            _=>None,
+        }.ok_or(Expected::Str("Date Creation Failed")))
 
 }
 
-- 
2.43.0


From 17ae8f8ff8626fa698ff92c464e535e810885273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 15/31] fix: number literals read as the nearest float or exact
 int, with any exponent

---
 src/parse/expr.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 0389715..e4a0d1d 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -38,14 +38,32 @@ parser! {(Var->VarPart)
         common::UInt.map(|u|VarPart::Num(u)))
 }
 
+parser! { (Exponent->())
+    ("eE".one(),maybe("+-".one()),NumDigit.iplus()).ig()
+}
+
+parser! { "A decimal number with a point, an exponent or both"
+    (Float->f64)
+    string((
+        maybe('-'),
+        (NumDigit,'_').iplus(),
+        or_ig!(('.',(NumDigit,'_').istar(),maybe(Exponent)),Exponent),
+    )).try_map(|s|s.replace('_',"").parse().map_err(|_|Expected::Str("Float")))
+}
+
+parser! { (NegInt->isize)
+    ('-',common::UInt).try_map(|(_,n)|isize::try_from(-(n as i128))
+        .map_err(|_|Expected::Str("Int too big")))
+}
+
 parser! { (SimpleData->TData)
     or!(
         keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
-        common::Float.map(|f|TData::Float(f)),
+        Float.map(|f|TData::Float(f)),
         common::UInt.map(|n|TData::UInt(n)),
-        common::Int.map(|i|TData::Int(i)),
+        NegInt.map(|i|TData::Int(i)),
         TString.map(|s|TData::String(s)),
     )
 }
-- 
2.43.0


From 49c6ae8d7f6e919da3790af32c140aeea8873189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 16/31] fix: json numbers above the largest int are read as
 uint, not a panic

---
 src/tdata.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 5118486..11f88be 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -255,7 +255,10 @@ impl TData {
                 if n.is_f64() {
                     Self::Float(n.as_f64().unwrap())
                 } else {
-                    Self::Int(n.as_i64().unwrap() as isize)
+                    match n.as_i64() {
+                        Some(i) => Self::Int(i as isize),
+                        None => Self::UInt(n.as_u64().unwrap_or(0) as usize),
+                    }
                 }
             }
             SV::Null => Self::Null,
-- 
2.43.0


From c0a8365fb32d72e7cf90279ddc7f4a0f5a32c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 17/31] fix: 'r_json' allows space around its value but nothing
 else

---
 src/funcs/format.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/funcs/format.rs b/src/funcs/format.rs
index 8f06d5b..88cb99b 100644
--- a/src/funcs/format.rs
+++ b/src/funcs/format.rs
@@ -1,17 +1,17 @@
 use crate::*;
 //use card_format::Card;
 use err_tools::*;
-use gobble::traits::*;
-use parse::expr::BasicData;
+use gobble::*;
+use parse::{expr::BasicData, wn__};
 //use std::collections::HashMap;
 use std::ops::Deref;
 use tparam::*;
 pub fn r_json<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let s = l.iter().next().e_str("r_json requires a string argument")?;
     if let TData::String(s) = s.deref() {
-        return BasicData
+        return (wn__(BasicData), eoi)
             .parse_s(s)
-            .map(|v| TCow::Owned(v))
+            .map(|(v, _)| TCow::Owned(v))
             .map_err(|e| e.strung().into());
     }
     e_str("r_json requires a single string argument")
-- 
2.43.0


From 130533a6a3877bb0e1da8f08d9d8e7433899da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 18/31] fix: 'word_wrap' ends lines at newlines, counts chars,
 and keeps other unicode space

---
 src/funcs/strings.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 00d4961..4b9172e 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -127,6 +127,7 @@ pub fn regex<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 fn _word_wrap(s: &str, len: usize) -> Vec<String> {
+    let trim = |s: &str| s.trim_matches(|c| "\n\t \r".contains(c)).to_string();
     let mut res = Vec::new();
     let mut index = 0;
     let mut count = 0;
@@ -136,23 +137,24 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         match c {
             ' ' | '\t' => brk = Some(k),
             '\n' => {
-                res.push(s[index..k].to_string());
+                res.push(trim(&s[index..k]));
                 count = 0;
-                index = k;
+                index = k + 1;
                 brk = None;
+                continue;
             }
             _ => {}
         }
         if count >= len {
             match brk {
                 Some(b) => {
-                    res.push(s[index..b].trim().to_string());
+                    res.push(trim(&s[index..b]));
                     index = b;
-                    count = k - b;
+                    count = s[b..k].chars().count();
                     brk = None;
                 }
                 None => {
-                    res.push(s[index..k].trim().to_string());
+                    res.push(trim(&s[index..k]));
                     index = k;
                     count = 0;
                     brk = None;
@@ -161,7 +163,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         }
     }
     if index < s.len() {
-        res.push(s[index..].trim().to_string());
+        res.push(trim(&s[index..]));
     }
     //Assert the wrap has all the chars
     let mut s_join = String::new();
-- 
2.43.0


From 31fc027a7dc4b7e3bc28452f38a87f206fefb83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 19/31] fix: table rows may be continued by a longer row

---
 src/funcs/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/table.rs b/src/funcs/table.rs
index e523f93..d167e18 100644
--- a/src/funcs/table.rs
+++ b/src/funcs/table.rs
@@ -40,7 +40,7 @@ parser! {(Table->String)
             match curr {
                 Some(ref mut v)=>{
                     for (n,s) in row[1..r_len-1].iter().enumerate(){
-                        if n >v.len() {
+                        if n >= v.len() {
                             v.push(s.to_string());
                         }else{
                             write!(v[n]," {}",s).ok();
-- 
2.43.0


From 93e77bdb8a6b2ea9fb8665ae5630a005c337f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 20/31] fix: '..' does not lead out of a locked folder

---
 src/funcs/folder.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..2d24fbb 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -6,16 +6,31 @@ use image::GenericImageView;
 use std::collections::HashMap;
 use std::io::Read;
 use std::ops::Deref;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
-        return Some(pres);
+    let mut inside = Vec::new();
+    let mut has_parent = false;
+    for c in pres.strip_prefix(p).ok()?.components() {
+        match c {
+            Component::Normal(n) => inside.push(n),
+            Component::CurDir => {}
+            Component::ParentDir => {
+                has_parent = true;
+                inside.pop()?;
+            }
+            _ => return None,
+        }
+    }
+    if has_parent {
+        let mut res = p.to_path_buf();
+        res.extend(inside);
+        return Some(res);
     }
-    None
+    Some(pres)
 }
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From 30cd328ec4759a749c80347b02ccc6a51408b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 21/31] fix: 'rand' on an empty range is an error, not a panic

---
 src/funcs/random.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..cad0548 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -1,10 +1,17 @@
 use super::*;
 use err_tools::*;
-use rand::prelude::*;
+use rand::{distributions::uniform::SampleUniform, prelude::*};
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
 
+fn range<T: PartialOrd + SampleUniform>(min: T, max: T) -> anyhow::Result<T> {
+    if min < max {
+        return Ok(rand::thread_rng().gen_range(min, max));
+    }
+    e_str("Could not gen random from empty range")
+}
+
 pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut rg = rand::thread_rng();
     if args.len() == 0 {
@@ -13,16 +20,21 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
     if args.len() == 2 {
         return match (args[0].deref(), args[1].deref()) {
-            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
-            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(range(*a, *b)?)),
+            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(range(*a, *b)?)),
+            (TData::Float(a), TData::Float(b)) => {
+                if !(b - a).is_finite() {
+                    return e_str("Could not gen random from infinite range");
+                }
+                b_ok(TData::Float(range(*a, *b)?))
+            },
             _ => e_str("Could not gen random"),
         };
     }
 
     match args[0].deref() {
-        TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
-        TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Int(n) => b_ok(TData::Int(range(0, *n)?)),
+        TData::UInt(n) => b_ok(TData::UInt(range(0, *n)?)),
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
         TData::List(l) => {
             if l.len() == 0 {
-- 
2.43.0


From 059e48be5f4a243402019f7f4d3564de78f08e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 22/31] fix: 'exec_stdin' neither deadlocks on large data nor
 fails if its input is not read

---
 src/funcs/exec.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/funcs/exec.rs b/src/funcs/exec.rs
index 3366e27..b787082 100644
--- a/src/funcs/exec.rs
+++ b/src/funcs/exec.rs
@@ -25,14 +25,17 @@ pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()?;
-    match c.stdin {
-        Some(ref mut i) => {
-            write!(i, "{}", args[1])?;
-            i.flush()?;
-        }
-        None => return e_str("Stdin not available"),
-    }
+    let mut stdin = c.stdin.take().e_str("Stdin not available")?;
+    let input = args[1].to_string();
+    //Write while reading, so that neither side waits on a full pipe
+    let writer = std::thread::spawn(move || stdin.write_all(input.as_bytes()));
     let op = c.wait_with_output()?;
+    match writer.join() {
+        //The command need not read all its input
+        Ok(Err(e)) if e.kind() != std::io::ErrorKind::BrokenPipe => return Err(e.into()),
+        Err(_) => return e_str("Could not write to stdin"),
+        _ => {}
+    }
 
     b_ok(TData::String(String::from_utf8(op.stdout)?))
 }
-- 
2.43.0


From b0528f960aeac514330f884e6b562da0335a7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 23/31] fix: maps are looped over, shown and written in key
 order, not in a random order

---
 src/tdata.rs    | 30 ++++++++++++++++++++++++++----
 src/template.rs |  2 ++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 11f88be..146f885 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -2,11 +2,11 @@ use crate::funcs::math;
 use gobble::traits::*;
 use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 use crate::template::TreeTemplate;
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub enum TData {
     Bool(bool),
     String(String),
@@ -86,6 +86,28 @@ impl PartialEq for TData {
         }
     }
 }
+impl fmt::Debug for TData {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        use TData::*;
+        match self {
+            Bool(b) => f.debug_tuple("Bool").field(b).finish(),
+            String(s) => f.debug_tuple("String").field(s).finish(),
+            Int(i) => f.debug_tuple("Int").field(i).finish(),
+            UInt(u) => f.debug_tuple("UInt").field(u).finish(),
+            Float(v) => f.debug_tuple("Float").field(v).finish(),
+            List(l) => f.debug_tuple("List").field(l).finish(),
+            //In key order, as maps can be displayed
+            Map(m) => f
+                .debug_tuple("Map")
+                .field(&m.iter().collect::<BTreeMap<_, _>>())
+                .finish(),
+            Template(t) => f.debug_tuple("Template").field(t).finish(),
+            Null => write!(f, "Null"),
+            Date(d) => f.debug_tuple("Date").field(d).finish(),
+            Bytes(b) => f.debug_tuple("Bytes").field(b).finish(),
+        }
+    }
+}
 impl fmt::Display for TData {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use TData::*;
@@ -104,7 +126,7 @@ impl fmt::Display for TData {
                 }
                 write!(f, "]")
             }
-            Map(m) => write!(f, "{:?}", m),
+            Map(m) => write!(f, "{:?}", m.iter().collect::<BTreeMap<_, _>>()),
             Null => write!(f, "NULL"),
             Template(_t) => write!(f, "TEMPLATE"),
             Date(d) => write!(f, "{}", d.format("%d/%m/%Y")),
@@ -133,7 +155,7 @@ impl Serialize for TData {
             }
             TData::Map(m) => {
                 let mut map = ss.serialize_map(Some(m.len()))?;
-                for (k, v) in m {
+                for (k, v) in m.iter().collect::<BTreeMap<_, _>>() {
                     map.serialize_entry(k, v)?;
                 }
                 map.end()
diff --git a/src/template.rs b/src/template.rs
index c50d9fb..a5a7496 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -162,6 +162,8 @@ impl TreeItem {
                 let mut res = String::new();
                 match looper {
                     TData::Map(m) => {
+                        let mut m: Vec<_> = m.into_iter().collect();
+                        m.sort_by(|a, b| a.0.cmp(&b.0));
                         for (mapk, mapv) in m {
                             scope.set(k, TData::String(mapk.to_string()));
                             scope.set(v, mapv.clone());
-- 
2.43.0


From ad9620f9921acb0db9dfb9c16d0faf1a438caf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 24/31] fix: plain values have no members, whichever type they
 are passed as

---
 src/tparam.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 3b6ff3b..749bbf2 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -102,33 +102,51 @@ impl TParam for serde_json::Value {
 }
 
 impl TParam for String {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::String(self.clone())))
     }
 }
 impl TParam for str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::String(String::from(self))))
     }
 }
 
 impl TParam for &str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::String(String::from(*self))))
     }
 }
 impl TParam for usize {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::UInt(*self)))
     }
 }
 impl TParam for f64 {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::Float(*self)))
     }
 }
 impl TParam for bool {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        if s.len() > 0 {
+            return None;
+        }
         Some(Cow::Owned(TData::Bool(*self)))
     }
 }
@@ -147,9 +165,7 @@ impl TParam for Vec<&str> {
                     self.iter().map(|s| TData::String(s.to_string())).collect(),
                 )));
             }
-            Some(VarPart::Num(n)) => self
-                .get(*n)
-                .map(|s| Cow::Owned(TData::String(s.to_string()))),
+            Some(VarPart::Num(n)) => self.get(*n)?.get_v(&s[1..]),
             _ => None,
         }
     }
@@ -163,10 +179,10 @@ impl TParam for Card {
         }
         let id = s[0].as_str()?;
         if id == "Name" {
-            return Some(Cow::Owned(TData::String(self.name.clone())));
+            return self.name.get_v(&s[1..]);
         }
         if id == "Num" {
-            return Some(Cow::Owned(TData::UInt(self.num)));
+            return self.num.get_v(&s[1..]);
         }
         let prop = self.data.get(id)?;
         prop.get_v(&s[1..])
@@ -207,7 +223,8 @@ impl<S: Debug + AsRef<str>, T: Into<TData> + Debug + Clone> TParam for KV<S, T>
             return None;
         }
         if s[0].as_str()? == self.0.as_ref() {
-            return Some(Cow::Owned(self.1.clone().into()));
+            let v: TData = self.1.clone().into();
+            return v.get_v(&s[1..]).map(|v| Cow::Owned(v.into_owned()));
         }
         None
     }
-- 
2.43.0


From 95627818924830e52aa9e092ca184ac82c58dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 25/31] fix: empty lists and maps may contain space

---
 src/parse/expr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index e4a0d1d..11e83db 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -75,8 +75,8 @@ parser! {
 parser! {(BasicData->TData)
     or!(
         SimpleData,
-        ("[",sep_until_ig(wn__(BasicData),maybe(","),"]")).map(|(_,v)|TData::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapData), ",", "}")).map(|a|{
+        ("[",sep_until_ig(wn__(BasicData),maybe(","),wn_("]"))).map(|(_,v)|TData::List(v)),
+        "{".ig_then(sep_until_ig(wn__(MapData), ",", wn_("}"))).map(|a|{
             let mut r = std::collections::HashMap::new();
             for (k,v) in a{
                 r.insert(k,v);
@@ -89,8 +89,8 @@ parser! {(BasicData->TData)
 parser! {(Exp->Expr)
     or!(
         middle('(',wn__(Exp),')'),
-        ("[",sep_until_ig(wn__(Exp),maybe(","),"]")).map(|(_,v)|Expr::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapItem), ",", "}")).map(|a| Expr::Map(a)),
+        ("[",sep_until_ig(wn__(Exp),maybe(","),wn_("]"))).map(|(_,v)|Expr::List(v)),
+        "{".ig_then(sep_until_ig(wn__(MapItem), ",", wn_("}"))).map(|a| Expr::Map(a)),
         ('$',sep_star(Var,'.')).map(|(_,p)|Expr::Var(p)),
         plus(last('.',Var)).map(|v|{
             let mut r = vec![VarPart::Num(0)];
-- 
2.43.0


From e6bfa4f516aa437130529177a84a06d46b681efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 26/31] fix: strings accept surrogate pair escapes, which json
 needs

---
 src/parse/expr.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 11e83db..21ef289 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -103,15 +103,21 @@ parser! {(Exp->Expr)
     )
 }
 
-parser! { (HexUnicode ->char)
+parser! { (Hex4 ->u16)
     HexDigit
         .exact(4)
-        .try_map(|v| {
-            let n: u32 =
-                u32::from_str_radix(&v, 16).map_err(|_| Expected::Str("4 hex digits"))?;
-            std::char::from_u32(n).ok_or(Expected::Str("4 Hex digits"))
-        })
-        .brk()
+        .try_map(|v| u16::from_str_radix(&v, 16).map_err(|_| Expected::Str("4 hex digits")))
+}
+
+parser! { "4 hex digits, or a surrogate pair as in json"
+    (HexUnicode ->char)
+    or!(
+        Hex4.try_map(|n| std::char::from_u32(n as u32).ok_or(Expected::Str("4 Hex digits"))),
+        (Hex4,"\\u",Hex4).try_map(|(a,_,b)| std::char::decode_utf16([a,b].iter().copied())
+            .next()
+            .and_then(|r| r.ok())
+            .ok_or(Expected::Str("surrogate pair"))),
+    ).brk()
 
 }
 
-- 
2.43.0


From cfe73a2504efc43884f3a40c40e50587960e3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 27/31] fix: unclosed brackets in nested commands do not take
 exponential time to reject

---
 src/parse/expr.rs     | 30 ++++++++++++++++++++++++++----
 src/parse/template.rs |  4 ++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 21ef289..441d1b3 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -86,11 +86,33 @@ parser! {(BasicData->TData)
     )
 }
 
+/// Any number of Exp, but an unclosed bracket is an error at once.
+/// Going back to read it as an argument of each outer command takes exponential time.
+#[derive(Clone, Copy)]
+pub struct Args;
+impl Parser for Args {
+    type Out = Vec<Expr>;
+    fn parse<'a>(&self, it: &LCChars<'a>) -> ParseRes<'a, Self::Out> {
+        let mut it = it.clone();
+        let mut res = Vec::new();
+        loop {
+            match wn__(Exp).parse(&it) {
+                Ok((next, v, _)) => {
+                    res.push(v);
+                    it = next;
+                }
+                Err(e) if e.is_brk => return Err(e),
+                Err(e) => return Ok((it, res, Some(e))),
+            }
+        }
+    }
+}
+
 parser! {(Exp->Expr)
     or!(
-        middle('(',wn__(Exp),')'),
-        ("[",sep_until_ig(wn__(Exp),maybe(","),wn_("]"))).map(|(_,v)|Expr::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapItem), ",", wn_("}"))).map(|a| Expr::Map(a)),
+        middle('(',wn__(Exp).brk(),')'.brk()),
+        ("[",sep_until_ig(wn__(Exp),maybe(","),wn_("]")).brk()).map(|(_,v)|Expr::List(v)),
+        "{".ig_then(sep_until_ig(wn__(MapItem), ",", wn_("}")).brk()).map(|a| Expr::Map(a)),
         ('$',sep_star(Var,'.')).map(|(_,p)|Expr::Var(p)),
         plus(last('.',Var)).map(|v|{
             let mut r = vec![VarPart::Num(0)];
@@ -99,7 +121,7 @@ parser! {(Exp->Expr)
         }),
         ('@').map(|_| Expr::Var(vec![VarPart::Id("@".to_string())])),
         SimpleData.map(|d| Expr::Lit(d)),
-        (Ident,star(wn__(Exp))).map(|(c,v)|Expr::Command(c,v)),
+        (Ident,Args).map(|(c,v)|Expr::Command(c,v)),
     )
 }
 
diff --git a/src/parse/template.rs b/src/parse/template.rs
index e49165a..5086c45 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -1,4 +1,4 @@
-use super::expr::Exp;
+use super::expr::{Args, Exp};
 use super::*;
 use crate::expr::Expr;
 use crate::template::*;
@@ -52,7 +52,7 @@ parser! {(Item->FlatItem)
             (keyword("export"),plus(Assign)).map(|(_,v)|FlatItem::Export(v)),
             (keyword("@let"),wn_(Ident)).map(|(_,n)|FlatItem::AtLet(n)),
             (keyword("@export"),wn_(Ident)).map(|(_,n)|FlatItem::AtExport(n)),
-            ('@',Ident," \t\n".istar(),star(wn__(Exp))).map(|(_,s,_,b)|FlatItem::Block(s,b)),
+            ('@',Ident," \t\n".istar(),Args).map(|(_,s,_,b)|FlatItem::Block(s,b)),
             ('/',Ident,WS.star()).map(|(_,n,_)|FlatItem::EndBlock(n)),
             Exp.map(|p|FlatItem::Exp(p)),
     ).brk(),wn_(IClose).brk())
-- 
2.43.0


From 4eb128c4c743b6f61a5d40fa2b01828c176d440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 28/31] fix: maps accept space after the colon, as json needs

---
 src/parse/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 441d1b3..3ad2ad2 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -69,7 +69,7 @@ parser! { (SimpleData->TData)
 }
 parser! {
     (MapData->(String,TData))
-    (wn__(TString),":", BasicData).map(|(a, _, b)| (a, b))
+    (wn__(TString),":", wn_(BasicData)).map(|(a, _, b)| (a, b))
 }
 
 parser! {(BasicData->TData)
@@ -174,5 +174,5 @@ parser! {
 
 parser! {
     (MapItem->(String,Expr))
-    (wn__(or!(Ident,TString)),":", Exp).map(|(a, _, b)| (a, b))
+    (wn__(or!(Ident,TString)),":", wn_(Exp)).map(|(a, _, b)| (a, b))
 }
-- 
2.43.0


From 50aa57f42da8d8c58d9b4d3aedcfc17060e2ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 29/31] fix: a tag broken after a partial expression is an
 error rather than an endless loop

---
 src/parse/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index 5086c45..8c70431 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -56,5 +56,5 @@ parser! {(Item->FlatItem)
             ('/',Ident,WS.star()).map(|(_,n,_)|FlatItem::EndBlock(n)),
             Exp.map(|p|FlatItem::Exp(p)),
     ).brk(),wn_(IClose).brk())
-        .or(strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi))).map(|(s,_)|FlatItem::String(s)))
+        .or((peek(StringItem),strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi)))).map(|(_,(s,_))|FlatItem::String(s)))
 }
-- 
2.43.0


From fea1d4da61b28336801af8132d38f85d4ce38b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 30/31] fix: a card whose data has a Name or Num is the same by
 path and as a whole

---
 src/tdata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 146f885..66c5e88 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -365,11 +365,11 @@ use card_format::{CData, Card};
 impl From<&Card> for TData {
     fn from(c: &Card) -> Self {
         let mut m = std::collections::HashMap::new();
-        m.insert("Name".to_string(), TData::String(c.name.clone()));
-        m.insert("Num".to_string(), TData::UInt(c.num));
         for (k, v) in &c.data {
             m.insert(k.clone(), v.into());
         }
+        m.insert("Name".to_string(), TData::String(c.name.clone()));
+        m.insert("Num".to_string(), TData::UInt(c.num));
         TData::Map(m)
     }
 }
-- 
2.43.0


From de740cca371a22c446501407fccc3ea7cf0c884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 31/31] fix: 'with_ext' with a separator in its extension is an
 error, not a panic

---
 src/funcs/path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index 62b8487..adf4a18 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -77,7 +77,11 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("'with_ext' requires a filenae then an extension");
     }
     let p = PathBuf::from(args[0].to_string());
-    let pe = p.with_extension(args[1].to_string());
+    let ext = args[1].to_string();
+    if ext.chars().any(std::path::is_separator) {
+        return e_str("'with_ext' requires an extension without path separators");
+    }
+    let pe = p.with_extension(ext);
     b_ok(path_dat(&pe))
 }
 
-- 
2.43.0

