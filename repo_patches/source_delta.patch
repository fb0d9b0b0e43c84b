From edecfb3255507513d305de51549ddef501abc5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 01/39] fix: folder lock could be escaped with ".." (and with
 an empty lock folder)

---
 src/funcs/folder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..0124e2e 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -6,16 +6,23 @@ use image::GenericImageView;
 use std::collections::HashMap;
 use std::io::Read;
 use std::ops::Deref;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
-        return Some(pres);
+    // starts_with compares components, so ".." must not be able to climb back out
+    let mut depth = 0usize;
+    for c in pres.strip_prefix(p).ok()?.components() {
+        match c {
+            Component::Normal(_) => depth += 1,
+            Component::CurDir => {}
+            Component::ParentDir => depth = depth.checked_sub(1)?,
+            Component::RootDir | Component::Prefix(_) => return None,
+        }
     }
-    None
+    Some(pres)
 }
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From 8c50bdf97e64af6d59560e584eaed5db66fcd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 02/39] fix: "run" panicked without arguments and evaluated its
 arguments twice when not given a template

---
 src/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..f785e35 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -68,7 +68,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         //Convert TParams to pointers to call the Template
         let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
+        for p in tds.iter().skip(1) {
             v.push(p);
         }
         if let Some(tp) = tds.get(0) {
@@ -80,6 +80,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
                 return Ok(TCow::Owned(TData::String(s)));
             }
         }
+        return run_values(cname, &tds, tm, fm);
     }
     if cname == "first" {
         for p in args {
-- 
2.43.0


From 3863171dce8a19a71f0368a402455698b4c9f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 03/39] fix: "select" panicked when the index was out of range

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index f785e35..0c2c7b2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -98,14 +98,14 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         let bval = args[0].run(scope, tm, fm)?;
         let bval = if let Some(n) = bval.as_usize() {
-            n + 1
+            n.saturating_add(1)
         } else if let Some(b) = bval.as_bool() {
             2 - (b as usize)
         } else {
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 0ff0f3654abd9156b23b6312102b8664af4b4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 04/39] fix: "get" panicked with fewer than two arguments

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 88d4086..d9e8c97 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -190,7 +190,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 pub fn get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-    let pos = match args[1].deref() {
+    let pos = match args.get(1).e_str("Get requires List and Number")?.deref() {
         TData::Int(i) => TData::UInt(*i as usize),
         v => v.clone(),
     };
-- 
2.43.0


From a6d4ee587e78723fe21e38a622d557d9747bf183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 05/39] fix: "bin_get" returned (or panicked on) an argument
 instead of the item found in the list

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index d9e8c97..b3d3831 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -184,7 +184,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let comps = build_comparator(&args[2..])?;
     let n = list.binary_search_by(|v| compare(&comps, v, args[1].deref()));
     match n {
-        Ok(n) => Ok(args[n].clone()),
+        Ok(n) => Ok(TCow::Owned(list[n].clone())),
         Err(_) => Ok(TCow::Owned(TData::Null)),
     }
 }
-- 
2.43.0


From d9d48c7154588ca048aa4f64bcd4c22605e2745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 06/39] fix: integer overflow and division by zero in maths
 functions panicked

---
 src/funcs/math.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 2fb67a8..3efde55 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -15,6 +16,11 @@ pub fn fold<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(l: &[T], f: F) -> anyho
     Ok(res)
 }
 
+///Integer results that can not be represented, are errors
+fn checked(v: Option<TData>) -> anyhow::Result<TCow<'static>> {
+    v.map(TCow::Owned).e_str("Number overflow or division by zero")
+}
+
 pub enum NumMatch {
     U(usize, usize),
     I(isize, isize),
@@ -39,9 +45,9 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
 
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
+        Some(U(a, b)) => checked(a.checked_add(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a + b))),
+        Some(I(a, b)) => checked(a.checked_add(b).map(TData::Int)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -49,9 +55,11 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if l.len() == 1 {
         match l[0].deref() {
-            TData::UInt(n) => return b_ok(TData::Int(-(*n as isize))),
+            TData::UInt(n) => {
+                return checked(isize::try_from(-(*n as i128)).ok().map(TData::Int))
+            }
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return b_ok(TData::Int(-*n)),
+            TData::Int(n) => return checked(n.checked_neg().map(TData::Int)),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -60,38 +68,38 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             if a >= b {
                 Ok(TCow::Owned(TData::UInt(a - b)))
             } else {
-                Ok(TCow::Owned(TData::Int(a as isize - b as isize)))
+                checked(isize::try_from(a as i128 - b as i128).ok().map(TData::Int))
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a - b))),
+        Some(I(a, b)) => checked(a.checked_sub(b).map(TData::Int)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
 
 pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a * b))),
+        Some(U(a, b)) => checked(a.checked_mul(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a * b))),
+        Some(I(a, b)) => checked(a.checked_mul(b).map(TData::Int)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
 
 pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a / b))),
+        Some(U(a, b)) => checked(a.checked_div(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a / b))),
+        Some(I(a, b)) => checked(a.checked_div(b).map(TData::Int)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
 
 pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a % b))),
+        Some(U(a, b)) => checked(a.checked_rem(b).map(TData::UInt)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a % b))),
+        Some(I(a, b)) => checked(a.checked_rem(b).map(TData::Int)),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
-- 
2.43.0


From e6f6671487330e75b6d7f01e913bb34c88990cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 07/39] fix: unsigned numbers above isize::MAX were treated as
 negative next to signed ones

---
 src/funcs/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 3efde55..240e6a8 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -31,9 +31,9 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(*a as isize, *b),
+        (TData::UInt(a), TData::Int(b)) => I(isize::try_from(*a).ok()?, *b),
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, *b as isize),
+        (TData::Int(a), TData::UInt(b)) => I(*a, isize::try_from(*b).ok()?),
         (TData::Int(a), TData::Int(b)) => I(*a, *b),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
-- 
2.43.0


From 9407d4663dcc43eb0bb394cc33cebbb3bcfbc9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 08/39] fix: "rand" panicked on an empty range

---
 src/funcs/random.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..3074ccd 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -13,16 +13,16 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
     if args.len() == 2 {
         return match (args[0].deref(), args[1].deref()) {
-            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
-            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Int(a), TData::Int(b)) if a < b => b_ok(TData::Int(rg.gen_range(a, b))),
+            (TData::UInt(a), TData::UInt(b)) if a < b => b_ok(TData::UInt(rg.gen_range(a, b))),
+            (TData::Float(a), TData::Float(b)) if a < b && (b - a).is_finite() => b_ok(TData::Float(rg.gen_range(a, b))),
             _ => e_str("Could not gen random"),
         };
     }
 
     match args[0].deref() {
-        TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
-        TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Int(n) if *n > 0 => b_ok(TData::Int(rg.gen_range(0, n))),
+        TData::UInt(n) if *n > 0 => b_ok(TData::UInt(rg.gen_range(0, n))),
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
         TData::List(l) => {
             if l.len() == 0 {
-- 
2.43.0


From 8d898a8e5fab8666fa7b0acc61cd68eb82f51dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 09/39] fix: "with_ext" panicked when the extension contained a
 path separator

---
 src/funcs/path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index 62b8487..875ef7d 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -77,7 +77,11 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("'with_ext' requires a filenae then an extension");
     }
     let p = PathBuf::from(args[0].to_string());
-    let pe = p.with_extension(args[1].to_string());
+    let ext = args[1].to_string();
+    if ext.contains(std::path::is_separator) {
+        return e_str("'with_ext' extension cannot contain a path separator");
+    }
+    let pe = p.with_extension(ext);
     b_ok(path_dat(&pe))
 }
 
-- 
2.43.0


From 347b0b967764dc9311ce080705e979fa8e6187fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 10/39] fix: "word_wrap" panicked when it trimmed non ascii
 whitespace

---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..ca9e1ef 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -167,8 +167,8 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
     for s in res.iter() {
         s_join.push_str(s);
     }
-    let s_no_line = s.replace(|c| "\n\t \r".contains(c), "");
-    s_join = s_join.replace(|c| "\n\t \r".contains(c), "");
+    let s_no_line = s.replace(char::is_whitespace, "");
+    s_join = s_join.replace(char::is_whitespace, "");
     assert_eq!(s_join, s_no_line, "Word wrap failure");
     res
 }
-- 
2.43.0


From ded6d9b80772c0a0d312e68b78e45851d0aa2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 11/39] fix: "word_wrap" kept the newline at the start of lines
 after the first

---
 src/funcs/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index ca9e1ef..1d8f24a 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -135,7 +135,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         match c {
             ' ' | '\t' => brk = Some(k),
             '\n' => {
-                res.push(s[index..k].to_string());
+                res.push(s[index..k].trim_start_matches('\n').to_string());
                 count = 0;
                 index = k;
                 brk = None;
-- 
2.43.0


From 0a95ef6878dd7e6621a5209f2c2151c6f061b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 12/39] fix: "word_wrap" counted bytes after a break, so split
 words shorter than the width

---
 src/funcs/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 1d8f24a..6a5c1e0 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -147,7 +147,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
                 Some(b) => {
                     res.push(s[index..b].trim().to_string());
                     index = b;
-                    count = k - b;
+                    count = s[b..k].chars().count();
                     brk = None;
                 }
                 None => {
-- 
2.43.0


From bbb80f6e932877a7e304f43d1160ed1d060745bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 13/39] fix: "html_esc" wrote quote entities without the
 closing semicolon

---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 6a5c1e0..324f148 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -97,8 +97,8 @@ pub fn html_esc<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
                 '&' => res.push_str("&amp;"),
                 '<' => res.push_str("&lt;"),
                 '>' => res.push_str("&gt;"),
-                '"' => res.push_str("&quot"),
-                '\'' => res.push_str("&#39"),
+                '"' => res.push_str("&quot;"),
+                '\'' => res.push_str("&#39;"),
                 c => res.push(c),
             }
         }
-- 
2.43.0


From 57bfdd19e65fcf7fc8934763723e95784c067fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 14/39] fix: "string_from_ints" truncated numbers above
 u32::MAX to unrelated characters

---
 src/funcs/strings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 324f148..6ba781a 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use pulldown_cmark as mdown;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tparam::*;
 
@@ -48,7 +49,7 @@ pub fn contains<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn string_from_ints<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = String::new();
     for a in args {
-        let c = a.as_usize().map(|n| n as u32).map(char::from_u32);
+        let c = a.as_usize().map(|n| u32::try_from(n).ok().and_then(char::from_u32));
         if let Some(Some(ch)) = c {
             res.push(ch)
         }
-- 
2.43.0


From 3a5c0679da5860de198ff6c38a3af2e4039ad130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 15/39] fix: "table" panicked when a continuation row had more
 columns

---
 src/funcs/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/table.rs b/src/funcs/table.rs
index e523f93..d167e18 100644
--- a/src/funcs/table.rs
+++ b/src/funcs/table.rs
@@ -40,7 +40,7 @@ parser! {(Table->String)
             match curr {
                 Some(ref mut v)=>{
                     for (n,s) in row[1..r_len-1].iter().enumerate(){
-                        if n >v.len() {
+                        if n >= v.len() {
                             v.push(s.to_string());
                         }else{
                             write!(v[n]," {}",s).ok();
-- 
2.43.0


From 8c48334313a7a662168bc6ccef3cff86a1717fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 16/39] fix: json numbers above i64::MAX panicked

---
 src/tdata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..9218980 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -185,8 +185,10 @@ impl TData {
             SV::Number(n) => {
                 if n.is_f64() {
                     Self::Float(n.as_f64().unwrap())
+                } else if let Some(i) = n.as_i64() {
+                    Self::Int(i as isize)
                 } else {
-                    Self::Int(n.as_i64().unwrap() as isize)
+                    Self::UInt(n.as_u64().unwrap() as usize)
                 }
             }
             SV::Null => Self::Null,
-- 
2.43.0


From 6bdd16f476073dc8b31630bcc78e246a7d855a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 17/39] fix: an "as" that did not match left its scope (and
 captures) open

---
 src/template.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..a829eb7 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,14 +262,14 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
-                if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
-                    scope.pop();
-                    return Ok(r);
-                }
-                return Ok(String::new());
+                scope.push();
+                let r = match pat.match_data(&val, scope, tm, fm) {
+                    true => run_block(block, scope, tm, fm),
+                    false => Ok(String::new()),
+                };
+                scope.pop();
+                return r;
             }
         }
     }
-- 
2.43.0


From 1a48f67a41936911f1bda7d0e09d0882bffd0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 18/39] fix: a block that failed left its scope open, leaking
 its variables into later front matter

---
 src/template.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index a829eb7..9c12a42 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -96,13 +96,10 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     tm: &mut TM,
     fm: &FM,
 ) -> anyhow::Result<String> {
-    let mut res = String::new();
     scope.push();
-    for item in block {
-        res.push_str(&item.run(scope, tm, fm)?);
-    }
+    let res = block.iter().map(|item| item.run(scope, tm, fm)).collect();
     scope.pop();
-    Ok(res)
+    res
 }
 
 impl TreeItem {
-- 
2.43.0


From be35ac8bed105e104a9e20c59d0e07540b6e5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 19/39] fix: "neq" only needed one of the values to be
 different, not all as it is described

---
 src/funcs/bools.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/funcs/bools.rs b/src/funcs/bools.rs
index 9dc3f40..db06c62 100644
--- a/src/funcs/bools.rs
+++ b/src/funcs/bools.rs
@@ -30,11 +30,11 @@ pub fn neq<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("Not enough args for neq");
     }
     for a in &l[1..] {
-        if *a != l[0] {
-            return b_ok(TData::Bool(true));
+        if *a == l[0] {
+            return b_ok(TData::Bool(false));
         }
     }
-    b_ok(TData::Bool(false))
+    b_ok(TData::Bool(true))
 }
 
 pub fn gt<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From aa507146298c64102776592765e30aa572ad236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 20/39] fix: lists, maps, bytes and templates were never equal,
 even to themselves

---
 src/tdata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index 9218980..a6b9245 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -55,6 +55,10 @@ impl PartialEq for TData {
             (Bool(a), Bool(b)) => a == b,
             (Date(a), Date(b)) => a == b,
             (Null, Null) => true,
+            (List(a), List(b)) => a == b,
+            (Map(a), Map(b)) => a == b,
+            (Bytes(a), Bytes(b)) => a == b,
+            (Template(a), Template(b)) => a == b,
             _ => false,
         }
     }
-- 
2.43.0


From eb574f6e86024abfb916a74631d9cff77b83ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 21/39] fix: dates ranked between ints and floats, so lists
 mixing them had no consistent order and could panic in sort

---
 src/tdata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index a6b9245..d3da5b6 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -175,8 +175,8 @@ impl TData {
             Bool(_) => 4,
             Int(_) => 5,
             UInt(_) => 6,
-            Date(_) => 7,
-            Float(_) => 8,
+            Float(_) => 7,
+            Date(_) => 8,
             String(_) => 9,
             Bytes(_) => 10,
         }
-- 
2.43.0


From bd160040ddbf09e5798a7abd27a65589d7a58cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:05 +0000
Subject: [PATCH 22/39] fix: true and false compared as equal in order, but not
 in equality

---
 src/tdata.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index d3da5b6..2add603 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -34,6 +34,7 @@ impl PartialOrd for TData {
         match (self, other) {
             (String(a), String(b)) => return a.partial_cmp(b),
             (Date(a), Date(b)) => return a.partial_cmp(b),
+            (Bool(a), Bool(b)) => return a.partial_cmp(b),
             _ => {}
         }
         self.mode_rank().partial_cmp(&other.mode_rank())
-- 
2.43.0


From 06b80f67ca71ac4c28e4ba18dc47840445b7f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 23/39] fix: comparing large integers with floats was not
 transitive

---
 src/funcs/math.rs | 17 +++++++++++++++++
 src/tdata.rs      | 10 ++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 240e6a8..d81a217 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::cmp::Ordering;
 use std::convert::TryFrom;
 use std::ops::Deref;
 use tdata::*;
@@ -43,6 +44,22 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+///Compare an integer to a float without rounding the integer, which would not be transitive
+pub fn cmp_int_float(i: &TData, f: f64) -> Option<Ordering> {
+    let i = match i {
+        TData::UInt(u) => *u as i128,
+        TData::Int(i) => *i as i128,
+        _ => return None,
+    };
+    if f.is_nan() {
+        return None;
+    }
+    match i.cmp(&(f.trunc() as i128)) {
+        Ordering::Equal => 0f64.partial_cmp(&f.fract()),
+        r => Some(r),
+    }
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => checked(a.checked_add(b).map(TData::UInt)),
diff --git a/src/tdata.rs b/src/tdata.rs
index 2add603..2dbc71a 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -28,7 +28,13 @@ impl PartialOrd for TData {
         match math::num_match(self, other) {
             Some(I(a, b)) => return a.partial_cmp(&b),
             Some(U(a, b)) => return a.partial_cmp(&b),
-            Some(F(a, b)) => return a.partial_cmp(&b),
+            Some(F(a, b)) => {
+                return match (self, other) {
+                    (Float(_), Float(_)) => a.partial_cmp(&b),
+                    (_, Float(_)) => math::cmp_int_float(self, b),
+                    _ => math::cmp_int_float(other, a).map(Ordering::reverse),
+                }
+            }
             None => {}
         }
         match (self, other) {
@@ -48,7 +54,7 @@ impl PartialEq for TData {
         match math::num_match(self, other) {
             Some(I(a, b)) => return a == b,
             Some(U(a, b)) => return a == b,
-            Some(F(a, b)) => return a == b,
+            Some(F(_, _)) => return self.partial_cmp(other) == Some(Ordering::Equal),
             None => {}
         }
         match (self, other) {
-- 
2.43.0


From c606936fc4b82a68d7666c68f0ca19e944fe4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 24/39] fix: sorting lists that contain NaN could panic

---
 src/funcs/lists.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index b3d3831..02ea532 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -71,6 +71,12 @@ pub fn index_of<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     return b_ok(TData::Null)
 }
 
+///Sorting needs a total order, so NaN goes after the other numbers
+fn order(a: &TData, b: &TData) -> Ordering {
+    let nan = |d: &TData| matches!(d, TData::Float(f) if f.is_nan());
+    a.partial_cmp(b).unwrap_or_else(|| nan(a).cmp(&nan(b)))
+}
+
 pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = Vec::new();
     for a in args {
@@ -80,7 +86,7 @@ pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
     }
-    res.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+    res.sort_by(order);
     b_ok(TData::List(res))
 }
 
@@ -102,10 +108,10 @@ impl Comparator {
     fn compare(&self, a: &TData, b: &TData) -> Ordering {
         o_flip(
             match (a.get_v(&self.v), b.get_v(&self.v)) {
-                (Some(ba), Some(bb)) => ba.partial_cmp(&bb).unwrap_or(Ordering::Equal),
+                (Some(ba), Some(bb)) => order(&ba, &bb),
                 (Some(_), None) => Ordering::Greater,
                 (None, Some(_)) => Ordering::Less,
-                _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                _ => order(a, b),
             },
             self.down,
         )
-- 
2.43.0


From 816c2c7f66803c31d746643d1dd906feed766b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 25/39] fix: "exec_stdin" deadlocked (or failed with a broken
 pipe) when the stdin given was large

---
 src/funcs/exec.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/funcs/exec.rs b/src/funcs/exec.rs
index 3366e27..382cbfc 100644
--- a/src/funcs/exec.rs
+++ b/src/funcs/exec.rs
@@ -25,14 +25,20 @@ pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()?;
-    match c.stdin {
-        Some(ref mut i) => {
-            write!(i, "{}", args[1])?;
-            i.flush()?;
+    // Fed from another thread, as the child may fill its stdout before it has read all of its stdin
+    let feed = match c.stdin.take() {
+        Some(mut i) => {
+            let s = args[1].to_string();
+            std::thread::spawn(move || i.write_all(s.as_bytes()))
         }
         None => return e_str("Stdin not available"),
-    }
+    };
     let op = c.wait_with_output()?;
+    match feed.join() {
+        // A child that stops reading early has not failed
+        Ok(Err(e)) if e.kind() != std::io::ErrorKind::BrokenPipe => return Err(e.into()),
+        _ => {}
+    }
 
     b_ok(TData::String(String::from_utf8(op.stdout)?))
 }
-- 
2.43.0


From 1d94951716ef69ba99ecbe8b89badcc9161ab9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 26/39] fix: float literals were inexact, lost the sign of
 "-0.x", hung on large exponents, and "1e5" and isize::MIN could not be read

---
 src/parse/expr.rs | 65 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 5b9c772..fe55129 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -35,14 +35,75 @@ parser! {(Var->VarPart)
         common::UInt.map(|u|VarPart::Num(u)))
 }
 
+fn digits<'a>(it: &mut LCChars<'a>, res: &mut String) -> bool {
+    let start = res.len();
+    loop {
+        let back = it.clone();
+        match it.next() {
+            Some(c) if c.is_ascii_digit() => res.push(c),
+            Some('_') if res.len() > start => {}
+            _ => {
+                *it = back;
+                return res.len() > start;
+            }
+        }
+    }
+}
+
+// A number with a decimal point, an exponent, or both
+fn float<'a>(i: &LCChars<'a>) -> ParseRes<'a, f64> {
+    let mut it = i.clone();
+    let mut res = String::new();
+    if let Some('-') = i.clone().next() {
+        it.next();
+        res.push('-');
+    }
+    if !digits(&mut it, &mut res) {
+        return i.err_rs("[0-9]*");
+    }
+    let mut found = false;
+    if let Some('.') = it.clone().next() {
+        it.next();
+        res.push('.');
+        digits(&mut it, &mut res);
+        found = true;
+    }
+    let mut exp = it.clone();
+    if let Some('e') | Some('E') = exp.next() {
+        let mut exp_s = String::from("e");
+        if let Some(c @ '-') | Some(c @ '+') = exp.clone().next() {
+            exp.next();
+            exp_s.push(c);
+        }
+        if digits(&mut exp, &mut exp_s) {
+            it = exp;
+            res.push_str(&exp_s);
+            found = true;
+        }
+    }
+    match (found, res.parse()) {
+        (true, Ok(f)) => Ok((it, f, None)),
+        _ => i.err_rs("A decimal point or an exponent"),
+    }
+}
+
+parser! {(Float->f64)
+    float
+}
+
+parser! {(NegInt->isize)
+    ('-',common::UInt).try_map(|(_,n)|
+        0isize.checked_sub_unsigned(n).ok_or(Expected::Str("Int too big")))
+}
+
 parser! { (SimpleData->TData)
     or!(
         "null".map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
-        common::Float.map(|f|TData::Float(f)),
+        Float.map(|f|TData::Float(f)),
         common::UInt.map(|n|TData::UInt(n)),
-        common::Int.map(|i|TData::Int(i)),
+        NegInt.map(|i|TData::Int(i)),
         TString.map(|s|TData::String(s)),
     )
 }
-- 
2.43.0


From 79730473fa580c7ae7c31666f99b44eaa337364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 27/39] fix: a lone "\" at the end of a template, directly
 after a tag, made the parser loop for ever

---
 src/parse/template.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index d68978e..86a7609 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -55,5 +55,6 @@ parser! {(Item->FlatItem)
             ('/',Ident,WS.star()).map(|(_,n,_)|FlatItem::EndBlock(n)),
             Exp.map(|p|FlatItem::Exp(p)),
     ).brk(),wn_(IClose).brk())
-        .or(strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi))).map(|(s,_)|FlatItem::String(s)))
+        // peek, as strings_plus_until never returns if the first StringItem fails
+        .or((peek(StringItem),strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi)))).map(|(_,(s,_))|FlatItem::String(s)))
 }
-- 
2.43.0


From d38f9711a876ad80e4f4835578f24f6bc1395cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 28/39] fix: maps could not be read (in templates or json) with
 a space after the colon

---
 src/parse/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index fe55129..6929026 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -109,7 +109,7 @@ parser! { (SimpleData->TData)
 }
 parser! {
     (MapData->(String,TData))
-    (wn__(TString),":", BasicData).map(|(a, _, b)| (a, b))
+    (wn__(TString),":", wn_(BasicData)).map(|(a, _, b)| (a, b))
 }
 
 parser! {(BasicData->TData)
@@ -186,5 +186,5 @@ parser! {
 
 parser! {
     (MapItem->(String,Expr))
-    (wn__(or!(Ident,TString)),":", Exp).map(|(a, _, b)| (a, b))
+    (wn__(or!(Ident,TString)),":", wn_(Exp)).map(|(a, _, b)| (a, b))
 }
-- 
2.43.0


From 24b1d33a880b9d38bd23cc020044e54b6933ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 29/39] fix: lists and maps holding only whitespace (eg. "[ ]")
 could not be read

---
 src/parse/expr.rs    | 8 ++++----
 src/parse/pattern.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 6929026..cb6194b 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -115,8 +115,8 @@ parser! {
 parser! {(BasicData->TData)
     or!(
         SimpleData,
-        ("[",sep_until_ig(wn__(BasicData),maybe(","),"]")).map(|(_,v)|TData::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapData), ",", "}")).map(|a|{
+        ("[",sep_until_ig(wn__(BasicData),maybe(","),wn_("]"))).map(|(_,v)|TData::List(v)),
+        "{".ig_then(sep_until_ig(wn__(MapData), ",", wn_("}"))).map(|a|{
             let mut r = std::collections::HashMap::new();
             for (k,v) in a{
                 r.insert(k,v);
@@ -129,8 +129,8 @@ parser! {(BasicData->TData)
 parser! {(Exp->Expr)
     or!(
         middle('(',wn__(Exp),')'),
-        ("[",sep_until_ig(wn__(Exp),maybe(","),"]")).map(|(_,v)|Expr::List(v)),
-        "{".ig_then(sep_until_ig(wn__(MapItem), ",", "}")).map(|a| Expr::Map(a)),
+        ("[",sep_until_ig(wn__(Exp),maybe(","),wn_("]"))).map(|(_,v)|Expr::List(v)),
+        "{".ig_then(sep_until_ig(wn__(MapItem), ",", wn_("}"))).map(|a| Expr::Map(a)),
         ('$',sep_star(Var,'.')).map(|(_,p)|Expr::Var(p)),
         plus(last('.',Var)).map(|v|{
             let mut r = vec![VarPart::Num(0)];
diff --git a/src/parse/pattern.rs b/src/parse/pattern.rs
index d51a81a..2032110 100644
--- a/src/parse/pattern.rs
+++ b/src/parse/pattern.rs
@@ -15,8 +15,8 @@ parser! {(PatKV->(String,Pattern))
 parser! {(Pat ->Pattern)
     or!(
         keyword("_").asv(Pattern::Any),
-        ("{",sep_until_ig(wn__(PatKV),maybe(","),"}")).map(|(_,v)|Pattern::Map(v)),
-        ("[",sep_until_ig(wn__(Pat),maybe(","),"]")).map(|(_,v)|Pattern::List(v)),
+        ("{",sep_until_ig(wn__(PatKV),maybe(","),wn_("}"))).map(|(_,v)|Pattern::Map(v)),
+        ("[",sep_until_ig(wn__(Pat),maybe(","),wn_("]"))).map(|(_,v)|Pattern::List(v)),
         ("?(",Exp,")").map(|(_,v,_)|Pattern::Filter(v)),
         ("<",wn__(Ident),maybe(":".ig_then(Pat)),">").map(|(_,i,op,_)|Pattern::Capture(i,op.map(|p|Box::new(p)))),
 
-- 
2.43.0


From 14841627be4aca73cc3c1340da0aa49ced55ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 30/39] fix: "r_json" and TData::from_str ignored whatever
 followed the first value, and failed on leading whitespace

---
 src/funcs/format.rs | 4 ++--
 src/parse/expr.rs   | 5 +++++
 src/tdata.rs        | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/funcs/format.rs b/src/funcs/format.rs
index 8f06d5b..c1217cf 100644
--- a/src/funcs/format.rs
+++ b/src/funcs/format.rs
@@ -2,14 +2,14 @@ use crate::*;
 //use card_format::Card;
 use err_tools::*;
 use gobble::traits::*;
-use parse::expr::BasicData;
+use parse::expr::DataFile;
 //use std::collections::HashMap;
 use std::ops::Deref;
 use tparam::*;
 pub fn r_json<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let s = l.iter().next().e_str("r_json requires a string argument")?;
     if let TData::String(s) = s.deref() {
-        return BasicData
+        return DataFile
             .parse_s(s)
             .map(|v| TCow::Owned(v))
             .map_err(|e| e.strung().into());
diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index cb6194b..3b1a0b4 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -126,6 +126,11 @@ parser! {(BasicData->TData)
     )
 }
 
+parser! { "A whole text that is one piece of data"
+    (DataFile->TData)
+    (wn__(BasicData),eoi).map(|(v,_)|v)
+}
+
 parser! {(Exp->Expr)
     or!(
         middle('(',wn__(Exp),')'),
diff --git a/src/tdata.rs b/src/tdata.rs
index 2dbc71a..f98c0a4 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -160,7 +160,7 @@ impl From<&[String]> for TData {
 impl TData {
     ///How the type will be created from the template
     pub fn from_str(s: &str) -> anyhow::Result<Self> {
-        crate::parse::expr::BasicData
+        crate::parse::expr::DataFile
             .parse_s(s)
             .map_err(|e| e.strung().into())
     }
-- 
2.43.0


From 1941278a389dbb5a85b5c1bd21baea6273bdf41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 31/39] fix: json surrogate pairs ("\ud83d\ude00") could not be
 read

---
 src/parse/expr.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 3b1a0b4..46e770c 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -160,6 +160,19 @@ parser! { (HexUnicode ->char)
 
 }
 
+// Json writes characters above U+FFFF as two escapes
+parser! { (SurrogatePair ->char)
+    (HexDigit.exact(4),"\\u",HexDigit.exact(4)).try_map(|(a,_,b)|{
+        match (u16::from_str_radix(&a,16),u16::from_str_radix(&b,16)) {
+            (Ok(a @ 0xD800..=0xDBFF),Ok(b)) => std::char::decode_utf16(vec![a,b])
+                .next()
+                .and_then(|r|r.ok())
+                .ok_or(Expected::Str("A surrogate pair")),
+            _ => Err(Expected::Str("A surrogate pair")),
+        }
+    })
+}
+
 parser! {(Escape -> char )
     '\\'.ig_then(or!(
         'b'.asv('\u{08}'),
@@ -167,7 +180,7 @@ parser! {(Escape -> char )
         'n'.asv('\n'),
         'r'.asv('\r'),
         't'.asv('\t'),
-        'u'.ig_then(HexUnicode),
+        'u'.ig_then(or!(SurrogatePair,HexUnicode)),
         "\"\\/".one(),
     )),
 
-- 
2.43.0


From 09fece66e1e2f33126e5fa25dd778d04dab0e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 32/39] fix: names starting with "null" could not be used as
 commands

---
 src/parse/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 46e770c..f5d2381 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -98,7 +98,7 @@ parser! {(NegInt->isize)
 
 parser! { (SimpleData->TData)
     or!(
-        "null".map(|_|TData::Null),
+        keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
         Float.map(|f|TData::Float(f)),
-- 
2.43.0


From 2f506a5f112a6d4c4015dfb7da3629bd698a35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 33/39] fix: days and years too big for a date wrapped around
 to another date

---
 src/parse/expr.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index f5d2381..f534d91 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::expr::*;
 use crate::TData;
 use gobble::*;
+use std::convert::TryFrom;
 
 parser! {(Month->usize)
     or!(
@@ -25,8 +26,10 @@ parser! {(Month->usize)
 
 parser! {(Date->chrono::NaiveDate)
     (common::UInt,"/",Month,"/",common::Int)
-        .try_map(|(d,_,m,_,y)| chrono::NaiveDate::from_ymd_opt(y as i32,m as u32,d as u32)
-            .ok_or(Expected::Str("Date Creation Failed")))
+        .try_map(|(d,_,m,_,y)| match (i32::try_from(y),u32::try_from(d)) {
+            (Ok(y),Ok(d)) => chrono::NaiveDate::from_ymd_opt(y,m as u32,d),
+            _ => None,
+        }.ok_or(Expected::Str("Date Creation Failed")))
 
 }
 
-- 
2.43.0


From e91fa17451ae95d7186635636fb4e852085a07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 34/39] fix: parsing nested commands that were not closed took
 exponential time

---
 src/parse/expr.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index f534d91..1bc25c6 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -134,6 +134,26 @@ parser! { "A whole text that is one piece of data"
     (wn__(BasicData),eoi).map(|(v,_)|v)
 }
 
+// Every argument is tried only once, as trying it again for each of the commands and lists around it
+// takes exponential time.
+fn args<'a>(i: &LCChars<'a>) -> ParseRes<'a, Vec<Expr>> {
+    let mut it = i.clone();
+    let mut res = Vec::new();
+    loop {
+        match wn__(Exp).parse(&it) {
+            Ok((nit, v, _)) => {
+                res.push(v);
+                it = nit;
+            }
+            // Nothing else can follow a command and start like this
+            Err(e) => match wn_(or_ig!("([{".one(), Ident)).parse(&it) {
+                Ok(_) => return Err(e),
+                Err(_) => return Ok((it, res, Some(e))),
+            },
+        }
+    }
+}
+
 parser! {(Exp->Expr)
     or!(
         middle('(',wn__(Exp),')'),
@@ -147,7 +167,7 @@ parser! {(Exp->Expr)
         }),
         ('@').map(|_| Expr::Var(vec![VarPart::Id("@".to_string())])),
         SimpleData.map(|d| Expr::Lit(d)),
-        (Ident,star(wn__(Exp))).map(|(c,v)|Expr::Command(c,v)),
+        (Ident,args).map(|(c,v)|Expr::Command(c,v)),
     )
 }
 
-- 
2.43.0


From 844a198bb14da5cf985ffde1fd3914fd5cafc025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 35/39] fix: a write to the root of the lock itself could
 create folders above it

---
 src/funcs/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/write.rs b/src/funcs/write.rs
index 6c1adc9..c853e1d 100644
--- a/src/funcs/write.rs
+++ b/src/funcs/write.rs
@@ -16,7 +16,8 @@ pub fn write(pb: PathBuf) -> Box<TFunc> {
         //get safe path
         let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
         //Make directory
-        std::fs::create_dir_all(sp.parent().e_str("No Parent folder")?)?;
+        let parent = sp.parent().filter(|p| p.starts_with(&pb));
+        std::fs::create_dir_all(parent.e_str("No Parent folder")?)?;
         let mut file = std::fs::OpenOptions::new()
             .write(true)
             .create(true)
-- 
2.43.0


From 9d17cb84082cde2928245446edf5988c0afbf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 36/39] fix: a path below a named parameter leads to the part
 of its value

---
 src/tparam.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 3b6ff3b..ce1eb7d 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -207,7 +207,8 @@ impl<S: Debug + AsRef<str>, T: Into<TData> + Debug + Clone> TParam for KV<S, T>
             return None;
         }
         if s[0].as_str()? == self.0.as_ref() {
-            return Some(Cow::Owned(self.1.clone().into()));
+            let v: TData = self.1.clone().into();
+            return v.get_v(&s[1..]).map(|v| Cow::Owned(v.into_owned()));
         }
         None
     }
-- 
2.43.0


From 44e6b1b159c1300ed1839befaee3163ca0d39b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 37/39] fix: accept a comment between switch and the first
 case, as text there is

---
 src/template.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/template.rs b/src/template.rs
index 9c12a42..7dcd3af 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -390,6 +390,7 @@ pub fn tt_switch<I: Iterator<Item = FlatItem>>(
                 Some(ref mut cb) => cb.block.push(TreeItem::String(s)),
                 None => {}
             },
+            FlatItem::Comment if curr.is_none() => {}
             FlatItem::EndBlock(s) if s == "switch" => {
                 curr.take().map(|n| res.push(n));
                 return Ok(TreeItem::Switch(params, res));
-- 
2.43.0


From 3999039d4b98fcee4be9a255cd5d0b63bdc0b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 38/39] fix: there is nothing below a host's text, number or
 boolean

A path that goes on behind a scalar parameter ($0.a, where $0 is a String) gave the
scalar itself. It gives nothing now, as it does for the same value as TData.
---
 src/tparam.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index ce1eb7d..fdf846e 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -12,6 +12,14 @@ pub fn b_ok(d: TData) -> anyhow::Result<TCow<'static>> {
     Ok(Cow::Owned(d))
 }
 
+/// The value of a param that has no parts: there is nothing further along the path
+fn whole<'a>(s: &[VarPart], d: TData) -> TBop<'a> {
+    match s.len() {
+        0 => Some(Cow::Owned(d)),
+        _ => None,
+    }
+}
+
 pub trait TParam: Debug {
     fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a>;
 }
@@ -102,34 +110,34 @@ impl TParam for serde_json::Value {
 }
 
 impl TParam for String {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(self.clone())))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        whole(s, TData::String(self.clone()))
     }
 }
 impl TParam for str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(String::from(self))))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        whole(s, TData::String(String::from(self)))
     }
 }
 
 impl TParam for &str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(String::from(*self))))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        whole(s, TData::String(String::from(*self)))
     }
 }
 impl TParam for usize {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::UInt(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        whole(s, TData::UInt(*self))
     }
 }
 impl TParam for f64 {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::Float(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        whole(s, TData::Float(*self))
     }
 }
 impl TParam for bool {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::Bool(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        whole(s, TData::Bool(*self))
     }
 }
 
@@ -147,9 +155,7 @@ impl TParam for Vec<&str> {
                     self.iter().map(|s| TData::String(s.to_string())).collect(),
                 )));
             }
-            Some(VarPart::Num(n)) => self
-                .get(*n)
-                .map(|s| Cow::Owned(TData::String(s.to_string()))),
+            Some(VarPart::Num(n)) => self.get(*n)?.get_v(&s[1..]),
             _ => None,
         }
     }
@@ -162,6 +168,9 @@ impl TParam for Card {
             return Some(Cow::Owned(self.into()));
         }
         let id = s[0].as_str()?;
+        if s.len() > 1 && (id == "Name" || id == "Num") {
+            return None;
+        }
         if id == "Name" {
             return Some(Cow::Owned(TData::String(self.name.clone())));
         }
-- 
2.43.0


From 5149de129f2d0276afabb8a1fdd564e20ec48251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 39/39] fix: a card's field called Name or Num comes first
 along a path, as it does in the card's value

---
 src/tparam.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index fdf846e..dd50889 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -168,7 +168,11 @@ impl TParam for Card {
             return Some(Cow::Owned(self.into()));
         }
         let id = s[0].as_str()?;
-        if s.len() > 1 && (id == "Name" || id == "Num") {
+        // As in the whole card's value, a field by the name of Name or Num comes first
+        if let Some(prop) = self.data.get(id) {
+            return prop.get_v(&s[1..]);
+        }
+        if s.len() > 1 {
             return None;
         }
         if id == "Name" {
@@ -177,8 +181,7 @@ impl TParam for Card {
         if id == "Num" {
             return Some(Cow::Owned(TData::UInt(self.num)));
         }
-        let prop = self.data.get(id)?;
-        prop.get_v(&s[1..])
+        None
     }
 }
 
-- 
2.43.0

