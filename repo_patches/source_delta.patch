From e97ced0551a0bd670b5159669c12500c35251315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 01/32] fix: keep folder locked paths inside their folder

`starts_with` compares components without resolving `..`, so `../x` and
`<folder>/../x` passed the check and reached files outside the folder.
---
 src/funcs/folder.rs | 22 ++++++++++++++++++----
 src/funcs/write.rs  |  3 +++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..452a6db 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -6,16 +6,30 @@ use image::GenericImageView;
 use std::collections::HashMap;
 use std::io::Read;
 use std::ops::Deref;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
-        return Some(pres);
+    let mut depth = 0;
+    let mut res = p.to_path_buf();
+    // Resolve the part below 'p' by name, so that '..' can never climb above it
+    for c in pres.strip_prefix(p).ok()?.components() {
+        match c {
+            Component::Normal(n) => {
+                res.push(n);
+                depth += 1;
+            }
+            Component::CurDir => {}
+            Component::ParentDir if depth > 0 => {
+                res.pop();
+                depth -= 1;
+            }
+            _ => return None,
+        }
     }
-    None
+    Some(res)
 }
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
diff --git a/src/funcs/write.rs b/src/funcs/write.rs
index 6c1adc9..9619ca7 100644
--- a/src/funcs/write.rs
+++ b/src/funcs/write.rs
@@ -15,6 +15,9 @@ pub fn write(pb: PathBuf) -> Box<TFunc> {
 
         //get safe path
         let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
+        if sp == pb {
+            return e_str("Cannot write to the folder itself");
+        }
         //Make directory
         std::fs::create_dir_all(sp.parent().e_str("No Parent folder")?)?;
         let mut file = std::fs::OpenOptions::new()
-- 
2.43.0


From d12987603be6f6226193d9856463a9fd9231e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 02/32] fix: 'run' without arguments is an error, not a panic

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..ada3d06 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -68,7 +68,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         //Convert TParams to pointers to call the Template
         let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
+        for p in tds.iter().skip(1) {
             v.push(p);
         }
         if let Some(tp) = tds.get(0) {
-- 
2.43.0


From d553b8aabae20bf4974bf0b88fa7cb441a045cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 03/32] fix: 'get' with too few arguments is an error, not a
 panic

---
 src/funcs/lists.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 88d4086..29ef723 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -190,6 +190,9 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 pub fn get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
+    if args.len() < 2 {
+        return e_str("Get requires List and Number");
+    }
     let pos = match args[1].deref() {
         TData::Int(i) => TData::UInt(*i as usize),
         v => v.clone(),
-- 
2.43.0


From 57d545b8b477adc709a47e261e15b51102b401eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 04/32] fix: 'select' with the largest index is an error, not
 an overflow

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index ada3d06..c3340e2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -97,7 +97,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         let bval = args[0].run(scope, tm, fm)?;
         let bval = if let Some(n) = bval.as_usize() {
-            n + 1
+            n.saturating_add(1)
         } else if let Some(b) = bval.as_bool() {
             2 - (b as usize)
         } else {
-- 
2.43.0


From 8159c459d4db74403e6e59d2e3240bbd8d6c1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 05/32] fix: 'bin_get' returns the item found in the list

It indexed the arguments of the call with the position in the list: it
returned the list or the key instead of the item, or panicked.
---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 29ef723..0deffea 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -184,7 +184,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let comps = build_comparator(&args[2..])?;
     let n = list.binary_search_by(|v| compare(&comps, v, args[1].deref()));
     match n {
-        Ok(n) => Ok(args[n].clone()),
+        Ok(n) => Ok(TCow::Owned(list[n].clone())),
         Err(_) => Ok(TCow::Owned(TData::Null)),
     }
 }
-- 
2.43.0


From e2566d34e319b0dbb178bd8d7e49f5be6de7fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 06/32] fix: table continuation lines may add a column

The first additional cell was written to a column that did not exist yet.
---
 src/funcs/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/table.rs b/src/funcs/table.rs
index e523f93..d167e18 100644
--- a/src/funcs/table.rs
+++ b/src/funcs/table.rs
@@ -40,7 +40,7 @@ parser! {(Table->String)
             match curr {
                 Some(ref mut v)=>{
                     for (n,s) in row[1..r_len-1].iter().enumerate(){
-                        if n >v.len() {
+                        if n >= v.len() {
                             v.push(s.to_string());
                         }else{
                             write!(v[n]," {}",s).ok();
-- 
2.43.0


From 39ee4c00d9913ade47be7399524b4aa5b2271fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 07/32] fix: html_esc terminates the references for quotes

`'5` became `&#395`, which is another character.
---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..93d62c2 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -97,8 +97,8 @@ pub fn html_esc<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
                 '&' => res.push_str("&amp;"),
                 '<' => res.push_str("&lt;"),
                 '>' => res.push_str("&gt;"),
-                '"' => res.push_str("&quot"),
-                '\'' => res.push_str("&#39"),
+                '"' => res.push_str("&quot;"),
+                '\'' => res.push_str("&#39;"),
                 c => res.push(c),
             }
         }
-- 
2.43.0


From ba24ea5deb94ceded98f55b299960df860c2a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 08/32] fix: 'as' leaves its scope also when the pattern does
 not match

What a failed match had captured stayed visible, and later top level
bindings were made in the abandoned scope and missing from the exports.
---
 src/template.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..a829eb7 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,14 +262,14 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
-                if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
-                    scope.pop();
-                    return Ok(r);
-                }
-                return Ok(String::new());
+                scope.push();
+                let r = match pat.match_data(&val, scope, tm, fm) {
+                    true => run_block(block, scope, tm, fm),
+                    false => Ok(String::new()),
+                };
+                scope.pop();
+                return r;
             }
         }
     }
-- 
2.43.0


From 21aa3f86f5f41b4f5fe2738444a7a495bbd41ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 09/32] fix: a block that fails leaves its scope

Front matter goes on after a failing block, and then saw its variables.
---
 src/template.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/template.rs b/src/template.rs
index a829eb7..c50d9fb 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -99,7 +99,13 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     let mut res = String::new();
     scope.push();
     for item in block {
-        res.push_str(&item.run(scope, tm, fm)?);
+        match item.run(scope, tm, fm) {
+            Ok(s) => res.push_str(&s),
+            Err(e) => {
+                scope.pop();
+                return Err(e);
+            }
+        }
     }
     scope.pop();
     Ok(res)
-- 
2.43.0


From ba36a803ec4568a8dd3c963f422c5d45bc410f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 10/32] fix: date literals with oversized parts are rejected,
 not wrapped around

---
 src/parse/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 5b9c772..ccb883a 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::expr::*;
 use crate::TData;
 use gobble::*;
+use std::convert::TryInto;
 
 parser! {(Month->usize)
     or!(
@@ -23,9 +24,13 @@ parser! {(Month->usize)
     )
 }
 
+fn date_checked(d: usize, m: usize, y: isize) -> Option<chrono::NaiveDate> {
+    chrono::NaiveDate::from_ymd_opt(y.try_into().ok()?, m.try_into().ok()?, d.try_into().ok()?)
+}
+
 parser! {(Date->chrono::NaiveDate)
     (common::UInt,"/",Month,"/",common::Int)
-        .try_map(|(d,_,m,_,y)| chrono::NaiveDate::from_ymd_opt(y as i32,m as u32,d as u32)
+        .try_map(|(d,_,m,_,y)| date_checked(d,m,y)
             .ok_or(Expected::Str("Date Creation Failed")))
 
 }
-- 
2.43.0


From 4535a6193ed95dd246f2a5a6a1ca424fc086a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 11/32] fix: JSON numbers above i64::MAX convert instead of
 panicking

---
 src/tdata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..9218980 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -185,8 +185,10 @@ impl TData {
             SV::Number(n) => {
                 if n.is_f64() {
                     Self::Float(n.as_f64().unwrap())
+                } else if let Some(i) = n.as_i64() {
+                    Self::Int(i as isize)
                 } else {
-                    Self::Int(n.as_i64().unwrap() as isize)
+                    Self::UInt(n.as_u64().unwrap() as usize)
                 }
             }
             SV::Null => Self::Null,
-- 
2.43.0


From 25478311d56971448a1c64bb035039451b874e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 12/32] fix: word_wrap does not panic on other whitespace

`trim` removes all whitespace, the assertion only knew the ASCII kinds.
---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 93d62c2..b3ec6c8 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -167,8 +167,8 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
     for s in res.iter() {
         s_join.push_str(s);
     }
-    let s_no_line = s.replace(|c| "\n\t \r".contains(c), "");
-    s_join = s_join.replace(|c| "\n\t \r".contains(c), "");
+    let s_no_line = s.replace(char::is_whitespace, "");
+    s_join = s_join.replace(char::is_whitespace, "");
     assert_eq!(s_join, s_no_line, "Word wrap failure");
     res
 }
-- 
2.43.0


From 31ff2fa298faf4265eaf1df76929ce82c9e01ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 13/32] fix: string_from_ints ignores numbers above u32 instead
 of truncating them

---
 src/funcs/strings.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index b3ec6c8..f680f54 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use pulldown_cmark as mdown;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tparam::*;
 
@@ -48,7 +49,9 @@ pub fn contains<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn string_from_ints<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = String::new();
     for a in args {
-        let c = a.as_usize().map(|n| n as u32).map(char::from_u32);
+        let c = a.as_usize()
+            .and_then(|n| u32::try_from(n).ok())
+            .map(char::from_u32);
         if let Some(Some(ch)) = c {
             res.push(ch)
         }
-- 
2.43.0


From 3cdd4265cab0f7bd5b6c3a4338e8a4f529cfbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 14/32] fix: names that start with null are names

---
 src/parse/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index ccb883a..310e30f 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -42,7 +42,7 @@ parser! {(Var->VarPart)
 
 parser! { (SimpleData->TData)
     or!(
-        "null".map(|_|TData::Null),
+        keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
         common::Float.map(|f|TData::Float(f)),
-- 
2.43.0


From 4823fb1bb41f61642d694ea6fa3a546332670f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 15/32] fix: r_json reads the whole text

Anything after the first value was dropped: `1e5` read as 1.
---
 src/funcs/format.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/funcs/format.rs b/src/funcs/format.rs
index 8f06d5b..88cb99b 100644
--- a/src/funcs/format.rs
+++ b/src/funcs/format.rs
@@ -1,17 +1,17 @@
 use crate::*;
 //use card_format::Card;
 use err_tools::*;
-use gobble::traits::*;
-use parse::expr::BasicData;
+use gobble::*;
+use parse::{expr::BasicData, wn__};
 //use std::collections::HashMap;
 use std::ops::Deref;
 use tparam::*;
 pub fn r_json<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let s = l.iter().next().e_str("r_json requires a string argument")?;
     if let TData::String(s) = s.deref() {
-        return BasicData
+        return (wn__(BasicData), eoi)
             .parse_s(s)
-            .map(|v| TCow::Owned(v))
+            .map(|(v, _)| TCow::Owned(v))
             .map_err(|e| e.strung().into());
     }
     e_str("r_json requires a single string argument")
-- 
2.43.0


From 8addbc4caac6a948d3fa6abeea2df3f4586186b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 16/32] fix: rand of an empty range is an error, not a panic

---
 src/funcs/random.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..474abf0 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -12,6 +12,9 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     }
 
     if args.len() == 2 {
+        if !(*args[0] < *args[1]) {
+            return e_str("Could not gen random from empty range");
+        }
         return match (args[0].deref(), args[1].deref()) {
             (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
             (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
@@ -21,6 +24,8 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     }
 
     match args[0].deref() {
+        TData::Int(n) if *n <= 0 => e_str("Could not gen random from empty range"),
+        TData::UInt(0) => e_str("Could not gen random from empty range"),
         TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
         TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
-- 
2.43.0


From 1d95a7f66a0d4dbe1c71779e2dec8dfe65e8d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 17/32] fix: with_ext with a separator in the extension is an
 error, not a panic

---
 src/funcs/path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index 62b8487..fe09565 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -77,7 +77,11 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("'with_ext' requires a filenae then an extension");
     }
     let p = PathBuf::from(args[0].to_string());
-    let pe = p.with_extension(args[1].to_string());
+    let ext = args[1].to_string();
+    if ext.contains(std::path::is_separator) {
+        return e_str("'with_ext' extension may not contain a path separator");
+    }
+    let pe = p.with_extension(ext);
     b_ok(path_dat(&pe))
 }
 
-- 
2.43.0


From 0989d1c91869d5a759d8df365763171696e922ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 18/32] fix: rand of a float range that is empty or infinite is
 an error

Infinite bounds panicked, a bound of zero or less gave numbers outside [0,bound).
---
 src/funcs/random.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 474abf0..86ef861 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -18,7 +18,7 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return match (args[0].deref(), args[1].deref()) {
             (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
             (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Float(a), TData::Float(b)) if a.is_finite() && b.is_finite() => b_ok(TData::Float(rg.gen_range(a, b))),
             _ => e_str("Could not gen random"),
         };
     }
@@ -28,6 +28,9 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         TData::UInt(0) => e_str("Could not gen random from empty range"),
         TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
         TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Float(n) if !(*n > 0. && n.is_finite()) => {
+            e_str("Could not gen random from empty range")
+        }
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
         TData::List(l) => {
             if l.len() == 0 {
-- 
2.43.0


From 1d4d2141dbfa5e6f69db3cde8c0af2dced7fc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 19/32] fix: a backslash at the end of a template is text

The parser looped for ever on a template that is a single backslash, and
rejected one that ends in a backslash.
---
 src/parse/template.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index d68978e..a94a67d 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -19,6 +19,7 @@ parser! {(StringItem->String)
         ("{",fail_on("{")).map(|(s,_)|s.to_string()),
         WN.plus(),
         not(" \n\t\r{\\").plus(),
+        "\\".map(|s|s.to_string()),
     )
 }
 
-- 
2.43.0


From 2f8d8b5ebf6df1dd72806a7f9c31dd8222af416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 20/32] fix: number literals denote the nearest number

Fractions were summed up digit by digit (0.3 gave 0.30000000000000004), the
sign of -0.5 was lost, large exponents looped nearly for ever, and the
smallest integer could be computed and printed but not written.
---
 src/parse/expr.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/parse/expr.rs b/src/parse/expr.rs
index 310e30f..e75cdb3 100644
--- a/src/parse/expr.rs
+++ b/src/parse/expr.rs
@@ -2,7 +2,7 @@ use super::*;
 use crate::expr::*;
 use crate::TData;
 use gobble::*;
-use std::convert::TryInto;
+use std::convert::{TryFrom, TryInto};
 
 parser! {(Month->usize)
     or!(
@@ -35,6 +35,29 @@ parser! {(Date->chrono::NaiveDate)
 
 }
 
+parser! {(Digits->())
+    ('_'.istar(),NumDigit.iplus(),(NumDigit,'_').istar()).ig()
+}
+
+parser! {(Exponent->())
+    ('e',maybe('-'),Digits).ig()
+}
+
+parser! {(Float->f64)
+    string((maybe('-'),Digits,'.',(NumDigit,'_').istar(),maybe(Exponent)))
+        .try_map(|s| match s.replace('_',"").parse::<f64>() {
+            Ok(f) if f.is_finite() => Ok(f),
+            _ => Err(Expected::Str("A Smaller number")),
+        })
+}
+
+parser! {(Int->isize)
+    (maybe('-'),common::UInt).try_map(|(m,n)| match m {
+        Some(_) => 0isize.checked_sub_unsigned(n),
+        None => isize::try_from(n).ok(),
+    }.ok_or(Expected::Str("Int too big")))
+}
+
 parser! {(Var->VarPart)
     or!(Ident.map(|s|VarPart::Id(s)),
         common::UInt.map(|u|VarPart::Num(u)))
@@ -45,9 +68,9 @@ parser! { (SimpleData->TData)
         keyword("null").map(|_|TData::Null),
         common::Bool.map(|b|TData::Bool(b)),
         Date.map(|d|TData::Date(d)),
-        common::Float.map(|f|TData::Float(f)),
+        Float.map(|f|TData::Float(f)),
         common::UInt.map(|n|TData::UInt(n)),
-        common::Int.map(|i|TData::Int(i)),
+        Int.map(|i|TData::Int(i)),
         TString.map(|s|TData::String(s)),
     )
 }
-- 
2.43.0


From bb3ca75fe38b4d105986ba5aec88b7fbeaa755c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 21/32] fix: dates rank after all numbers

A date was greater than every whole number and less than every float, so the
order was not transitive.
---
 src/tdata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 9218980..74192b0 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -171,8 +171,8 @@ impl TData {
             Bool(_) => 4,
             Int(_) => 5,
             UInt(_) => 6,
-            Date(_) => 7,
-            Float(_) => 8,
+            Float(_) => 7,
+            Date(_) => 8,
             String(_) => 9,
             Bytes(_) => 10,
         }
-- 
2.43.0


From b0c5c3a8cef1e82725d3e7088e0c127c2e40e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 22/32] fix: whole numbers of different types compare by value

UInts above isize::MAX were cast to isize, and large whole numbers lost
digits when compared with floats, so equality was not transitive.
---
 src/tdata.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index 74192b0..65f5aee 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -25,6 +25,9 @@ impl PartialOrd for TData {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         use math::NumMatch::*;
         use TData::*;
+        if let (Some(a), Some(b)) = (self.whole(), other.whole()) {
+            return a.partial_cmp(&b);
+        }
         match math::num_match(self, other) {
             Some(I(a, b)) => return a.partial_cmp(&b),
             Some(U(a, b)) => return a.partial_cmp(&b),
@@ -44,6 +47,9 @@ impl PartialEq for TData {
     fn eq(&self, other: &Self) -> bool {
         use math::NumMatch::*;
         use TData::*;
+        if let (Some(a), Some(b)) = (self.whole(), other.whole()) {
+            return a == b;
+        }
         match math::num_match(self, other) {
             Some(I(a, b)) => return a == b,
             Some(U(a, b)) => return a == b,
@@ -252,6 +258,16 @@ impl TData {
         }
     }
 
+    ///The exact value of a whole number, also of one held as a float
+    fn whole(&self) -> Option<i128> {
+        match self {
+            TData::UInt(u) => Some(*u as i128),
+            TData::Int(i) => Some(*i as i128),
+            TData::Float(f) if f.fract() == 0. && f.abs() < 1e30 => Some(*f as i128),
+            _ => None,
+        }
+    }
+
     pub fn get_key_str<'a>(&'a self, k: &str) -> Option<&'a str> {
         match self {
             TData::Map(m) => match m.get(k) {
-- 
2.43.0


From 176d1fe9c0b49a51528c6d6a4dcedd3e75fce7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 23/32] fix: whole number arithmetic is exact or an error

Overflow and division by zero panicked (or wrapped around, in release builds).
---
 src/funcs/math.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 2fb67a8..297c3a9 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -25,9 +26,9 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(*a as isize, *b),
+        (TData::UInt(a), TData::Int(b)) => I(isize::try_from(*a).ok()?, *b),
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, *b as isize),
+        (TData::Int(a), TData::UInt(b)) => I(*a, isize::try_from(*b).ok()?),
         (TData::Int(a), TData::Int(b)) => I(*a, *b),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
@@ -37,11 +38,19 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+fn uint<'a>(n: Option<usize>) -> anyhow::Result<TCow<'a>> {
+    b_ok(TData::UInt(n.e_str("Number out of range")?))
+}
+
+fn int<'a>(n: Option<isize>) -> anyhow::Result<TCow<'a>> {
+    b_ok(TData::Int(n.e_str("Number out of range")?))
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
+        Some(U(a, b)) => uint(a.checked_add(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a + b))),
+        Some(I(a, b)) => int(a.checked_add(b)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -49,9 +58,9 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if l.len() == 1 {
         match l[0].deref() {
-            TData::UInt(n) => return b_ok(TData::Int(-(*n as isize))),
+            TData::UInt(n) => return int(0isize.checked_sub_unsigned(*n)),
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return b_ok(TData::Int(-*n)),
+            TData::Int(n) => return int(n.checked_neg()),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -60,38 +69,39 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             if a >= b {
                 Ok(TCow::Owned(TData::UInt(a - b)))
             } else {
-                Ok(TCow::Owned(TData::Int(a as isize - b as isize)))
+                int(0isize.checked_sub_unsigned(b - a))
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a - b))),
+        Some(I(a, b)) => int(a.checked_sub(b)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
 
 pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a * b))),
+        Some(U(a, b)) => uint(a.checked_mul(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a * b))),
+        Some(I(a, b)) => int(a.checked_mul(b)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
 
 pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a / b))),
+        Some(U(a, b)) => uint(a.checked_div(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a / b))),
+        Some(I(a, b)) => int(a.checked_div(b)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
 
 pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a % b))),
+        Some(U(a, b)) => uint(a.checked_rem(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a % b))),
+        Some(I(_, 0)) => int(None),
+        Some(I(a, b)) => int(Some(a.wrapping_rem(b))),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
-- 
2.43.0


From 7b7b5c7aa34f0423805b6ee11404e276582c7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 24/32] fix: min and max of whole numbers beyond one integer
 type

---
 src/funcs/math.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 297c3a9..e1eb504 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -111,6 +111,10 @@ pub fn min<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.min(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.min(b)))),
         Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.min(b)))),
+        // whole numbers too far apart for one integer type
+        _ if a.as_float().is_some() && b.as_float().is_some() => {
+            Ok(if *b < a { b.clone() } else { a })
+        }
         _ => e_str("Can only min numbers"),
     })
 }
@@ -119,6 +123,9 @@ pub fn max<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.max(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.max(b)))),
         Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.max(b)))),
+        _ if a.as_float().is_some() && b.as_float().is_some() => {
+            Ok(if *b > a { b.clone() } else { a })
+        }
         _ => e_str("Can only max numbers"),
     })
 }
-- 
2.43.0


From 55008804d46a739625fd293f77e8c418b1481f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 25/32] fix: host scalars and key-value pairs follow the whole
 path

The rest of a path that leads through a scalar was ignored, so $0.x of a
string was the string; a map behind a KV could not be entered.
---
 src/tparam.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/tparam.rs b/src/tparam.rs
index 3b6ff3b..89c96f9 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -101,35 +101,43 @@ impl TParam for serde_json::Value {
     }
 }
 
+/// A scalar has no parts
+fn scalar<'a>(s: &[VarPart], d: TData) -> TBop<'a> {
+    match s.len() {
+        0 => Some(Cow::Owned(d)),
+        _ => None,
+    }
+}
+
 impl TParam for String {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(self.clone())))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        scalar(s, TData::String(self.clone()))
     }
 }
 impl TParam for str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(String::from(self))))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        scalar(s, TData::String(String::from(self)))
     }
 }
 
 impl TParam for &str {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::String(String::from(*self))))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        scalar(s, TData::String(String::from(*self)))
     }
 }
 impl TParam for usize {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::UInt(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        scalar(s, TData::UInt(*self))
     }
 }
 impl TParam for f64 {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::Float(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        scalar(s, TData::Float(*self))
     }
 }
 impl TParam for bool {
-    fn get_v<'a>(&'a self, _s: &[VarPart]) -> TBop<'a> {
-        Some(Cow::Owned(TData::Bool(*self)))
+    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
+        scalar(s, TData::Bool(*self))
     }
 }
 
@@ -147,9 +155,7 @@ impl TParam for Vec<&str> {
                     self.iter().map(|s| TData::String(s.to_string())).collect(),
                 )));
             }
-            Some(VarPart::Num(n)) => self
-                .get(*n)
-                .map(|s| Cow::Owned(TData::String(s.to_string()))),
+            Some(VarPart::Num(n)) => self.get(*n)?.get_v(&s[1..]),
             _ => None,
         }
     }
@@ -163,10 +169,10 @@ impl TParam for Card {
         }
         let id = s[0].as_str()?;
         if id == "Name" {
-            return Some(Cow::Owned(TData::String(self.name.clone())));
+            return self.name.get_v(&s[1..]);
         }
         if id == "Num" {
-            return Some(Cow::Owned(TData::UInt(self.num)));
+            return self.num.get_v(&s[1..]);
         }
         let prop = self.data.get(id)?;
         prop.get_v(&s[1..])
@@ -207,7 +213,8 @@ impl<S: Debug + AsRef<str>, T: Into<TData> + Debug + Clone> TParam for KV<S, T>
             return None;
         }
         if s[0].as_str()? == self.0.as_ref() {
-            return Some(Cow::Owned(self.1.clone().into()));
+            let d: TData = self.1.clone().into();
+            return d.get_v(&s[1..]).map(|v| Cow::Owned(v.into_owned()));
         }
         None
     }
-- 
2.43.0


From 2aa9202fbc81d957a2a5cdcd5a0535f2169932d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 26/32] fix: sorting puts not-a-number last

Comparing it as equal to every number is no order, and sorting a longer list
with it panicked.
---
 src/funcs/lists.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 0deffea..d7a1193 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -71,6 +71,12 @@ pub fn index_of<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     return b_ok(TData::Null)
 }
 
+/// Order for sorting, with not-a-number after all other numbers
+fn order(a: &TData, b: &TData) -> Ordering {
+    let nan = |d: &TData| matches!(d, TData::Float(f) if f.is_nan());
+    a.partial_cmp(b).unwrap_or_else(|| nan(a).cmp(&nan(b)))
+}
+
 pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = Vec::new();
     for a in args {
@@ -80,7 +86,7 @@ pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
     }
-    res.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+    res.sort_by(order);
     b_ok(TData::List(res))
 }
 
@@ -102,10 +108,10 @@ impl Comparator {
     fn compare(&self, a: &TData, b: &TData) -> Ordering {
         o_flip(
             match (a.get_v(&self.v), b.get_v(&self.v)) {
-                (Some(ba), Some(bb)) => ba.partial_cmp(&bb).unwrap_or(Ordering::Equal),
+                (Some(ba), Some(bb)) => order(&ba, &bb),
                 (Some(_), None) => Ordering::Greater,
                 (None, Some(_)) => Ordering::Less,
-                _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                _ => order(a, b),
             },
             self.down,
         )
-- 
2.43.0


From 7a73f214cd5d86bf7b2ddfc850e702bac6f824c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 27/32] fix: 'run' evaluates its arguments once

---
 src/expr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expr.rs b/src/expr.rs
index c3340e2..53eff92 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -80,6 +80,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
                 return Ok(TCow::Owned(TData::String(s)));
             }
         }
+        return run_values(cname, &tds, tm, fm);
     }
     if cname == "first" {
         for p in args {
-- 
2.43.0


From fa30661f34f87270aae0d2cab64347f0d7f5cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 28/32] fix: 'select' just past its last choice is an error,
 not a panic

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 53eff92..0c2c7b2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -105,7 +105,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 940d9d37245285f25163c1973623bc8fe43811c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:36 +0000
Subject: [PATCH 29/32] fix: a malformed tag ending in a variable path is a
 parse error, not a hang

---
 src/parse/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/template.rs b/src/parse/template.rs
index a94a67d..a7cb82d 100644
--- a/src/parse/template.rs
+++ b/src/parse/template.rs
@@ -56,5 +56,5 @@ parser! {(Item->FlatItem)
             ('/',Ident,WS.star()).map(|(_,n,_)|FlatItem::EndBlock(n)),
             Exp.map(|p|FlatItem::Exp(p)),
     ).brk(),wn_(IClose).brk())
-        .or(strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi))).map(|(s,_)|FlatItem::String(s)))
+        .or((fail_on(IOpen),strings_plus_until(StringItem,peek(or_ig!(IOpen,eoi)))).map(|(_,(s,_))|FlatItem::String(s)))
 }
-- 
2.43.0


From 168bffe30b9c67c34a3a6ec86c8716a59f8aceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:53 +0000
Subject: [PATCH 30/32] fix: with_ext of a name like '..x' replaces the
 extension

---
 src/funcs/path.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index fe09565..dabc59c 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -76,13 +76,13 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if args.len() < 2 {
         return e_str("'with_ext' requires a filenae then an extension");
     }
-    let p = PathBuf::from(args[0].to_string());
+    let mut p = PathBuf::from(args[0].to_string());
     let ext = args[1].to_string();
     if ext.contains(std::path::is_separator) {
         return e_str("'with_ext' extension may not contain a path separator");
     }
-    let pe = p.with_extension(ext);
-    b_ok(path_dat(&pe))
+    p.set_extension(ext);
+    b_ok(path_dat(&p))
 }
 
 pub fn stem<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From 6951ea037edce43a0b68841def30f8141de89cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 31/32] fix: word_wrap counts characters, not bytes, after a
 break

---
 src/funcs/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index f680f54..a809565 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -150,7 +150,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
                 Some(b) => {
                     res.push(s[index..b].trim().to_string());
                     index = b;
-                    count = k - b;
+                    count = s[b..k].chars().count();
                     brk = None;
                 }
                 None => {
-- 
2.43.0


From b297a9474c7bec4a071f7e67655dd630da5e6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 32/32] fix: a card's Name and Num are the same by path and in
 the whole card

---
 src/tdata.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 65f5aee..f0159e6 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -289,11 +289,12 @@ use card_format::{CData, Card};
 impl From<&Card> for TData {
     fn from(c: &Card) -> Self {
         let mut m = std::collections::HashMap::new();
-        m.insert("Name".to_string(), TData::String(c.name.clone()));
-        m.insert("Num".to_string(), TData::UInt(c.num));
         for (k, v) in &c.data {
             m.insert(k.clone(), v.into());
         }
+        // After the data, as "Name" and "Num" always reach the card's own
+        m.insert("Name".to_string(), TData::String(c.name.clone()));
+        m.insert("Num".to_string(), TData::UInt(c.num));
         TData::Map(m)
     }
 }
-- 
2.43.0

