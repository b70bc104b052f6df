From 64e694df33f3eb84caba7d0ccfa3fdf1719c5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 01/20] fix: a failing start rule produces an error node
 instead of a panic

---
 fall/parse/src/syn_engine/expr.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..4726f8f 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,16 +20,28 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
-    if !leftover.is_empty() {
-        parser.reopen();
-        parser.start_error();
-        while let Some((_, ts)) = parser.bump(leftover) {
-            leftover = ts;
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) => {
+            if leftover.is_empty() {
+                return parser.done();
+            }
+            parser.reopen();
+            leftover
+        }
+        None => {
+            match parser.grammar[start_rule] {
+                Expr::Pub { ty, .. } => parser.start(ty),
+                _ => unreachable!(),
+            };
+            pos
         }
-        parser.finish();
-        parser.finish();
     };
+    parser.start_error();
+    while let Some((_, ts)) = parser.bump(leftover) {
+        leftover = ts;
+    }
+    parser.finish();
+    parser.finish();
 
     parser.done()
 }
-- 
2.43.0


From c3e7a7c324b0079f2b82b4db70cb8d947a8c536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 02/20] fix: do not touch events when replacing or wrapping
 nodes in predicate mode

---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..d6109e0 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -150,6 +150,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -158,6 +161,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From 29c1d7823dc196d8c8f8cdd1dea6b3ca2d61437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 03/20] fix: wrapping an already wrapped node keeps the inner
 wrapper

---
 fall/parse/src/syn_engine/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index d6109e0..d541bba 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -164,10 +164,17 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.0 as usize] {
-            Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
-            _ => unreachable!(),
+        // `child` may be wrapped already, the new parent goes outside of the old ones
+        let mut idx = child.0;
+        loop {
+            match self.events[idx as usize] {
+                Event::Start { forward_parent: Some(fwd), .. } => idx += fwd,
+                Event::Start { ref mut forward_parent, .. } => {
+                    *forward_parent = Some(parent.0 - idx);
+                    break;
+                }
+                _ => unreachable!(),
+            }
         }
     }
 
-- 
2.43.0


From 0e0c8f9564644a436b0b190b0390aec20caefcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 04/20] fix: arguments of a call are evaluated in the caller's
 scope

---
 fall/parse/src/syn_engine/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 4726f8f..9c0d21e 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -335,7 +335,7 @@ fn parse_call<'g>(
     let old = p.args;
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
+            Expr::Var(i) => old[i.0 as usize].unwrap(),
             _ => arg
         };
 
-- 
2.43.0


From 53e0dc731f0d7d975354d461f99939f47cae19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 05/20] fix: cached segments respect predicate mode, layers and
 the end of input

---
 fall/parse/src/syn_engine/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index d541bba..73d9f39 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -100,10 +100,18 @@ impl<'g> Parser<'g> {
     }
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
+        if pos.is_empty() {
+            return None;
+        }
         if let Some((ref cache, events)) = self.cache {
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                if n_tokens > pos.1 - pos.0 {
+                    return None;
+                }
+                if !self.predicate_mode {
+                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
-- 
2.43.0


From 9966b7fc2aaf1e7d01594b8fb248d60bbd41b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 06/20] fix: offsets of segments salvaged from more than one
 copy of a range

---
 fall/parse/src/syn_engine/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..f805279 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -104,10 +104,11 @@ pub(crate) fn salvage_segments(
                 let mut inserted = tu(0);
                 for op in edit.ops.iter() {
                     match *op {
-                        TextEditOp::Copy(copy) => if range.is_subrange_of(copy) {
-                            let fixed_start = inserted + (start - copy.start());
-                            result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
-                        } else {
+                        TextEditOp::Copy(copy) => {
+                            if range.is_subrange_of(copy) {
+                                let fixed_start = inserted + (start - copy.start());
+                                result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            }
                             inserted += copy.len()
                         }
                         TextEditOp::Insert(ref text) => inserted += text.as_text().len(),
-- 
2.43.0


From e40a3da830d2347ceb04ee34064fed27562a104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 07/20] fix: do not reuse cached segments whose tokens depend
 on the edited text

---
 fall/parse/src/syn_engine/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index f805279..dd176b8 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -85,9 +85,10 @@ pub(crate) fn salvage_segments(
                 let mut has_error = false;
                 for _ in 0..n_events {
                     match *events.next().unwrap() {
-                        Event::Token { n_raw_tokens, .. } => {
+                        Event::Token { ty, n_raw_tokens } => {
                             eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens);
                             n_tokens += n_raw_tokens as u32;
+                            has_error |= ty == ERROR;
                         }
                         Event::Start { ty: ERROR, .. } => has_error = true,
                         _ => (),
@@ -105,7 +106,9 @@ pub(crate) fn salvage_segments(
                 for op in edit.ops.iter() {
                     match *op {
                         TextEditOp::Copy(copy) => {
-                            if range.is_subrange_of(copy) {
+                            // The last token of a segment may change if the text right after it
+                            // is edited, so the copy must extend past the segment.
+                            if range.is_subrange_of(copy) && range.end() < copy.end() {
                                 let fixed_start = inserted + (start - copy.start());
                                 result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
                             }
-- 
2.43.0


From a82d0dafe6a96979bad56b7ca8aabf06b28f6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 08/20] fix: an empty range is equal to itself, not less than
 itself

---
 fall/text/src/text_range.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 1b87fc4..72fa95c 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -113,12 +113,12 @@ impl ops::Index<TextRange> for String {
 
 impl PartialOrd for TextRange {
     fn partial_cmp(&self, other: &TextRange) -> Option<Ordering> {
-        if self.end() <= other.start() {
+        if self == other {
+            Some(Ordering::Equal)
+        } else if self.end() <= other.start() {
             Some(Ordering::Less)
         } else if other.end() <= self.start() {
             Some(Ordering::Greater)
-        } else if self == other {
-            Some(Ordering::Equal)
         } else {
             None
         }
-- 
2.43.0


From 4227470acc739df311e83daa8c7c506e754b1831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 09/20] fix: carry the previous node and the replacement over a
 reused cached rule

---
 fall/parse/src/syn_engine/expr.rs   | 12 +++++++++---
 fall/parse/src/syn_engine/mod.rs    |  7 ++++---
 fall/parse/src/syn_engine/parser.rs | 12 ++++++++++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 9c0d21e..6d4b831 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -384,10 +384,16 @@ fn parse_inject<'g>(
 }
 
 fn parse_cached<'g>(p: &mut Parser<'g>, expr: ExprRef, pos: Pos) -> Option<Pos> {
+    // What a cached rule does must not depend on what comes before it.
+    let (prev, replacement) = (p.prev.take(), p.replacement.take());
 
     let mark = p.start_cached(expr);
-    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos))?;
-    p.finish_cached(mark);
+    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos));
+    if result.is_some() {
+        p.finish_cached(mark);
+    }
 
-    Some(result)
+    p.prev = p.prev.or(prev);
+    p.replacement = p.replacement.or(replacement);
+    result
 }
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index dd176b8..d79a9ec 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
 use crate::lex_engine::Token;
-use crate::{Expr, ExprRef};
+use crate::{Expr, ExprRef, NodeTypeRef};
 
 pub struct Grammar<'g> {
     pub node_types: &'g [NodeType],
@@ -34,7 +34,8 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32 },
+    /// `prev` and `replacement` are what the cached rule has set
+    Cached { key: u32, n_events: u32, prev: Option<NodeType>, replacement: Option<NodeTypeRef> },
 }
 
 pub(crate) fn salvage_segments(
@@ -79,7 +80,7 @@ pub(crate) fn salvage_segments(
             Event::Token { n_raw_tokens, .. } =>
                 eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
 
-            Event::Cached { key, n_events } => {
+            Event::Cached { key, n_events, .. } => {
                 let start = text_pos;
                 let mut n_tokens = 0u32;
                 let mut has_error = false;
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 73d9f39..8fcdf5d 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -109,6 +109,10 @@ impl<'g> Parser<'g> {
                 if n_tokens > pos.1 - pos.0 {
                     return None;
                 }
+                if let Event::Cached { prev, replacement, .. } = events[start_event as usize - 1] {
+                    self.prev = prev;
+                    self.replacement = replacement;
+                }
                 if !self.predicate_mode {
                     self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 }
@@ -121,7 +125,7 @@ impl<'g> Parser<'g> {
 
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0 });
+        self.event(Event::Cached { key: expr.0, n_events: 0, prev: None, replacement: None });
         mark
     }
 
@@ -129,7 +133,11 @@ impl<'g> Parser<'g> {
         if !self.predicate_mode {
             let len = self.events.len() as u32 - (mark.0 + 1);
             match self.events[mark.0 as usize] {
-                Event::Cached { ref mut n_events, .. } => *n_events = len,
+                Event::Cached { ref mut n_events, ref mut prev, ref mut replacement, .. } => {
+                    *n_events = len;
+                    *prev = self.prev;
+                    *replacement = self.replacement;
+                }
                 _ => unreachable!(),
             }
         }
-- 
2.43.0


From b19aad6bfef4272b1fed3c4338bba64aa49f2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 10/20] fix: give all spaces to the root even if its type was
 replaced

---
 fall/parse/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fall/parse/src/lib.rs b/fall/parse/src/lib.rs
index d7f1671..251749b 100644
--- a/fall/parse/src/lib.rs
+++ b/fall/parse/src/lib.rs
@@ -249,15 +249,16 @@ impl ParserDefinition {
             rules: &self.syntactical_rules,
             start_rule: ExprRef(0),
         };
-        let file_ty = match self.syntactical_rules[0] {
-            Expr::Pub { ty, .. } => self.node_types[ty.0 as usize],
-            _ => unreachable!()
-        };
-
         let (events, ticks) = metrics.measure_time("parsing", || {
             syn_engine::parse(prev, g, lang, text, &tokens)
         });
         metrics.record("parsing ticks", ticks, "");
+        // The type of the root may differ from the type of the start rule,
+        // if the rule is replaceable.
+        let file_ty = match events[0] {
+            Event::Start { ty, .. } => ty,
+            _ => unreachable!()
+        };
 
         metrics.measure_time("inode construction", || {
             syn_engine::convert(
-- 
2.43.0


From 39d409f9930929324021ef382ef788a44058f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 11/20] fix: entries below a path that is gone or replaced
 leave the index

---
 indxr/src/lib.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..ccd9a9d 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -111,11 +111,14 @@ impl<V> FileIndexImpl<V> {
         let added = path.exists();
         match (path.is_dir(), added) {
             (false, true) => {
-                if !(self.file_set.filter)(path) {
-                    return
-                }
-                let value = (self.mapper)(path);
+                let value = if (self.file_set.filter)(path) {
+                    (self.mapper)(path)
+                } else {
+                    None
+                };
                 let mut data = self.data.lock().unwrap();
+                // there may have been a directory here
+                data.retain(|k, _| !k.starts_with(path));
                 match value {
                     None => {
                         data.remove(path);
@@ -126,10 +129,8 @@ impl<V> FileIndexImpl<V> {
                     }
                 };
             }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
-            }
-            (true, false) => {
+            // no telling whether it was a file or a directory that is gone
+            (_, false) => {
                 self.data.lock().unwrap().retain(|k, _| {
                     !k.starts_with(path)
                 });
@@ -149,7 +150,9 @@ impl<V> FileIndexImpl<V> {
                     }
                 }
 
-                self.data.lock().unwrap().extend(local);
+                let mut data = self.data.lock().unwrap();
+                data.retain(|k, _| !k.starts_with(path));
+                data.extend(local);
             }
         };
     }
-- 
2.43.0


From 5579f8edd42ba008b498c4ff645282acfa4a5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 12/20] fix: watch the roots before indexing them

---
 indxr/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index ccd9a9d..c9b847e 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -65,20 +65,24 @@ pub struct FileIndexImpl<V> {
 }
 
 fn watch<V>(index: &FileIndexImpl<V>) {
-    let initial_indexing_start = ::std::time::Instant::now();
-    for path in index.file_set.roots.iter() {
-        index.change(path)
-    }
-    let elapsed = initial_indexing_start.elapsed();
-    info!("indexing took = {}s", elapsed.as_secs());
     let (tx, rx) = channel();
 
+    // watch before indexing: a change during the initial indexing must not get lost
     let _watchers = index.file_set.roots.iter().map(|path| {
         let tx = tx.clone();
         let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
-        watcher.watch(path, RecursiveMode::Recursive).unwrap();
+        if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
+            error!("can't watch {:?}: {:?}", path, e);
+        }
         watcher
     }).collect::<Vec<_>>();
+
+    let initial_indexing_start = ::std::time::Instant::now();
+    for path in index.file_set.roots.iter() {
+        index.change(path)
+    }
+    let elapsed = initial_indexing_start.elapsed();
+    info!("indexing took = {}s", elapsed.as_secs());
     loop {
         match rx.recv() {
             Ok(event) => {
-- 
2.43.0


From 116e4c973ceefe608f9baeec32551f334f1f8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 13/20] fix: relative roots are indexed under absolute paths

---
 indxr/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index c9b847e..c5cd09e 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -23,8 +23,10 @@ pub struct IndexableFileSet {
 
 impl IndexableFileSet {
     pub fn new(roots: Vec<PathBuf>, ext: &'static str) -> IndexableFileSet {
+        // the watcher reports absolute paths
+        let cwd = ::std::env::current_dir().unwrap_or_default();
         IndexableFileSet {
-            roots,
+            roots: roots.iter().map(|root| cwd.join(root)).collect(),
             filter: Box::new(move |path| path.extension().unwrap_or_default() == ext)
         }
     }
-- 
2.43.0


From da72b1f6b776d46c2faff1587048595a1fad3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 14/20] fix: index the roots again when events were lost

---
 indxr/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index c5cd09e..a7758cf 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -101,6 +101,12 @@ fn watch<V>(index: &FileIndexImpl<V>) {
                         index.change(&p1);
                         index.change(&p2);
                     }
+                    // events were lost
+                    DebouncedEvent::Rescan => {
+                        for path in index.file_set.roots.iter() {
+                            index.change(path)
+                        }
+                    }
                     _ => continue,
                 }
             },
-- 
2.43.0


From aa3b514ee78bd2ffce128476f5af07f09788c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 15/20] fix: diagnostics of incomplete rules and traits do not
 panic

---
 lang/fall/src/analysis/query/ast_node_traits.rs  |  6 +++++-
 .../src/analysis/query/resolve_pratt_variant.rs  | 16 +++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..2597efd 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 
 use fall_tree::{Text, AstNode};
+use fall_tree::search::child_of_type;
 use crate::analysis::diagnostics::DiagnosticSink;
 use crate::analysis::db::{self, DB};
 use crate::syntax::{AstTraitDef, COLON, IDENT};
@@ -9,7 +10,10 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            // an incomplete trait may lack the name
+            ast.ast_traits()
+                .filter_map(|trait_| child_of_type(trait_.node(), IDENT).map(|name| (name.text(), trait_)))
+                .collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..5b7b98d 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -28,14 +28,20 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             }
         };
 
+        // an incomplete rule may lack the body
+        let body = match rule.node().children().find_map(Expr::wrap) {
+            None => return None,
+            Some(body) => body,
+        };
+
         if kind == "atom" {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return Some(PratVariant::Atom(body));
         }
 
-        let args = match rule.body() {
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +67,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +81,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +94,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
-- 
2.43.0


From 5feef2d3064684303a8777afafb70c7cd439d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 16/20] fix: report duplicate rules of a grammar without
 references

---
 lang/fall/src/analysis/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..19fa627 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,7 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From 0bcd643af861b345dc9609419f607716285b0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 17/20] fix: recognise <commit> however it is spelled

`< commit >` resolves to a commit, but the generator compared the text of
the call and panicked on it ("Should be handled specially"). The same panic
met a commit which is not a part of a sequence; that is an error now.
---
 fall/gen/src/generate/codegen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..5865072 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -203,7 +203,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
             Expr::SeqExpr(seq) => {
                 fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
+                    match part {
+                        Expr::CallExpr(call) => call.fn_name() == "commit",
+                        _ => false,
+                    }
                 }
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
@@ -276,7 +279,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
                         tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit => return Err(format_err!("<commit> outside of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
-- 
2.43.0


From 14d2e0a23cf4b9d481e15a52a9d793d1aaff70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 18/20] fix: report rules whose node type does not exist

A rule with `#[type(unknown)]` was generated as a rule without a node,
silently, or hit `unreachable!` with `#[replaces]`; `<prev_is>` of such a
rule panicked. They are errors now.
---
 fall/gen/src/generate/codegen.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 5865072..f0649a0 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -158,7 +158,12 @@ impl<'a, 'f> Codegen<'a, 'f> {
             (false, body) => self.gen_expr(body)?
         };
 
-        let body = match (self.syn_rule_ty(rule), rule.is_replaces(), rule.is_cached()) {
+        let ty = self.syn_rule_ty(rule);
+        if ty.is_none() && rule.ty_name().is_some() {
+            return Err(format_err!("Unknown node type: {}", rule.node().text()));
+        }
+
+        let body = match (ty, rule.is_replaces(), rule.is_cached()) {
             (Some(ty), true, _) => dst::Expr::PubReplace {
                 ty,
                 body,
@@ -184,7 +189,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            _ => return Err(format_err!("Replacement without a node type: {}", rule.node().text())),
         };
 
         Ok(body)
@@ -277,7 +282,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r).ok_or(format_err!("Unknown node type")))
+                            .collect::<Result<Vec<_>>>()?
                     ),
                     CallKind::Commit => return Err(format_err!("<commit> outside of a sequence")),
                 }
-- 
2.43.0


From 4c2616fb2454588dfd1e40ccba83a3fb201ad017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 19/20] fix: report more contexts or parameters than a parser
 can track

The parser keeps contexts and arguments in arrays of 16 and panics on
larger numbers; the generator produced such parsers without a word.
---
 fall/gen/src/generate/codegen.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index f0649a0..7beaccc 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -13,6 +13,9 @@ use crate::util::{scream, camel};
 
 pub type Result<T> = std::result::Result<T, ::failure::Error>;
 
+/// The number of contexts and of parameters that a parser can keep track of.
+const MAX_SLOTS: u32 = 16;
+
 pub(super) struct Codegen<'a, 'f: 'a> {
     analysis: &'a Analysis<'f>,
     node_types: Vec<(Text<'f>, bool)>,
@@ -138,14 +141,24 @@ impl<'a, 'f> Codegen<'a, 'f> {
         dst::NodeTypeRef((i + 1) as u32)
     }
 
-    fn param_ref(&self, param: Parameter<'f>) -> dst::Arg {
+    fn context_ref(&self, idx: u32) -> Result<dst::Context> {
+        if idx >= MAX_SLOTS {
+            return Err(format_err!("Too many contexts"));
+        }
+        Ok(dst::Context(idx))
+    }
+
+    fn param_ref(&self, param: Parameter<'f>) -> Result<dst::Arg> {
         let idx = self.file().syn_rules()
             .filter_map(|rule| rule.parameters())
             .flat_map(|p| p.parameters())
             .position(|p| p.node() == param.node())
             .unwrap();
 
-        dst::Arg(idx as u32)
+        if idx >= MAX_SLOTS as usize {
+            return Err(format_err!("Too many parameters"));
+        }
+        Ok(dst::Arg(idx as u32))
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
@@ -240,7 +253,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         }
                     }
                     RefKind::RuleReference(rule) => return Ok(self.syn_rule_ref(rule)),
-                    RefKind::Param(p) => dst::Expr::Var(self.param_ref(p)),
+                    RefKind::Param(p) => dst::Expr::Var(self.param_ref(p)?),
                 }
             }
 
@@ -252,15 +265,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     CallKind::Eof => dst::Expr::Eof,
                     CallKind::Any => dst::Expr::Any,
                     CallKind::Enter(idx, expr) => dst::Expr::Enter(
-                        dst::Context(idx as u32),
+                        self.context_ref(idx)?,
                         self.gen_expr(expr)?,
                     ),
                     CallKind::Exit(idx, expr) => dst::Expr::Exit(
-                        dst::Context(idx as u32),
+                        self.context_ref(idx)?,
                         self.gen_expr(expr)?,
                     ),
                     CallKind::IsIn(idx) => dst::Expr::IsIn(
-                        dst::Context(idx as u32)
+                        self.context_ref(idx)?
                     ),
                     CallKind::Not(expr) => dst::Expr::Not(self.gen_expr(expr)?),
                     CallKind::Layer(e1, e2) => dst::Expr::Layer(
@@ -278,7 +291,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     CallKind::RuleCall(rule, args) => dst::Expr::Call(
                         self.syn_rule_ref(rule),
                         args.iter()
-                            .map(|&(p, e)| Ok((self.param_ref(p), self.gen_expr(e)?)))
+                            .map(|&(p, e)| Ok((self.param_ref(p)?, self.gen_expr(e)?)))
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-- 
2.43.0


From e91c6a824ec53c58c2dffea90d3735e0f8e67a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 20/20] fix: contextual tokens that start with ## broke the
 generated file

The expressions are put into an `r##"..."##` literal, which a token text
starting with `##` ended.
---
 fall/gen/src/generate/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 7beaccc..d6ee298 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -61,7 +61,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
             let expr = self.gen_rule(r)?;
             self.expressions[i] = expr;
         }
-        let parser = serde_json::to_string(&self.expressions).unwrap();
+        let parser = serde_json::to_string(&self.expressions).unwrap()
+            // `"##` would end the raw string literal of the template
+            .replace("\"#", "\"\\u0023");
         context.insert("parser_json", &parser);
 
         let lex_rules = self.file().tokenizer_def()
-- 
2.43.0

