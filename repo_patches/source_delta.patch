From 803fa39ffabd746c9a011e3758a5a539f7463a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 01/11] fix: an upward line crossing a rectangle was taken to
 lie inside it

intersected_line() compared only one end of the line with the top and
the other with the bottom edge, so a line passing right through the
rectangle from below was reported as not intersecting, depending on the
order of its end points.
---
 src/geometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..c0dd2da 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,8 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        // `dy` is negative for a line going upward, so test both ends against both edges.
+        if x > left && (x + dx) < right && y.min(y + dy) > top && y.max(y + dy) < bottom {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 6df970ac5766513721ec56efdc9a9fc6d8f8c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 02/11] fix: route edges could cut through a record

The first candidate neighbor of a junction was accepted without the
collision test because && binds tighter than ||. Such an edge could be
drawn across a shape and make a path turn back on itself, which the
renderer answers with a panic.
---
 src/layout.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..ce0a242 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y)
+                            && no_collision()
+                        {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +735,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y)
+                            && no_collision()
+                        {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +751,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x)
+                            && no_collision()
+                        {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +767,8 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x)
+                            && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 44b0c5578e682b6a8ca4bccf3dfeaae0b3ffeebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 03/11] fix: relation from a node to itself panicked in the
 renderer

The cheapest path led from a port to the same port and so had a single
point, but an edge is drawn from at least two.
---
 src/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index ce0a242..dc9084e 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -811,6 +811,12 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // Ports of a node related to itself, or touching ones of a record and its field:
+                // a path needs two distinct ends.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From 8669d53e3e54cf327efa9d8d8c690bad0bef8a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 04/11] fix: view box of a module without entities had a
 negative height

---
 src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.rs b/src/layout.rs
index dc9084e..d892ae3 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,7 +272,7 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
-- 
2.43.0


From af0a18b07f020c8aafec5a2c67b5568f30224f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 05/11] fix: escape names in the SVG output

A quoted identifier may hold any character. Written out as they are,
names with <, & or control characters made the document ill-formed, or
let a name inject markup.
---
 src/renderer.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..057ada3 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -234,6 +234,26 @@ impl SVGAnchor {
     }
 }
 
+/// Escapes `text` for use as XML character data, which the `svg` crate doesn't do.
+///
+/// Characters that can't appear in an XML document at all are replaced with U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '\t' | '\n' | '\r' => escaped.push(c),
+            '\0'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 impl SVGRenderer<'_> {
     fn draw_text(
         &self,
@@ -245,7 +265,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From 17b3dd75734460afbbaa4b5b7b878833c7204665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 06/11] fix: input after the part that could be parsed was
 silently ignored

Neither the tokenizer nor the parser required the end of input, so a
second module or any other text after the first one was dropped without
an error.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..2d95ba4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,7 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
         .padded_by(comment.repeated())
         .padded_by(spaces)
         .repeated()
+        .then_ignore(end())
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
@@ -269,6 +270,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
         .then(module_entries.padded_by(pad.clone()))
         .then_ignore(just(Token::Ctrl('}')))
         .padded_by(pad.clone())
+        .then_ignore(end())
         .map(|(name, entries)| {
             let mut module = Module::new(name);
 
-- 
2.43.0


From 00d391b43fca60951d26be3997ebcb97fc220b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 07/11] fix: an entity could not be the end of a relation

The grammar says `identifier, [ ".", identifier ]`, but the dot was
required and only the second identifier could be left out.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2d95ba4..b38877b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -195,7 +195,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 5b764b337a3c16d9d805da8c953fe313a30a514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 08/11] fix: relations written before their entities were
 dropped

---
 src/erd.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/erd.rs b/src/erd.rs
index fd368f9..ea72e79 100644
--- a/src/erd.rs
+++ b/src/erd.rs
@@ -126,15 +126,19 @@ impl Module {
 
                     doc.body_mut().append_child(record_id);
                 }
-                ModuleEntry::EntityRelation(relation) => {
-                    let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
-                    let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
-
-                    doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
-                }
+                // Relations may refer to entities defined after them.
+                ModuleEntry::EntityRelation(_) => {}
             }
         }
 
+        for entry in self.entries.iter() {
+            let ModuleEntry::EntityRelation(relation) = entry else { continue };
+            let Some(start_node_id) = node_paths.get(relation.start_path()) else { continue };
+            let Some(end_node_id) = node_paths.get(relation.end_path()) else { continue };
+
+            doc.add_edge(mir::EdgeData::new(*start_node_id, *end_node_id, None));
+        }
+
         doc
     }
 
-- 
2.43.0


From d6a03f987801166ffb2412affc3f872fb0d6c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 09/11] fix: reporting an error in an empty source panicked

ariadne indexes the first line of a source, and an empty source has none.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..5d15f90 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -100,7 +100,8 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            // ariadne can't locate anything in a source without any lines.
+            .eprint((filename, Source::from(format!("{}\n", src))))
             .unwrap();
     }
 
-- 
2.43.0


From f3d33b4db8bd663c510fbb7d48e91c981b9128b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 10/11] fix: order of expected tokens in error messages was
 random

---
 src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5d15f90..26ec327 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,13 +72,17 @@ fn main() -> Result<(), io::Error> {
                     if e.expected().len() == 0 {
                         "something else".to_string()
                     } else {
-                        e.expected()
+                        let mut expected = e
+                            .expected()
                             .map(|expected| match expected {
                                 Some(expected) => expected.to_string(),
                                 None => "end of input".to_string(),
                             })
-                            .collect::<Vec<_>>()
-                            .join(", ")
+                            .collect::<Vec<_>>();
+
+                        // The tokens come in the random order of a hash set.
+                        expected.sort();
+                        expected.join(", ")
                     }
                 ))
                 .with_label(
-- 
2.43.0


From 50e5b156979c1716d3ddc58e735e655223e87310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 11/11] fix: report failures to write the last line of the
 diagram

Standard output is line-buffered: the text after the last line end was
only written by the implicit flush at exit, which ignores errors.
---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 26ec327..86d9be1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,7 +3,10 @@ use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
 use seiren::parser::parse;
 use seiren::renderer::{Renderer, SVGRenderer};
 use std::io;
-use std::{fs, io::Read};
+use std::{
+    fs,
+    io::{Read, Write},
+};
 
 const DEBUG: bool = false;
 
@@ -133,6 +136,9 @@ fn main() -> Result<(), io::Error> {
         backend
             .render(&doc, &mut handle)
             .expect("Couldn't render as SVG.");
+
+        // Errors of the implicit flush at exit would be ignored.
+        handle.flush()?;
     }
 
     Ok(())
-- 
2.43.0

