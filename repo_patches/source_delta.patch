From c4f3dd4a3f305fb973091d5efb800c0b0eb5653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:37 +0000
Subject: [PATCH 01/22] fix: write font sizes that are not positive

A negative font size was left out of the written text and came back as zero.
---
 src/footprint/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..3a445f8 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -71,7 +71,7 @@ impl IntoSexp for At {
 impl IntoSexp for Font {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("font");
-        if self.size.x > 0.0 || self.size.y > 0.0 {
+        if self.size.x != 0.0 || self.size.y != 0.0 {
             let mut v1 = Sexp::start("size");
             v1.push(self.size.x);
             v1.push(self.size.y);
-- 
2.43.0


From 74d8dae0126b96f1ec7cc0caeddbe6d76f69ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:37 +0000
Subject: [PATCH 02/22] fix: keep drill sizes when writing and reading pads

A drill without a width was written as "(drill)", which the reader refused.
A height of zero, or one very close to the width, was lost.
---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..b240bbd 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -184,7 +184,7 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index 3a445f8..ccd38a5 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -3,7 +3,6 @@
 use Sexp;
 use symbolic_expressions::IntoSexp;
 use footprint::data::*;
-use std::f64;
 
 impl IntoSexp for Module {
     fn into_sexp(&self) -> Sexp {
@@ -139,10 +138,10 @@ impl IntoSexp for Drill {
         if let Some(ref s) = self.shape {
             v.push(s)
         }
-        if self.width > 0.0 {
+        if self.width != 0.0 || self.height != 0.0 {
             v.push(self.width);
         }
-        if self.height > 0.0 && (self.height - self.width).abs() > f64::EPSILON {
+        if self.height != self.width {
             v.push(self.height);
         }
         if self.offset_x != 0.0 || self.offset_y != 0.0 {
-- 
2.43.0


From db328f36ae55ba2d9faac329342411747fe3cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:37 +0000
Subject: [PATCH 03/22] fix: read pads that have both a size and a rect_delta

The reader accepted only one of them, and the writer put rect_delta after
the drill where the reader does not look for it.
---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index b240bbd..87739f7 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -246,7 +246,7 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
+        while let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Size {
                 pad.size = xy;
             } else if xy.t == XyType::RectDelta {
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index ccd38a5..8c5c60c 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -199,12 +199,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From 78c3d26219fd1a5fd5de6a1f68c7d05a08ba19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:57 +0000
Subject: [PATCH 04/22] fix: keep layer names with several dots whole

---
 src/footprint/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..4114cf5 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -950,7 +950,8 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            // a name without a side is kept whole
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From 2c91ebf5f58b387239a5370bfd2e1c7d0b4f0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:31 +0000
Subject: [PATCH 05/22] fix: do not read zones filled with polygons as filled
 with segments

---
 src/layout/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..cbd7727 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -417,7 +417,7 @@ impl FromSexp for Fill {
         let mut fill = Fill::default();
         let mut i = IterAtom::new(s, "fill")?;
         fill.filled = i.maybe_literal_s("yes").is_some();
-        fill.segment = i.maybe_s_in_list("mode").is_some();
+        fill.segment = i.maybe_s_in_list("mode").map_or(false, |m| m == "segment");
         fill.arc_segments = i.i_in_list("arc_segments")?;
         fill.thermal_gap = i.f_in_list("thermal_gap")?;
         fill.thermal_bridge_width = i.f_in_list("thermal_bridge_width")?;
-- 
2.43.0


From 0db929084805bade36f5ab0348140fd94bb0ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:21 +0000
Subject: [PATCH 06/22] fix: report lists without a name instead of panicking

---
 src/footprint/de.rs | 14 +++++++-------
 src/layout/de.rs    | 12 ++++++------
 src/lib.rs          |  8 ++++++++
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 87739f7..bb80c7a 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -3,7 +3,7 @@
 use Sexp;
 use footprint;
 use footprint::data::*;
-use wrap;
+use {list_name, wrap};
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -130,7 +130,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -195,7 +195,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -385,19 +385,19 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.s("element")?)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.f("element")?)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let i = i64::from_str_radix(&s, 16)?;
@@ -412,7 +412,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index cbd7727..0f84f21 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -5,7 +5,7 @@
 
 // from parent
 use footprint;
-use wrap;
+use {list_name, wrap};
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,8 +190,8 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
-            let xn = &list_name[..];
+            let name = list_name(x)?;
+            let xn = &name[..];
             match xn {
                 "add_net" => {
                     let l1 = x.named_value_s("add_net")?;
@@ -205,7 +205,7 @@ impl FromSexp for NetClass {
                 "uvia_drill" => uvia_drill = parse(x, xn)?,
                 "diff_pair_gap" => diff_pair_gap = Some(parse(x, xn)?),
                 "diff_pair_width" => diff_pair_width = Some(parse(x, xn)?),
-                _ => return Err(format!("unknown net_class field {}", list_name).into()),
+                _ => return Err(format!("unknown net_class field {}", name).into()),
             }
         }
         let net_class = NetClass {
@@ -231,7 +231,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -465,7 +465,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..3ddb94a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -244,6 +244,14 @@ where
     Ok(wrapper(make(s)?))
 }
 
+// name of a list, which is an error for a list without elements
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    if s.list()?.is_empty() {
+        return Err("list without a name".into());
+    }
+    s.list_name()
+}
+
 #[derive(Debug)]
 /// A bounding box
 pub struct Bound {
-- 
2.43.0


From 408afca59f32f5a75eeb28050593a984629c2cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:37 +0000
Subject: [PATCH 07/22] fix: report malformed schematics and symbol libraries
 instead of panicking

---
 src/schematic.rs  | 35 ++++++++++++++++++++++++-----------
 src/symbol_lib.rs | 24 +++++++++++++-----------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..9de4b27 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,7 +249,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -746,15 +746,15 @@ impl ComponentField {
         let c = ComponentField {
             i: i,
             value: v[2].clone(),
-            orientation: Orientation::new(char_at(&v[3], 0))?,
+            orientation: Orientation::new(char_at(&v[3], 0)?)?,
             x: f64_from_string(p, &v[4])?,
             y: f64_from_string(p, &v[5])?,
             size: i64_from_string(p, &v[6])?,
             visible: bool_from_string(&v[7], "0000", "0001")?,
-            hjustify: Justify::new(char_at(&v[8], 0))?,
-            vjustify: Justify::new(char_at(&v[9], 0))?,
-            italic: bool_from(&char_at(&v[9], 1), &'I', &'N')?,
-            bold: bool_from(&char_at(&v[9], 2), &'B', &'N')?,
+            hjustify: Justify::new(char_at(&v[8], 0)?)?,
+            vjustify: Justify::new(char_at(&v[9], 0)?)?,
+            italic: bool_from(&char_at(&v[9], 1)?, &'I', &'N')?,
+            bold: bool_from(&char_at(&v[9], 2)?, &'B', &'N')?,
             name: name,
         };
         Ok(c)
@@ -1126,9 +1126,11 @@ impl fmt::Display for Text {
     }
 }
 
-fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
+    match s.chars().nth(p) {
+        Some(c) => Ok(c),
+        None => str_error(format!("expecting at least {} characters in '{}'", p + 1, s)),
+    }
 }
 
 
@@ -1279,6 +1281,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in component".to_string());
+        }
         let s = p.here();
         if s == "$EndComp" {
             break;
@@ -1374,6 +1379,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in sheet".to_string());
+        }
         let st = p.here();
         if st == "$EndSheet" {
             break;
@@ -1477,12 +1485,18 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     } else {
         None
     };
+    if v.len() < index + 2 {
+        return str_error(format!("expecting 8 or 9 elements in {}", s));
+    }
     let italic = match v[index] {
         "Italic" => true,
         _ => false,
     };
     let thickness = i64_from_string(p, &String::from(v[index + 1]))?;
     p.next();
+    if p.eof() {
+        return str_error("end of file reached in text".to_string());
+    }
     let text = p.here();
     Ok(Text {
         t: t,
@@ -1552,8 +1566,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     let w = parse_text(p)?;
                     sch.append_text(w)
                 }
-                Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                _ => sch.append_other(p.here()),
             }
         }
         p.next()
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..08ea701 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -290,7 +290,7 @@ impl Symbol {
 
     /// set the name of the symbol
     pub fn set_name(&mut self, name: &str) {
-        if char_at(&self.name, 0) == '~' {
+        if self.name.starts_with('~') {
             self.name = format!("~{}", name)
         } else {
             self.name = name.to_string()
@@ -609,7 +609,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -652,9 +652,11 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
     str_error(format!("unknown boolean {}, expected {} or {}", s, t, f))
 }
 
-fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
+    match s.chars().nth(p) {
+        Some(c) => Ok(c),
+        None => str_error(format!("expecting at least {} characters in '{}'", p + 1, s)),
+    }
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
@@ -676,7 +678,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     p.next();
     loop {
         let s2 = p.here();
-        if char_at(&s2, 0) == 'F' {
+        if s2.starts_with('F') {
             let f = parse_field(p, &s2)?;
             s.fields.push(f);
             p.next();
@@ -761,12 +763,12 @@ fn parse_field(p: &mut ParseState, line: &str) -> Result<Field, KicadError> {
     f.x = f64_from_string(p, &v[2])?;
     f.y = f64_from_string(p, &v[3])?;
     f.dimension = i64_from_string(p, &v[4])?;
-    f.orientation = schematic::Orientation::new(char_at(&v[5], 0))?;
+    f.orientation = schematic::Orientation::new(char_at(&v[5], 0)?)?;
     f.visible = bool_from_string(&v[6], "V", "I")?;
-    f.hjustify = schematic::Justify::new(char_at(&v[7], 0))?;
-    f.vjustify = schematic::Justify::new(char_at(&v[8], 0))?;
-    f.italic = bool_from(char_at(&v[8], 1), 'I', 'N')?;
-    f.bold = bool_from(char_at(&v[8], 2), 'B', 'N')?;
+    f.hjustify = schematic::Justify::new(char_at(&v[7], 0)?)?;
+    f.vjustify = schematic::Justify::new(char_at(&v[8], 0)?)?;
+    f.italic = bool_from(char_at(&v[8], 1)?, 'I', 'N')?;
+    f.bold = bool_from(char_at(&v[8], 2)?, 'B', 'N')?;
     f.name = name;
     Ok(f)
 }
-- 
2.43.0


From 8dfb54e3618034d554156f640b41feb8160ba582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:54 +0000
Subject: [PATCH 08/22] fix: read components of every unit

---
 src/schematic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 9de4b27..06a7274 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1293,8 +1293,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("U") => parse_component_u(p, &mut d)?,
             Some("P") => parse_component_p(p, &mut d)?,
             Some("F") => parse_component_f(p, &mut d)?,
-            Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
+            // the redundant position line starts with the unit number
+            Some(x) if i64::from_str(x).is_ok() => parse_component_rotation(p, &mut d)?,
             _ => println!("skipping unknown component line {}", s),
         }
         p.next()
-- 
2.43.0


From 97854e7d735311cb15113f017d14e858993e0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:26 +0000
Subject: [PATCH 09/22] fix: write the names of the first fields when they are
 not the usual ones

---
 src/schematic.rs  | 22 +++++++++++++++-------
 src/symbol_lib.rs | 11 ++++-------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 06a7274..f4ca3c3 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -722,6 +722,17 @@ pub struct ComponentField {
     pub name: String,
 }
 
+// name of a field for which the file doesn't have to mention one
+pub(crate) fn default_field_name(i: i64) -> Option<&'static str> {
+    match i {
+        0 => Some("Reference"),
+        1 => Some("Value"),
+        2 => Some("Footprint"),
+        3 => Some("UserDocLink"),
+        _ => None,
+    }
+}
+
 impl ComponentField {
     fn new(p: &ParseState, v: &[String]) -> Result<ComponentField, KicadError> {
         if v.len() != 10 && v.len() != 11 {
@@ -735,12 +746,9 @@ impl ComponentField {
         let name = if v.len() == 11 {
             v[10].clone()
         } else {
-            match i {
-                0 => String::from("Reference"),
-                1 => String::from("Value"),
-                2 => String::from("Footprint"),
-                3 => String::from("UserDocLink"),
-                _ => return str_error("expecting name for componentfield > 3".to_string()),
+            match default_field_name(i) {
+                Some(name) => String::from(name),
+                None => return str_error("expecting name for componentfield > 3".to_string()),
             }
         };
         let c = ComponentField {
@@ -793,7 +801,7 @@ impl fmt::Display for ComponentField {
         write!(f, "{} {}", self.hjustify, self.vjustify)?;
         write!(f, "{}", if self.italic { 'I' } else { 'N' })?;
         write!(f, "{}", if self.bold { 'B' } else { 'N' })?;
-        if self.i > 3 {
+        if default_field_name(self.i) != Some(self.name.as_str()) {
             write!(f, " \"{}\"", self.name)?
         };
         Ok(())
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 08ea701..095a714 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -402,7 +402,7 @@ impl fmt::Display for Field {
             if self.italic { "I" } else { "N" },
             if self.bold { "I" } else { "N" },
         )?;
-        if self.i > 3 {
+        if schematic::default_field_name(self.i) != Some(self.name.as_str()) {
             write!(f, " \"{}\"", self.name)?
         };
         Ok(())
@@ -751,12 +751,9 @@ fn parse_field(p: &mut ParseState, line: &str) -> Result<Field, KicadError> {
     let name = if v.len() == 10 {
         v[9].clone()
     } else {
-        match f.i {
-            0 => String::from("Reference"),
-            1 => String::from("Value"),
-            2 => String::from("Footprint"),
-            3 => String::from("UserDocLink"),
-            _ => return str_error("expecting name for componentfield > 3".to_string()),
+        match schematic::default_field_name(f.i) {
+            Some(name) => String::from(name),
+            None => return str_error("expecting name for componentfield > 3".to_string()),
         }
     };
     f.value = v[1].clone();
-- 
2.43.0


From bdf196f473755e2c286ada121e09a883afd81357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:26 +0000
Subject: [PATCH 10/22] fix: leave out the time stamp line of sheets without
 time stamp

---
 src/schematic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index f4ca3c3..9bc89ab 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -865,7 +865,9 @@ impl fmt::Display for Sheet {
     fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
         writeln!(f, "$Sheet")?;
         writeln!(f, "S {} {} {} {}", self.x, self.y, self.dimx, self.dimy)?;
-        writeln!(f, "U {}", self.unique)?;
+        if !self.unique.is_empty() {
+            writeln!(f, "U {}", self.unique)?;
+        }
         writeln!(f, "F0 \"{}\" {}", self.name, self.name_size)?;
         writeln!(f, "F1 \"{}\" {}", self.filename, self.filename_size)?;
         let mut i = 2;
-- 
2.43.0


From 47e6d6665fb323824dcb90ac9957e09bb4944626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:26 +0000
Subject: [PATCH 11/22] fix: write bold symbol fields as bold

---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 095a714..39aada3 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -400,7 +400,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if schematic::default_field_name(self.i) != Some(self.name.as_str()) {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 05b8300c80eca5e7694e9e0da462ae20bfe4fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:26 +0000
Subject: [PATCH 12/22] fix: write symbols that have fewer than two fields

---
 src/symbol_lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 39aada3..201b005 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -331,7 +331,8 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        let value = self.fields.get(1).map_or(&self.name, |f| &f.value);
+        writeln!(f, "# {}", value)?;
         writeln!(f, "#")?;
         writeln!(
             f,
-- 
2.43.0


From cfce4a7d5d4b02ae798c9dc8cafc23345d6fd85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:08 +0000
Subject: [PATCH 13/22] fix: rename a block that follows a block of the same
 name

Replacing /a/ in /a/a/net only renamed the first block, because the
slash between the blocks was consumed by the first match.
---
 src/layout/data.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 8a7b6ce..85b72ed 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -284,8 +284,17 @@ impl NetName {
     /// replace the block_name in a net name
     pub fn replace_block(&mut self, from: &str, to: &str) {
         let from_pat = format!("/{}/", from);
-        let to_pat = format!("/{}/", to);
-        let n = self.0.replace(&from_pat, &to_pat);
+        let mut n = String::new();
+        {
+            let mut rest = &self.0[..];
+            while let Some(pos) = rest.find(&from_pat) {
+                n.push_str(&rest[..pos + 1]);
+                n.push_str(to);
+                // the closing slash can open the next block
+                rest = &rest[pos + from_pat.len() - 1..];
+            }
+            n.push_str(rest);
+        }
         self.0 = n;
     }
 
-- 
2.43.0


From 7f9e64aecb44aa65d7ebd9d230d5ebeca53b0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:08 +0000
Subject: [PATCH 14/22] fix: order the corners of the bounding box of lines and
 arcs

A footprint line or arc drawn towards smaller coordinates had its
corners swapped, so merging it into the box of the module lost it.
---
 src/footprint/data.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index 4114cf5..be8e192 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -1219,7 +1219,11 @@ impl Default for FpLine {
 
 impl BoundingBox for FpLine {
     fn bounding_box(&self) -> Bound {
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let x1 = self.start.x.min(self.end.x);
+        let y1 = self.start.y.min(self.end.y);
+        let x2 = self.start.x.max(self.end.x);
+        let y2 = self.start.y.max(self.end.y);
+        Bound::new(x1, y1, x2, y2)
     }
 }
 
@@ -1319,7 +1323,11 @@ impl Flip for FpArc {
 impl BoundingBox for FpArc {
     fn bounding_box(&self) -> Bound {
         // perhaps not correct
-        Bound::new(self.start.x, self.start.y, self.end.x, self.end.y)
+        let x1 = self.start.x.min(self.end.x);
+        let y1 = self.start.y.min(self.end.y);
+        let x2 = self.start.x.max(self.end.x);
+        let y2 = self.start.y.max(self.end.y);
+        Bound::new(x1, y1, x2, y2)
     }
 }
 
-- 
2.43.0


From 39ffa4d4b4523d31cedf3a3b8a6f30a44c50b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:08 +0000
Subject: [PATCH 15/22] fix: use the x coordinate for the left edge of a
 component's bounding box

---
 src/schematic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 9bc89ab..7b6a11e 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -433,7 +433,7 @@ impl Default for Component {
 impl BoundingBox for Component {
     fn bounding_box(&self) -> Bound {
         debug!("Component bound calculation is poor");
-        Bound::new_from_i64(self.y, self.y, self.x, self.y)
+        Bound::new_from_i64(self.x, self.y, self.x, self.y)
     }
 }
 
-- 
2.43.0


From 740b3983ffe24987928d8787d4d382b582f0ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:03 +0000
Subject: [PATCH 16/22] fix: check symbol pins against the 100 mil and 50 mil
 grids

Pin positions are in mil. They were only checked to be multiples of 10,
and pin lengths multiples of 5.
---
 src/symbol_lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 201b005..ec3edf2 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -942,7 +942,7 @@ impl CheckFix for Pin {
         let mut v = vec![];
         let name = format!("{}:{}", self.name, self.number);
         // 4.1 Using a 100mil grid, pin origin must lie on grid nodes (IEC-60617)
-        if (self.x % 10) != 0 {
+        if (self.x % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -950,7 +950,7 @@ impl CheckFix for Pin {
                 "pin x not on 100mil grid",
             ));
         }
-        if (self.y % 10) != 0 {
+        if (self.y % 100) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
@@ -959,7 +959,7 @@ impl CheckFix for Pin {
             ));
         }
         // 4.1 Pin length can be incremented in steps of 50mils (1.27mm) if required e.g. for long pin numbers
-        if (self.len % 5) != 0 {
+        if (self.len % 50) != 0 {
             v.push(CheckFixData::new(
                 4,
                 1,
-- 
2.43.0


From bc238c28ae12b1247944bc1c3005a56e57cc70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:34 +0000
Subject: [PATCH 17/22] fix: only accept Net-(reference-pad) as unnamed net

Names with other separators or with text behind the closing parenthesis
were accepted too, and setting a new reference then lost that text.
---
 src/layout/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/data.rs b/src/layout/data.rs
index 85b72ed..2087e23 100644
--- a/src/layout/data.rs
+++ b/src/layout/data.rs
@@ -913,7 +913,7 @@ impl NetName {
     pub fn is_unnamed_net(&self) -> Option<(String, String)> {
         if self.0.starts_with("Net-(") {
             let v: Vec<&str> = self.0.split(|c| c == '-' || c == '(' || c == ')').collect();
-            if v.len() != 5 {
+            if v.len() != 5 || self.0 != format!("Net-({}-{})", v[2], v[3]) {
                 None
             } else {
                 Some((v[2].into(), v[3].into()))
-- 
2.43.0


From a1ce425536bc049f4c45902058048ec8ccf6b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:34 +0000
Subject: [PATCH 18/22] fix: order an empty reference instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ddb94a..1b370c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -355,7 +355,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or('\0');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0


From 62a3924ed16e13372e3b4bbf4f8ccf625107df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:34 +0000
Subject: [PATCH 19/22] fix: find the value field of a symbol by its number in
 set_name

The field at index 1 was taken. This panicked for symbols with fewer
fields and changed the wrong field if the fields are in another order.
---
 src/symbol_lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index ec3edf2..26ecdab 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -295,8 +295,11 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        for field in &mut self.fields {
+            if field.i == 1 {
+                field.value = name.to_string()
+            }
+        }
     }
 
     /// get the list of pins on the symbol
-- 
2.43.0


From 85fcecd89a4db70906b206aa818bea5b4d6312f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:49 +0000
Subject: [PATCH 20/22] fix: show unknown files whose name is not valid UTF-8

Displaying an unknown file panicked when its path was not valid UTF-8.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1b370c7..4ee326d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,7 @@ pub enum Expected {
 impl fmt::Display for KicadFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> std::result::Result<(), fmt::Error> {
         match *self {
-            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.to_str().unwrap()),
+            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.display()),
             KicadFile::Module(_) => write!(f, "module"),
             KicadFile::Schematic(_) => write!(f, "schematic"),
             KicadFile::Layout(_) => write!(f, "layout"),
-- 
2.43.0


From 9fc92844ad288aa62245a269efbb01b57778b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:49 +0000
Subject: [PATCH 21/22] fix: read symbol libraries whose name is not valid
 UTF-8

Reading a symbol library from a path that is not valid UTF-8 panicked.
---
 src/symbol_lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 26ecdab..83ab1e6 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -845,8 +845,7 @@ pub fn parse_str(s: &str) -> Result<SymbolLib, KicadError> {
 
 /// parse a file to a symbol lib
 pub fn parse_file(filename: &PathBuf) -> Result<SymbolLib, KicadError> {
-    let name = filename.to_str().unwrap();
-    let s = read_file(name)?;
+    let s = read_file(filename)?;
     parse(&s[..])
 }
 
-- 
2.43.0


From 1e33f5611b399ca0fbe821b3fbc9fd1e05ce5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:15 +0000
Subject: [PATCH 22/22] fix: read symbols whose footprint list follows the
 aliases

---
 src/symbol_lib.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 83ab1e6..67bc42b 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -663,6 +663,20 @@ fn char_at(s: &str, p: usize) -> Result<char, KicadError> {
     }
 }
 
+// skip FPLIST for now
+fn skip_fplist(p: &mut ParseState) {
+    if &p.here() == "$FPLIST" {
+        p.next();
+        while !p.eof() {
+            if &p.here() == "$ENDFPLIST" {
+                p.next();
+                break;
+            }
+            p.next()
+        }
+    }
+}
+
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     p.next(); // skip line like # name
     assume_line!(p, "#");
@@ -690,23 +704,15 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
             break;
         }
     }
-    if &p.here() == "$FPLIST" {
-        p.next();
-        // skip FPLIST for now
-        while !p.eof() {
-            if &p.here() == "$ENDFPLIST" {
-                p.next();
-                break;
-            }
-            p.next()
-        }
-    }
+    // the footprint list may come before or after the aliases
+    skip_fplist(p);
     if p.here().starts_with("ALIAS") {
         let v = parse_split_quote_aware(&p.here())?;
         for alias in v.into_iter().skip(1) {
             s.aliases.push(alias)
         }
         p.next();
+        skip_fplist(p);
     }
     // TODO draw
     assume_line!(p, "DRAW");
-- 
2.43.0

