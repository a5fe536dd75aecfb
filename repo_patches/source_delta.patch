From 996afe41c5fd1b8cf86ffc80de1fb48613aeb300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/19] fix: read a run of unary signs without recursing

A value such as '-----...-1' recursed once per sign with no limit, so a long
enough run of signs overflowed the stack and aborted the process.
---
 src/parse/parser.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..e408c85 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -661,10 +661,22 @@ fn parse_unary_op(
         (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
     );
 
+    // Read a whole run of signs at once instead of recursing for each of them, as a long run would
+    // otherwise overflow the stack.
+    let mut ops = vec![op];
+    loop {
+        ops.push(match stream.peek() {
+            Some('+') => UnaryOp::Plus,
+            Some('-') => UnaryOp::Minus,
+            _ => break,
+        });
+        let _ = stream.next();
+    }
+
     let line = stream.line();
     let col = stream.col();
 
-    let res = match stream.peek() {
+    let mut res = match stream.peek() {
         Some(_) => parse_value(
             &mut stream,
             obj_pairs,
@@ -672,13 +684,18 @@ fn parse_unary_op(
             &mut included,
             line,
             col,
-            depth + 1,
+            depth,
             cur_brace,
             false,
         )?,
         None => return parse_err(stream.file(), UnexpectedEnd(line)),
     };
-    unary_op_on_value(stream, res, op, line, col)
+
+    // Apply the signs, starting from the one closest to the value.
+    for op in ops.into_iter().rev() {
+        res = unary_op_on_value(stream, res, op, line, col)?;
+    }
+    Ok(res)
 }
 
 // Gets the next numeric (either Int or Frac) in the character stream.
-- 
2.43.0


From 10f0069559cb7b01a6b59737c9535d29a3b1751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 02/19] fix: limit the recursion of chained Arr and Tup indices

An index can itself be an indexed variable ('a: [0] b: a.a.a.a.0'), which
recursed without the depth check that containers have: a long enough chain
overflowed the stack and aborted the process.
---
 src/parse/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index e408c85..b632667 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -878,6 +878,12 @@ fn parse_variable(
         value = match value {
             Value::Arr(arr) => {
                 let (line, col) = (stream.line(), stream.col());
+
+                // Check depth, as the index can itself be a variable with an index and so on.
+                if depth > MAX_DEPTH {
+                    return parse_err(stream.file(), MaxDepth(line, col));
+                }
+
                 let value = parse_value(
                     &mut stream,
                     obj_pairs,
@@ -907,6 +913,12 @@ fn parse_variable(
             }
             Value::Tup(tup) => {
                 let (line, col) = (stream.line(), stream.col());
+
+                // Check depth, as the index can itself be a variable with an index and so on.
+                if depth > MAX_DEPTH {
+                    return parse_err(stream.file(), MaxDepth(line, col));
+                }
+
                 let value = parse_value(
                     &mut stream,
                     obj_pairs,
-- 
2.43.0


From 41b08134e00c076431bb53a3a7ac82899c0289b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 03/19] fix: count the nesting depth across included files

Every included file started again at depth 1, so a chain of files including
each other in turn was not limited and overflowed the stack, aborting the
process.
---
 src/parse/parser.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index b632667..ce0a287 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -40,25 +40,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -76,7 +84,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -229,7 +237,11 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -254,7 +266,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -372,7 +384,11 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -394,7 +410,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1166,10 +1182,10 @@ fn parse_include(
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use full path as included key.
         included.0.insert(full_path_str.into(), value.clone());
-- 
2.43.0


From 2f0d3b508a817c21d96ef43cbef28d4906ac435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 04/19] fix: limit the nesting of values built through
 references

Variables, globals, parents and repeated includes could nest values to any
depth. Values nested deeper than the maximum depth were written as text which
cannot be read back, and very deep ones overflowed the stack when compared,
written or dropped.
---
 src/arr.rs          | 10 ++++++++++
 src/obj.rs          | 18 +++++++++++++++++-
 src/parse/parser.rs | 10 +++++++++-
 src/tup.rs          |  9 +++++++++
 src/value.rs        | 18 ++++++++++++++++++
 5 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/arr.rs b/src/arr.rs
index fba32ce..d3af4cf 100644
--- a/src/arr.rs
+++ b/src/arr.rs
@@ -12,6 +12,8 @@ struct ArrInner {
     values: Vec<Value>,
     // Type of each contained value.
     inner_t: Type,
+    // Number of levels of containers, including this one.
+    nesting: usize,
     // Unique ID.
     id: usize,
 }
@@ -63,10 +65,13 @@ impl Arr {
     /// It is much faster than the safe version, [`from_values`], if you know every element in `vec`
     /// is of type `inner_t`.
     pub fn from_values_unchecked(values: Vec<Value>, inner_t: Type) -> Self {
+        let nesting = Value::container_nesting(values.iter());
+
         Self {
             inner: Arc::new(ArrInner {
                 values,
                 inner_t,
+                nesting,
                 id: crate::gen_id(),
             }),
         }
@@ -102,6 +107,11 @@ impl Arr {
         self.inner.inner_t.clone()
     }
 
+    // Returns the number of levels of containers in this `Arr`.
+    pub(crate) fn nesting(&self) -> usize {
+        self.inner.nesting
+    }
+
     /// Returns the length of this `Arr`.
     pub fn len(&self) -> usize {
         self.inner.values.len()
diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..b566a99 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -23,6 +23,8 @@ struct ObjInner {
     pairs: Vec<Pair>,
     // Optional parent.
     parent: Option<Obj>,
+    // Number of levels of containers, including this one and the ones in parents.
+    nesting: usize,
     // Unique ID.
     id: usize,
 }
@@ -132,11 +134,25 @@ impl Obj {
     pub fn from_pairs_unchecked(pairs: Vec<Pair>, parent: Option<Self>) -> Self {
         let id = crate::gen_id();
 
+        let parent_nesting = parent.as_ref().map_or(0, Self::nesting);
+        let nesting = Value::container_nesting(pairs.iter().map(|Pair(_, value)| value))
+            .max(1 + parent_nesting);
+
         Self {
-            inner: Arc::new(ObjInner { pairs, parent, id }),
+            inner: Arc::new(ObjInner {
+                pairs,
+                parent,
+                nesting,
+                id,
+            }),
         }
     }
 
+    // Returns the number of levels of containers in this `Obj`.
+    pub(crate) fn nesting(&self) -> usize {
+        self.inner.nesting
+    }
+
     /// Returns a reference to the inner vec of this `Obj`.
     pub fn pairs_ref(&self) -> &Vec<Pair> {
         &self.inner.pairs
diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index ce0a287..522e9f5 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -600,6 +600,13 @@ fn parse_value(
         }
     };
 
+    // References to other values can nest more levels than there are brackets here. The operand of
+    // an include is not part of the resulting value.
+    let nesting = res.nesting();
+    if nesting > 0 && depth + nesting > MAX_DEPTH && cur_brace != Some('>') {
+        return parse_err(stream.file(), MaxDepth(line, col));
+    }
+
     // Process operations if this is the first value.
     if is_first {
         let mut val_deque: VecDeque<(Value, usize, usize)> = VecDeque::new();
@@ -976,7 +983,8 @@ fn parse_variable(
                     included,
                     line,
                     col,
-                    depth + 1,
+                    // Each field is nested less deep than its Obj, so this recursion is limited.
+                    depth,
                     cur_brace,
                 )?
             }
diff --git a/src/tup.rs b/src/tup.rs
index eacb2f1..c54b862 100644
--- a/src/tup.rs
+++ b/src/tup.rs
@@ -12,6 +12,8 @@ struct TupInner {
     values: Vec<Value>,
     // List of types for each contained value.
     inner_tvec: Vec<Type>,
+    // Number of levels of containers, including this one.
+    nesting: usize,
     // Unique ID.
     id: usize,
 }
@@ -31,11 +33,13 @@ impl Tup {
     /// Returns a new `Tup` from the given vector of `Value`s.
     pub fn from_values(values: Vec<Value>) -> Self {
         let inner_tvec: Vec<Type> = values.iter().map(|val| val.get_type()).collect();
+        let nesting = Value::container_nesting(values.iter());
 
         Self {
             inner: Arc::new(TupInner {
                 values,
                 inner_tvec,
+                nesting,
                 id: crate::gen_id(),
             }),
         }
@@ -71,6 +75,11 @@ impl Tup {
         self.inner.inner_tvec.clone()
     }
 
+    // Returns the number of levels of containers in this `Tup`.
+    pub(crate) fn nesting(&self) -> usize {
+        self.inner.nesting
+    }
+
     /// Returns the length of this `Tup`.
     pub fn len(&self) -> usize {
         self.inner.values.len()
diff --git a/src/value.rs b/src/value.rs
index d6771ba..0788130 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -104,6 +104,24 @@ impl Value {
         }
     }
 
+    // Returns how many levels of containers this `Value` has (0 if it is not a container).
+    pub(crate) fn nesting(&self) -> usize {
+        match *self {
+            Self::Arr(ref arr) => arr.nesting(),
+            Self::Tup(ref tup) => tup.nesting(),
+            Self::Obj(ref obj) => obj.nesting(),
+            _ => 0,
+        }
+    }
+
+    // Returns the nesting of a container with the given values.
+    pub(crate) fn container_nesting<'a, I>(values: I) -> usize
+    where
+        I: Iterator<Item = &'a Self>,
+    {
+        1 + values.map(Self::nesting).max().unwrap_or(0)
+    }
+
     /// Returns the `BigRational` contained in this `Value`.
     /// Returns an error if this `Value` is not `Frac`.
     pub fn get_frac(&self) -> OverResult<BigRational> {
-- 
2.43.0


From a2292ca128933f5012ca4ab933b880c9989aec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 05/19] fix: do not confuse includes of the same file as
 different types

Included values were remembered by path only, so that after '<Str "f">' an
'<Obj "f">' yielded the remembered Str (and likewise for other types).
---
 src/parse/parser.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 522e9f5..76c0ab2 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,15 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+type IncludedMap = (HashMap<(String, IncludeType), Value>, HashSet<String>);
+
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -1048,13 +1056,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1185,8 +1186,9 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file can be included as different types, which are different values.
+    let included_key = (String::from(full_path_str), include_type);
+    let value = if let Some(value) = included.0.get(&included_key) {
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1196,7 +1198,7 @@ fn parse_include(
             IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        included.0.insert(included_key, value.clone());
         value
     };
 
-- 
2.43.0


From 2ab1f19a2f53261570b1785c39ff21c52d268d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 06/19] fix: find inherited fields with dot notation

'foo.a' was rejected if 'a' was a field of a parent of 'foo', although foo has
this field (see 'foo.a == 1' in the README, and Obj::get).
---
 src/parse/parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 76c0ab2..d8444c2 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -986,7 +986,7 @@ fn parse_variable(
 
                 parse_variable(
                     &mut stream,
-                    obj.pairs_ref(),
+                    &all_fields(&obj),
                     globals,
                     included,
                     line,
@@ -1003,6 +1003,20 @@ fn parse_variable(
     Ok(value)
 }
 
+// Returns all fields of an `Obj`, including the inherited ones. The fields of an `Obj` precede those
+// of its parent, so that the first one with a given name is the one that counts.
+fn all_fields(obj: &Obj) -> Pairs {
+    let mut pairs = obj.pairs_ref().clone();
+    let mut parent = obj.get_parent();
+
+    while let Some(obj) = parent {
+        pairs.extend_from_slice(obj.pairs_ref());
+        parent = obj.get_parent();
+    }
+
+    pairs
+}
+
 fn parse_str_file(path: &str) -> ParseResult<String> {
     let s = read_file_str(path)?;
 
-- 
2.43.0


From a7beb086ecf8f6bfdab930eb3930b6eb82d5a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 07/19] fix: reject keywords as field names in dot notation

'obj.null' and 'obj.true' were read as null and true, and 'obj.Str' as an empty
Obj, although the Obj has no such field.
---
 src/parse/parser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index d8444c2..3e9f16e 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -602,6 +602,7 @@ fn parse_value(
             col,
             depth,
             cur_brace,
+            false,
         )?,
         ch => {
             return parse_err(stream.file(), InvalidValueChar(ch, line, col));
@@ -815,7 +816,8 @@ fn parse_numeric(stream: &mut CharStream, line: usize, col: usize) -> ParseResul
     }
 }
 
-// Parses a variable name and gets a value from the corresponding variable.
+// Parses a variable name and gets a value from the corresponding variable. If `is_field`, then
+// `obj_pairs` are the fields of an `Obj` to the left of a dot, and keywords have no special meaning.
 fn parse_variable(
     mut stream: &mut CharStream,
     obj_pairs: &[Pair],
@@ -825,6 +827,7 @@ fn parse_variable(
     col: usize,
     depth: usize,
     cur_brace: Option<char>,
+    is_field: bool,
 ) -> ParseResult<Value> {
     let mut var = String::new();
     let mut is_global = false;
@@ -872,15 +875,15 @@ fn parse_variable(
     }
 
     let mut value = match var.as_str() {
-        "null" => Value::Null,
-        "true" => Value::Bool(true),
-        "false" => Value::Bool(false),
+        "null" if !is_field => Value::Null,
+        "true" if !is_field => Value::Bool(true),
+        "false" if !is_field => Value::Bool(false),
 
         // If we're being called by `parse_include`, signify that one of these keywords was found.
-        "Obj" => Value::Obj(OBJ_SENTINEL.clone()),
-        "Str" => Value::Obj(STR_SENTINEL.clone()),
-        "Arr" => Value::Obj(ARR_SENTINEL.clone()),
-        "Tup" => Value::Obj(TUP_SENTINEL.clone()),
+        "Obj" if !is_field => Value::Obj(OBJ_SENTINEL.clone()),
+        "Str" if !is_field => Value::Obj(STR_SENTINEL.clone()),
+        "Arr" if !is_field => Value::Obj(ARR_SENTINEL.clone()),
+        "Tup" if !is_field => Value::Obj(TUP_SENTINEL.clone()),
 
         var @ "@" => return parse_err(stream.file(), InvalidValue(var.into(), line, col)),
         var if is_global => {
@@ -994,6 +997,7 @@ fn parse_variable(
                     // Each field is nested less deep than its Obj, so this recursion is limited.
                     depth,
                     cur_brace,
+                    true,
                 )?
             }
             _ => return parse_err(stream.file(), InvalidDot(value.get_type(), line, col)),
-- 
2.43.0


From 3b086ce0c0b59783917152d1b44e0d1011f7bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 08/19] fix: do not accept empty field names and names starting
 with '^'

The documentation of is_valid_field and from_pairs says that a name starts with
an alphabetic character or '_'. Objs with the names accepted in addition were
written as text which is invalid or has another meaning.
---
 src/obj.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index b566a99..6e0f86a 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -282,7 +282,8 @@ impl Obj {
 
         for ch in field.chars() {
             if first {
-                if !Self::is_valid_field_char(ch, true) {
+                // '^' denotes the parent and is not part of any field name.
+                if ch == '^' || !Self::is_valid_field_char(ch, true) {
                     return false;
                 }
                 first = false;
@@ -291,7 +292,8 @@ impl Obj {
             }
         }
 
-        true
+        // There must be a first character.
+        !first
     }
 
     /// Returns true if the given char is valid for a field, depending on whether it is the first
-- 
2.43.0


From e1f90d2992e0b6bdc97d9f50f7dd109d4579e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 09/19] fix: reject globals with names starting with '^'

'@^: 1' was accepted although '^' is not part of any name, and no reference to
such a global is possible.
---
 src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 3e9f16e..3a83e55 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -535,7 +535,7 @@ fn parse_field(
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         "^" => Ok((field.clone(), FieldType::Parent)),
-        bad if bad.starts_with('^') => {
+        bad if bad.starts_with('^') || bad.starts_with("@^") => {
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         _ => Ok((
-- 
2.43.0


From b46e1a099abe5b01bad05e4573e09eddb4cef7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 10/19] fix: do not panic on includes in files without a
 canonical path

Loading a file which has no canonical path in UTF-8, such as a pipe opened as
/dev/stdin, panicked at the first include.
---
 src/parse/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 3a83e55..e3a4827 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1192,13 +1192,15 @@ fn parse_include(
     };
 
     // Prevent cyclic includes by temporarily storing the current file path.
-    let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+    // There is nothing to store if the current file (e.g. a pipe) has no valid path, in which case it
+    // can't be included either.
+    let storing = stream
+        .file()
+        .and_then(|file| Path::new(&file).canonicalize().ok())
+        .and_then(|path| path.to_str().map(String::from));
+    if let Some(ref full_file) = storing {
         included.1.insert(full_file.clone());
-        Some(full_file)
-    } else {
-        None
-    };
+    }
     if included.1.contains(full_path_str) {
         return parse_err(stream.file(), CyclicInclude(include_file, line, col));
     }
-- 
2.43.0


From c497ad5e4e9f21355f898f7d359afb9e11f8de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 11/19] fix: locate errors about include files which cannot be
 read

The error for an include file which is not readable or not UTF-8 named neither
a file nor a position.
---
 src/parse/parser.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index e3a4827..1fbbd83 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1211,12 +1211,25 @@ fn parse_include(
     let value = if let Some(value) = included.0.get(&included_key) {
         value.clone()
     } else {
-        let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
-            IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
+        let value: ParseResult<Value> = match include_type {
+            IncludeType::Obj => {
+                parse_obj_file_includes(path_str, included, depth).map(Value::from)
+            }
+            IncludeType::Str => parse_str_file(path_str).map(Value::from),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth).map(Value::from),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth).map(Value::from),
         };
+        // If the file could not be read, then the error is here and not in the file.
+        let value = value.map_err(|e| match e.kind {
+            IoError(ref error) if e.file.is_none() => ParseError {
+                file: stream.file(),
+                kind: IoError(format!(
+                    "Could not read include file \"{}\" at line {}, column {}: {}",
+                    include_file, line, col, error
+                )),
+            },
+            _ => e,
+        })?;
         // Use full path as included key.
         included.0.insert(included_key, value.clone());
         value
-- 
2.43.0


From f449ac4a6a34b707c5ee9d989e08540c9b025771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 12/19] Add a step limit for verification, behind --cfg
 over_verif

---
 src/lib.rs               |  4 ++++
 src/parse/char_stream.rs |  6 ++++++
 src/verif.rs             | 24 ++++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 70fa77d..c1623ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,7 @@
 //! OVER: the best data format.
 
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use]
 extern crate lazy_static;
@@ -23,6 +24,9 @@ pub mod value;
 
 mod parse;
 
+#[cfg(over_verif)]
+pub mod verif;
+
 #[cfg(test)]
 mod tests;
 
diff --git a/src/parse/char_stream.rs b/src/parse/char_stream.rs
index 88a2640..30eae9a 100644
--- a/src/parse/char_stream.rs
+++ b/src/parse/char_stream.rs
@@ -56,6 +56,9 @@ impl CharStream {
     }
 
     pub fn peek(&self) -> Option<char> {
+        #[cfg(over_verif)]
+        crate::verif::burn();
+
         let mut inner = self.inner.borrow_mut();
         let opt = inner.stream.peek();
 
@@ -95,6 +98,9 @@ impl Iterator for CharStream {
     type Item = char;
 
     fn next(&mut self) -> Option<Self::Item> {
+        #[cfg(over_verif)]
+        crate::verif::burn();
+
         let opt = {
             let mut inner = self.inner.borrow_mut();
             inner.stream.next()
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..4ca3e37
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,24 @@
+//! Hooks for verification. Only compiled with `--cfg over_verif`.
+
+use std::cell::Cell;
+
+thread_local! {
+    static FUEL: Cell<u64> = Cell::new(u64::max_value());
+}
+
+/// Limits the number of steps which parsers on this thread can take before they panic.
+pub fn set_fuel(steps: u64) {
+    FUEL.with(|fuel| fuel.set(steps));
+}
+
+/// Returns the number of steps left.
+pub fn fuel() -> u64 {
+    FUEL.with(Cell::get)
+}
+
+pub(crate) fn burn() {
+    FUEL.with(|fuel| match fuel.get() {
+        0 => panic!("verif: out of fuel"),
+        n => fuel.set(n - 1),
+    });
+}
-- 
2.43.0


From 34bf0f55d2af49bd8d784ea5df14e390b9f2b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 13/19] fix: reject a global variable that its own value
 already defines

@g: { @g: 1 } was accepted and the outer definition silently replaced the inner
one, although a global may be defined only once in a file.
---
 src/parse/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 1fbbd83..ec0c8a6 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -220,6 +220,13 @@ fn parse_field_value_pair(
     // Add value either to the globals map or to the current Obj.
     match field_type {
         FieldType::Global => {
+            // The value itself may have defined a global of this name.
+            if globals.contains_key(&field_name) {
+                return parse_err(
+                    stream.file(),
+                    DuplicateGlobal(field_name, field_line, field_col),
+                );
+            }
             let _ = globals.insert(field_name, value);
         }
         FieldType::Parent => {
-- 
2.43.0


From adf2b5f90980e070ff675147bb17d07b8e79da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 14/19] fix: let try_obj! be used in every expression position

The attribute in front of the block is not accepted by stable compilers where an
expression is expected (let, match, ?), and the trailing semicolon of the rule with
a trailing comma made the macro useless as the last expression of a block.
---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 55bc773..9d16299 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -94,14 +94,14 @@ macro_rules! obj {
 macro_rules! try_obj {
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),* };
+        try_obj!{ $( $field => $inner ),+ }
     };
     { $( $field:expr => $inner:expr ),+ } => {
-        #[allow(clippy::useless_let_if_seq)]
         {
             use $crate::obj::{Obj, Pair};
 
             let mut _pairs = vec![];
+            #[allow(clippy::useless_let_if_seq)]
             let mut _parent: Option<$crate::value::Value> = None;
 
             $(
-- 
2.43.0


From 3a15e16dfdf762cb81c6d49929eabbbed2fcbed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 15/19] fix: let tup! make an empty tuple

The rule accepts no elements, but could not be expanded without any.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9d16299..3f084f5 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -63,7 +63,7 @@ macro_rules! tup {
     };
     ( $( $elem:expr ),* ) => {
         {
-            $crate::tup::Tup::from_values(vec![ $( $elem.into() ),+ ])
+            $crate::tup::Tup::from_values(vec![ $( $elem.into() ),* ])
         }
     };
 }
-- 
2.43.0


From f489a9f27eef4123324e6fe82a4cc0806a9c3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 16/19] fix: let the macros be used by their path

obj!, arr! and the rules with a trailing comma need other macros of this crate,
which were only found if the user had imported them as well.
---
 src/macros.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 3f084f5..93f7729 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -31,10 +31,10 @@ macro_rules! arr {
     };
     [ $( $elem:expr ),+ , ] => {
         // Rule with trailing comma.
-        try_arr![ $( $elem ),+ ].unwrap()
+        $crate::try_arr![ $( $elem ),+ ].unwrap()
     };
     [ $( $elem:expr ),+ ] => {
-        try_arr![ $( $elem ),+ ].unwrap()
+        $crate::try_arr![ $( $elem ),+ ].unwrap()
     };
 }
 
@@ -45,7 +45,7 @@ macro_rules! arr {
 macro_rules! try_arr {
     [ $( $elem:expr ),+ , ] => {
         // Rule with trailing comma.
-        try_arr![ $( $elem ),+ ]
+        $crate::try_arr![ $( $elem ),+ ]
     };
     [ $( $elem:expr ),+ ] => {
         {
@@ -59,7 +59,7 @@ macro_rules! try_arr {
 #[macro_export]
 macro_rules! tup {
     ( $( $elem:expr ),* , ) => {
-        tup!( $( $elem ),* )
+        $crate::tup!( $( $elem ),* )
     };
     ( $( $elem:expr ),* ) => {
         {
@@ -80,10 +80,10 @@ macro_rules! obj {
     };
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),+ }.unwrap()
+        $crate::try_obj!{ $( $field => $inner ),+ }.unwrap()
     };
     { $( $field:expr => $inner:expr ),+ } => {
-        try_obj!{ $( $field => $inner ),+ }.unwrap()
+        $crate::try_obj!{ $( $field => $inner ),+ }.unwrap()
     };
 }
 
@@ -94,7 +94,7 @@ macro_rules! obj {
 macro_rules! try_obj {
     { $( $field:expr => $inner:expr ),+ , } => {
         // Rule with trailing comma.
-        try_obj!{ $( $field => $inner ),+ }
+        $crate::try_obj!{ $( $field => $inner ),+ }
     };
     { $( $field:expr => $inner:expr ),+ } => {
         {
-- 
2.43.0


From 3ebc2ded6a6bd4cb761c4c1559f28344dbf22afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:56 +0000
Subject: [PATCH 17/19] fix: report an error for a file too large to read
 instead of aborting

CharStream::from_file allocated as much memory as the file's metadata said,
and String::with_capacity aborts the process when it cannot.
---
 src/parse/char_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/char_stream.rs b/src/parse/char_stream.rs
index 30eae9a..ea21f0d 100644
--- a/src/parse/char_stream.rs
+++ b/src/parse/char_stream.rs
@@ -28,8 +28,8 @@ impl CharStream {
     pub fn from_file(path: &str) -> io::Result<CharStream> {
         let mut file = File::open(path)?;
 
-        let len = file.metadata()?.len();
-        let mut contents = String::with_capacity(len as usize);
+        // `read_to_string` reserves what the file needs, or returns an error if it cannot.
+        let mut contents = String::new();
 
         file.read_to_string(&mut contents)?;
 
-- 
2.43.0


From 4e22237bd96584f739ae1d1195ae7d9247d6fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:31 +0000
Subject: [PATCH 18/19] fix: keep the macros' imports out of the expressions
 given to them

---
 src/macros.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 93f7729..1b88b06 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -4,9 +4,7 @@
 #[macro_export]
 macro_rules! int {
     ($int:expr) => {{
-        use num_bigint::BigInt;
-
-        let _b: BigInt = $int.into();
+        let _b: num_bigint::BigInt = $int.into();
         _b
     }};
 }
@@ -98,8 +96,6 @@ macro_rules! try_obj {
     };
     { $( $field:expr => $inner:expr ),+ } => {
         {
-            use $crate::obj::{Obj, Pair};
-
             let mut _pairs = vec![];
             #[allow(clippy::useless_let_if_seq)]
             let mut _parent: Option<$crate::value::Value> = None;
@@ -108,16 +104,16 @@ macro_rules! try_obj {
                 if $field == "^" {
                     _parent = Some($inner.into());
                 } else {
-                    _pairs.push(Pair($field.into(), $inner.into()));
+                    _pairs.push($crate::obj::Pair($field.into(), $inner.into()));
                 }
             )*
 
             match _parent {
                 Some(parent) => match parent.get_obj() {
-                    Ok(parent) => Obj::from_pairs(_pairs, Some(parent)),
+                    Ok(parent) => $crate::obj::Obj::from_pairs(_pairs, Some(parent)),
                     e @ Err(_) => e,
                 }
-                None => Obj::from_pairs(_pairs, None),
+                None => $crate::obj::Obj::from_pairs(_pairs, None),
             }
         }
     };
-- 
2.43.0


From c6864fdc98dfb3a5b4605e344a3258c5b25cd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:12 +0000
Subject: [PATCH 19/19] fix: evaluate the name expressions of obj! and try_obj!
 once

---
 src/macros.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 1b88b06..3b12e8f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -101,10 +101,11 @@ macro_rules! try_obj {
             let mut _parent: Option<$crate::value::Value> = None;
 
             $(
-                if $field == "^" {
+                let _field: ::std::string::String = $field.into();
+                if _field == "^" {
                     _parent = Some($inner.into());
                 } else {
-                    _pairs.push($crate::obj::Pair($field.into(), $inner.into()));
+                    _pairs.push($crate::obj::Pair(_field, $inner.into()));
                 }
             )*
 
-- 
2.43.0

