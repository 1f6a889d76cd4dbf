From 3be70e91b5cefb28c4370c3c419828dbbe348cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 01/11] fix: check the depth limit in unary operator and dot
 chains

A chain of unary operators (a: ------...1) or of array/tuple dot indices
(a.a.a...) recursed without a depth check and overflowed the stack.
---
 src/parse/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..e1fddc7 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -656,6 +656,11 @@ fn parse_unary_op(
     cur_brace: Option<char>,
     op: UnaryOp,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let next = stream.next();
     assert!(
         (next == Some('-') && op == UnaryOp::Minus) || (next == Some('+') && op == UnaryOp::Plus)
@@ -778,6 +783,11 @@ fn parse_variable(
     depth: usize,
     cur_brace: Option<char>,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
+    }
+
     let mut var = String::new();
     let mut is_global = false;
     let mut dot = false;
-- 
2.43.0


From 905056a81a4ad051ee7ce365140296a4f6abcda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 02/11] fix: do not reuse a cached include for a different
 include type

Including the same file first as Str and then as Arr (or any other pair of
types) returned the value of the first include for both.
---
 src/parse/parser.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index e1fddc7..8df7920 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,16 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+type IncludedMap = (HashMap<(IncludeType, String), Value>, HashSet<String>);
+
+// The kind of value a file is included as.
+#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -1005,13 +1014,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1142,8 +1144,9 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file can be included as different types, so the type is part of the key.
+    let key = (include_type, String::from(full_path_str));
+    let value = if let Some(value) = included.0.get(&key) {
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1152,8 +1155,8 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        // Use include type and full path as included key.
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From 4a157b15089eba2a9e47b6055c7dc93c12b8d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/11] fix: reject empty and '^' field names in
 Obj::is_valid_field

They were accepted by Obj::from_pairs although they are documented as invalid,
and an Obj with such a field could not be read back after being written.
---
 src/obj.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..a2de48a 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -262,11 +262,16 @@ impl Obj {
     /// The first character must be alphabetic or '_'. Subsequent characters are allowed to be
     /// alphabetic, digits, or '_'.
     pub fn is_valid_field(field: &str) -> bool {
+        if field.is_empty() {
+            return false;
+        }
+
         let mut first = true;
 
         for ch in field.chars() {
             if first {
-                if !Self::is_valid_field_char(ch, true) {
+                // '^' is a valid char, but it only ever denotes the parent.
+                if ch == '^' || !Self::is_valid_field_char(ch, true) {
                     return false;
                 }
                 first = false;
-- 
2.43.0


From b251991ae4587ed713c956dc562540cd02ff76ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 04/11] fix: do not panic when the path of the including file
 is not valid unicode

---
 src/parse/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 8df7920..557b073 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1133,7 +1133,14 @@ fn parse_include(
 
     // Prevent cyclic includes by temporarily storing the current file path.
     let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+        let full_file = match Path::new(&file).canonicalize() {
+            Ok(file) => file.to_str().map(String::from),
+            Err(_) => None,
+        };
+        let full_file = match full_file {
+            Some(file) => file,
+            None => return parse_err(stream.file(), InvalidIncludePath(include_file, line, col)),
+        };
         included.1.insert(full_file.clone());
         Some(full_file)
     } else {
-- 
2.43.0


From fb923f04285f2a717ec5537fbdcf9fff99acaea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 05/11] fix: let dot notation access fields inherited from
 parents

As documented in the README, a field of an object can be accessed with dot
notation even if it is inherited.
---
 src/parse/parser.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 557b073..1338691 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -943,9 +943,20 @@ fn parse_variable(
                     return parse_err(stream.file(), InvalidValueChar('@', line, col));
                 }
 
+                // Fields inherited from parents can be accessed as well.
+                let inherited = if obj.has_parent() {
+                    Some(inherited_pairs(&obj))
+                } else {
+                    None
+                };
+                let pairs = match inherited {
+                    Some(ref pairs) => pairs,
+                    None => obj.pairs_ref(),
+                };
+
                 parse_variable(
                     &mut stream,
-                    obj.pairs_ref(),
+                    pairs,
                     globals,
                     included,
                     line,
@@ -961,6 +972,17 @@ fn parse_variable(
     Ok(value)
 }
 
+// Gets the pairs of `obj` followed by the pairs it inherits from its parents.
+fn inherited_pairs(obj: &Obj) -> Pairs {
+    let mut pairs = obj.pairs_ref().clone();
+
+    if let Some(parent) = obj.get_parent() {
+        pairs.append(&mut inherited_pairs(&parent));
+    }
+
+    pairs
+}
+
 fn parse_str_file(path: &str) -> ParseResult<String> {
     let s = read_file_str(path)?;
 
-- 
2.43.0


From 33a12b13db9b4897032a9eb1ba8702ed7a78d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 06/11] fix: count included files towards the maximum depth

Every included file was parsed starting again at depth 1, so a long enough chain
of files that include each other exhausted the stack instead of being rejected.
---
 src/parse/parser.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 1338691..0edb046 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -49,25 +49,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -85,7 +93,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -238,7 +246,11 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -263,7 +275,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -381,7 +393,11 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(
+    path: &str,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -403,7 +419,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1173,16 +1189,17 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
+    // An included file is nested one level deeper than the file that includes it.
     // The same file can be included as different types, so the type is part of the key.
     let key = (include_type, String::from(full_path_str));
     let value = if let Some(value) = included.0.get(&key) {
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use include type and full path as included key.
         included.0.insert(key, value.clone());
-- 
2.43.0


From 8d5e1c4e30990dca3f2876cfba223cdda6af7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 07/11] fix: report the position of a newline inside a field
 name or escape

The error gave column 0 of the next line, because the position was read after
going past the newline.
---
 src/parse/parser.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 0edb046..5996a46 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -513,17 +513,18 @@ fn parse_field(
         field.push(ch);
     }
 
-    while let Some(ch) = stream.next() {
+    while let Some(ch) = stream.peek() {
+        // Get the position of the character before going past it, which might start a new line.
+        let (ch_line, ch_col) = (stream.line(), stream.col());
+        let _ = stream.next();
+
         match ch {
             ':' if !first => {
                 break;
             }
             ch if Obj::is_valid_field_char(ch, first) => field.push(ch),
             ch => {
-                return parse_err(
-                    stream.file(),
-                    InvalidFieldChar(ch, stream.line(), stream.col() - 1),
-                );
+                return parse_err(stream.file(), InvalidFieldChar(ch, ch_line, ch_col));
             }
         }
 
@@ -1017,16 +1018,16 @@ fn parse_str(stream: &mut CharStream) -> ParseResult<Value> {
     let mut escape = false;
 
     loop {
+        // Get the position of the character before going past it, which might start a new line.
+        let (line, col) = (stream.line(), stream.col());
+
         match stream.next() {
             Some(ch) => {
                 if escape {
                     match get_escape_char(ch) {
                         Some(ch) => s.push(ch),
                         None => {
-                            return parse_err(
-                                stream.file(),
-                                InvalidEscapeChar(ch, stream.line(), stream.col() - 1),
-                            );
+                            return parse_err(stream.file(), InvalidEscapeChar(ch, line, col));
                         }
                     }
                     escape = false;
-- 
2.43.0


From 5d81f89d367d4ea240e172191840013f2d9ead78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 08/11] fix: reject '^' at the start of a global's name

---
 src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 5996a46..dc02d47 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -537,7 +537,7 @@ fn parse_field(
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         "^" => Ok((field.clone(), FieldType::Parent)),
-        bad if bad.starts_with('^') => {
+        bad if bad.starts_with('^') || bad.starts_with("@^") => {
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         _ => Ok((
-- 
2.43.0


From e8958452edbb90f2c3bc886768aed4647a4be414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 09/11] fix: a global that its own value defines is a duplicate

`@a: { @a: 1 }` defined the global twice without an error and replaced
its value; the duplicate check only looked before the value was parsed.
---
 src/parse/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index dc02d47..bae27fe 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -221,6 +221,13 @@ fn parse_field_value_pair(
     // Add value either to the globals map or to the current Obj.
     match field_type {
         FieldType::Global => {
+            // The value may itself have defined this global.
+            if globals.contains_key(&field_name) {
+                return parse_err(
+                    stream.file(),
+                    DuplicateGlobal(field_name, field_line, field_col),
+                );
+            }
             let _ = globals.insert(field_name, value);
         }
         FieldType::Parent => {
-- 
2.43.0


From 0f1edb219727ef8d4c822b44336317805ba41d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 10/11] fix: the include keywords outside an include are not
 values

A field could be set to one of the marker objects for Obj, Str, Arr and Tup
(a: Str), and passing it to an include worked like the keyword.
---
 src/parse/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index bae27fe..4462a32 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -825,6 +825,7 @@ fn parse_variable(
     let mut is_global = false;
     let mut dot = false;
     let mut dot_global = false;
+    let in_include = cur_brace == Some('>');
 
     let ch = stream.peek().unwrap();
     if ch == '@' {
@@ -872,10 +873,10 @@ fn parse_variable(
         "false" => Value::Bool(false),
 
         // If we're being called by `parse_include`, signify that one of these keywords was found.
-        "Obj" => Value::Obj(OBJ_SENTINEL.clone()),
-        "Str" => Value::Obj(STR_SENTINEL.clone()),
-        "Arr" => Value::Obj(ARR_SENTINEL.clone()),
-        "Tup" => Value::Obj(TUP_SENTINEL.clone()),
+        "Obj" if in_include => Value::Obj(OBJ_SENTINEL.clone()),
+        "Str" if in_include => Value::Obj(STR_SENTINEL.clone()),
+        "Arr" if in_include => Value::Obj(ARR_SENTINEL.clone()),
+        "Tup" if in_include => Value::Obj(TUP_SENTINEL.clone()),
 
         var @ "@" => return parse_err(stream.file(), InvalidValue(var.into(), line, col)),
         var if is_global => {
-- 
2.43.0


From 12804d1fbea42b54669ce4b94667cbd83382f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:30 +0000
Subject: [PATCH 11/11] fix: reserved words after a dot are missing fields

obj.null, obj.true and obj.false yielded the constant, and an include keyword
after a dot worked like the keyword.
---
 src/parse/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 4462a32..96d5211 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -611,6 +611,7 @@ fn parse_value(
             col,
             depth,
             cur_brace,
+            false,
         )?,
         ch => {
             return parse_err(stream.file(), InvalidValueChar(ch, line, col));
@@ -815,6 +816,7 @@ fn parse_variable(
     col: usize,
     depth: usize,
     cur_brace: Option<char>,
+    after_dot: bool,
 ) -> ParseResult<Value> {
     // Check depth.
     if depth > MAX_DEPTH {
@@ -825,7 +827,7 @@ fn parse_variable(
     let mut is_global = false;
     let mut dot = false;
     let mut dot_global = false;
-    let in_include = cur_brace == Some('>');
+    let in_include = cur_brace == Some('>') && !after_dot;
 
     let ch = stream.peek().unwrap();
     if ch == '@' {
@@ -868,9 +870,10 @@ fn parse_variable(
     }
 
     let mut value = match var.as_str() {
-        "null" => Value::Null,
-        "true" => Value::Bool(true),
-        "false" => Value::Bool(false),
+        // After a dot only field names are valid, and none of these words can be one.
+        "null" if !after_dot => Value::Null,
+        "true" if !after_dot => Value::Bool(true),
+        "false" if !after_dot => Value::Bool(false),
 
         // If we're being called by `parse_include`, signify that one of these keywords was found.
         "Obj" if in_include => Value::Obj(OBJ_SENTINEL.clone()),
@@ -988,6 +991,7 @@ fn parse_variable(
                     col,
                     depth + 1,
                     cur_brace,
+                    true,
                 )?
             }
             _ => return parse_err(stream.file(), InvalidDot(value.get_type(), line, col)),
-- 
2.43.0

