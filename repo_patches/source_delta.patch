From 19e155cb5bc72bd1e03edd42455bca9a11c86828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:45 +0000
Subject: [PATCH 01/27] fix: markdown parser dropped the first line of every
 further description paragraph

FMT_MD_DESC: all paragraphs following the start of a requirement add to
its description. The line that starts the second, third, ... paragraph
was only used to decide whether it is an attribute and then thrown away.
---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..c5aa85d 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -164,11 +164,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From 067980da5b8e650dfdc1d62a5a2e97e40bc5def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 02/27] fix: markdown parser recognizes every blank line,
 panicked on 1-byte last line

A last line of one byte without newline hit an assertion. Blank lines
with windows line endings or trailing blanks were taken as text, so the
attribute paragraph behind them (Covers, Depends) was silently added to
the description, or reported as a format error.
---
 src/parsers/markdown.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index c5aa85d..210e090 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,10 +90,9 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
+            Ok(_) if line.trim().is_empty() => {
                 evt = Event::Empty;
-            } /* TODO: Win line Endings */
+            }
             Ok(_) => {
                 if let Some(r) = REQUIREMENT_LINE.captures(&line) {
                     req_line = r;
-- 
2.43.0


From 88f9640b17250936f75ff4072804fb88cb1ccf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:53 +0000
Subject: [PATCH 03/27] fix: markdown parser lost the last requirement if a
 plain heading follows it

A heading ends the requirement (FMT_MD_DESC), but it was only added to
the result when another requirement started or the file ended directly
behind it. With a plain heading between the last requirement and the end
of the file, that requirement vanished without any error.
---
 src/parsers/markdown.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 210e090..a51d997 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -254,26 +254,24 @@ fn parse_state_eof(state: State, context: &mut Context<'_>) -> State {
 
 fn parse_state_heading(state: State, context: &mut Context<'_>) -> State {
     match state {
-        State::LookForReq => state,
-        State::LookForDesc => State::LookForReq,
+        State::LookForReq => return state,
+        State::LookForDesc => {}
         State::CollectDesc(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
         State::CollectDescNl(desc) => {
             commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
-            State::LookForReq
         }
-        State::LookForAttr => State::LookForReq,
+        State::LookForAttr => {}
         State::CollectTextAttr(attr, val) => {
             commit_attr(context, attr, val);
-            State::LookForReq
         }
         State::CollectRefLink(attr, vec) => {
             commit_link_attr(context, attr, vec);
-            State::LookForReq
         }
     }
+    maybe_commit_req(context);
+    State::LookForReq
 }
 
 fn parse_state_req(state: State, context: &mut Context<'_>, req_line: &Captures<'_>) -> State {
-- 
2.43.0


From 1001efc04ce7935410a96842c823615625386883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:55 +0000
Subject: [PATCH 04/27] fix: markdown parser joined the first two lines of a
 text attribute

`Comment: one` followed by a line `two` became the value `onetwo`.
---
 src/parsers/markdown.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index a51d997..cc2b8d7 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -395,7 +395,11 @@ fn start_attribute(context: &mut Context<'_>, attr_line: &Captures<'_>) -> State
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
             }
-            State::CollectTextAttr(attr.to_owned(), first_line.to_owned())
+            let mut val = first_line.to_owned();
+            if !val.is_empty() {
+                val.push('\n');
+            }
+            State::CollectTextAttr(attr.to_owned(), val)
         }
     }
 }
-- 
2.43.0


From 25f48a8f2583ca23af101641233bc83bfd5e0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 05/27] fix: only bullet points are references in markdown
 Covers and Depends lists

`^*` repeats the anchor instead of matching a bullet, so the last word of
any line behind a list was taken as reference: `*   REQ_A, REQ_B` covered
only REQ_B and a line `Depends: REQ_B` behind `Covers: REQ_A` covered
REQ_B, both without an error. Such lines are format errors now.
---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index cc2b8d7..087dc4c 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -18,7 +18,7 @@ lazy_static! {
         Regex::new(r"^(#+)\s*(\p{XID_Start}\p{XID_Continue}+):\s*(.+?)\s*$").unwrap();
     static ref ATTRIBUTE_LINE: Regex = Regex::new(r"^([A-Z][a-z]+):\s*(.*)\s*$").unwrap();
     static ref REF_LINK_LINE: Regex =
-        Regex::new(r"^*\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
+        Regex::new(r"^\s*[*+-]\s+(\p{XID_Start}\p{XID_Continue}+)(?::\s*(.+?))?\s*$").unwrap();
     static ref BAD_HEADLINE_UNDERLINE: Regex = Regex::new(r"^(====*)|(----*)").unwrap(); // TODO: use
 }
 
-- 
2.43.0


From e8db6ed090037f7e71a0c53ca2d59e4bb759b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:11 +0000
Subject: [PATCH 06/27] fix: sub headings belong to the description of a
 markdown requirement

FMT_MD_DESC, FMT_MD_DESC_HEADINGS: only a heading of the same level or
less ends the requirement, deeper ones are added to the description with
their level adjusted. They ended the requirement, so that the rest of
the description and all attributes (Covers, Depends) behind it were
silently ignored, as in the example in FORMATS.md.
---
 src/parsers/markdown.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 087dc4c..71e7539 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -46,7 +46,7 @@ impl<'a> Context<'a> {
 enum Event<'a> {
     Eof,
     Req(&'a Captures<'a>),
-    Heading,
+    Heading(&'a str),
     Line(&'a str),
     Empty,
 }
@@ -98,7 +98,7 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
                     req_line = r;
                     evt = Event::Req(&req_line);
                 } else if HEADING_LINE.is_match(&line) {
-                    evt = Event::Heading;
+                    evt = Event::Heading(&line);
                 } else {
                     evt = Event::Line(&line);
                 }
@@ -118,7 +118,7 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
 fn parse_states(state: State, context: &mut Context<'_>, evt: &Event<'_>) -> State {
     match evt {
         Event::Req(req_line) => parse_state_req(state, context, req_line),
-        Event::Heading => parse_state_heading(state, context),
+        Event::Heading(line) => parse_state_heading(state, line, context),
         Event::Eof => parse_state_eof(state, context),
         Event::Line(line) => parse_state_line(state, line, context),
         Event::Empty => parse_state_empty(state, context),
@@ -252,7 +252,22 @@ fn parse_state_eof(state: State, context: &mut Context<'_>) -> State {
     State::LookForReq
 }
 
-fn parse_state_heading(state: State, context: &mut Context<'_>) -> State {
+fn parse_state_heading(state: State, line: &str, context: &mut Context<'_>) -> State {
+    let sub_heading = match line.strip_prefix(&"#".repeat(context.level)) {
+        Some(rest) if rest.starts_with('#') => Some(rest),
+        _ => None,
+    };
+    match (state, sub_heading) {
+        (State::LookForDesc, Some(heading)) => State::CollectDescNl(heading.to_owned()),
+        (State::CollectDesc(mut desc) | State::CollectDescNl(mut desc), Some(heading)) => {
+            desc.push_str(heading);
+            State::CollectDescNl(desc)
+        }
+        (state, _) => end_req(state, context),
+    }
+}
+
+fn end_req(state: State, context: &mut Context<'_>) -> State {
     match state {
         State::LookForReq => return state,
         State::LookForDesc => {}
-- 
2.43.0


From 0241376aacf53c10b8fc424c6ff15f2a50cd2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:02 +0000
Subject: [PATCH 07/27] fix: markdown parser gave up the rest of the file at an
 encoding error

FMT_FILE_ENCODINGS: encoding errors are replaced. One byte that is not
UTF-8 made the parser drop the current and all following requirements.
---
 src/parsers/markdown.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 71e7539..27a904d 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -72,15 +72,17 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
         level: 0,
     };
 
-    let mut line = String::new();
+    let mut bytes = Vec::new();
     let mut state = State::LookForReq;
     loop {
         let evt: Event<'_>;
         let req_line;
 
-        line.clear();
+        bytes.clear();
         context.line_number += 1;
-        match reader.read_line(&mut line) {
+        let read_result = reader.read_until(b'\n', &mut bytes);
+        let line = String::from_utf8_lossy(&bytes);
+        match read_result {
             Err(e) => {
                 let err = Error::Io(context.path.to_owned(), e.to_string());
                 log::info!("found problem {:#?}", &err);
-- 
2.43.0


From c23e48eb1a349e94dd275673bdbc5b0c075a0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:05 +0000
Subject: [PATCH 08/27] fix: MonoRequirement parser panicked on encoding and
 read errors

Encoding errors are replaced (FMT_FILE_ENCODINGS), read errors are
reported like in the other parsers (REQ_LATE_ERROR).
---
 src/parsers/monoreq.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..65a1bc7 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -23,12 +23,14 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
 
     requirement_covered!(FMT_IMPORT_MONO_REQ, "Single Requirement Per File");
 
-    for (no, line) in reader.lines().enumerate() {
+    for (no, line) in reader.split(b'\n').enumerate() {
         match line {
             Ok(line) => {
+                let line = String::from_utf8_lossy(&line);
+                let line = line.strip_suffix('\r').unwrap_or(&line);
                 if title.is_none() {
-                    title = Some(line);
-                } else if let Some(ref_link) = REF_LINK_LINE.captures(&line) {
+                    title = Some(line.to_owned());
+                } else if let Some(ref_link) = REF_LINK_LINE.captures(line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
                     let location = Location::new_with_line_no(path.to_path_buf(), no + 1);
@@ -42,7 +44,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(err) => {
+                let err = Error::io(path, &err);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From cd6386e28280e3d6e695df61b39ff37541f36a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 09/27] fix: title of a MonoRequirement is the first line with
 word characters

FMT_IMPORT_MONO_REQ: leading lines without word characters are skipped
and non-word characters (heading marks, comment signs) are trimmed. A
README that starts with an empty line had an empty title.
---
 src/parsers/monoreq.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index 65a1bc7..851ff1d 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -29,7 +29,10 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 let line = String::from_utf8_lossy(&line);
                 let line = line.strip_suffix('\r').unwrap_or(&line);
                 if title.is_none() {
-                    title = Some(line.to_owned());
+                    let line = line.trim_matches(|c: char| !c.is_alphanumeric() && c != '_');
+                    if !line.is_empty() {
+                        title = Some(line.to_owned());
+                    }
                 } else if let Some(ref_link) = REF_LINK_LINE.captures(line) {
                     let id = ref_link[1].into();
                     let referenced_title = ref_link.get(2).map(|m| m.as_str().to_owned());
-- 
2.43.0


From 21682314568adb8bff1bed41a7222a4fa8e4eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:37 +0000
Subject: [PATCH 10/27] fix: rust parser panicked on requirement_covered!()
 outside of named items

For example in the initializer of a static at file level.
---
 src/parsers/rust.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..0b87a30 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -77,6 +77,16 @@ impl Parser<'_> {
         let tokens: Vec<_> = node.mac.tokens.clone().into_iter().collect();
         let macro_location = location_from_span(self.path, &seg[0].ident.span());
 
+        let Some(item_location) = self.locations.last().cloned() else {
+            let err = Error::Format(
+                macro_location,
+                "requirement_covered!() is not inside of a named item".to_owned(),
+            );
+            log::info!("found problem {:#?}", &err);
+            self.errors.push(err);
+            return true;
+        };
+
         if let Some((referenced_id, title)) = match tokens.len() {
             0 => {
                 // requirement_covered!()
@@ -168,7 +178,7 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location: item_location,
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From fdde89c8bd752eda3e2369280cd7f63bf7ff71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:40 +0000
Subject: [PATCH 11/27] fix: rust parser lost marks behind a nested item

A requirement_covered!() behind a nested function that has a mark itself
started a second requirement for the outer function. That was reported
as duplicate and its references were dropped.
---
 src/parsers/rust.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 0b87a30..f429f69 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -170,11 +170,11 @@ impl Parser<'_> {
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match self.requirements.iter_mut().rev().find(|r| r.id == id) {
+                Some(req) => {
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
-                _ => {
+                None => {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-- 
2.43.0


From 09670dca29b564488c0c9d6173684fd77cf4d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:43 +0000
Subject: [PATCH 12/27] fix: rust parser mangled titles that contain quotes or
 backslashes

The title of a mark was the source text of the literal without any quote
characters, so a title with an escaped quote or backslash never matched.
---
 src/parsers/rust.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index f429f69..89eb04c 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -103,10 +103,8 @@ impl Parser<'_> {
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
-                        // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
+                    // requirement_covered!("REQU_ID")
+                    if let Some(id) = string_literal(&tokens[0]) {
                         Some((id, None))
                     } else {
                         let err = Error::Format(
@@ -124,9 +122,7 @@ impl Parser<'_> {
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
+                    if let Some(title) = string_literal(&tokens[2]) {
                         Some((id.to_string(), Some(title)))
                     } else {
                         // requirement_covered!(IDENT,17)
@@ -269,6 +265,12 @@ impl<'ast> Visit<'ast> for Parser<'ast> {
     }
 }
 
+/// value of a string literal
+fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
+    let literal: syn::LitStr = syn::parse2(token.clone().into()).ok()?;
+    Some(literal.value())
+}
+
 fn location_from_span(path: &Path, span: &Span) -> Location {
     let start = span.start();
     Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)
-- 
2.43.0


From fa6aa316e4fec8ac8f9d2ec92657c4969b2064c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:35 +0000
Subject: [PATCH 13/27] fix: report artefacts that are unknown or defined twice
 as configuration error

A relation with an unknown artefact hit a todo!() and the process ended
with code 101 instead of 2 (DSG_CLI_RETURN_CODE). Of two artefacts with
the same id, the first was dropped with all its requirements and errors.
---
 src/controller.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..8d23816 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -183,6 +183,7 @@ pub struct Controller {
     traced_graph: TracedGraph,
     jobs: BTreeMap<String, Job>,
     default_jobs: Vec<String>,
+    config_errors: Vec<String>,
 }
 
 impl Controller {
@@ -194,24 +195,24 @@ impl Controller {
         let mut is_root: BTreeMap<&ArtefactId, bool> =
             config.artefacts.iter().map(|ac| (&ac.id, true)).collect();
 
+        let mut config_errors = Vec::new();
         for rel in &relations {
-            if is_root.get(&rel.upper).is_none() {
-                let err = Error::Config(format!(
+            if !is_root.contains_key(&rel.upper) {
+                config_errors.push(format!(
                     "Relation.upper references unknown artefact {}",
                     &rel.upper
                 ));
-                todo!("log error {err}");
             }
 
             for lower in &rel.lower {
-                if is_root.get(&lower).is_none() {
-                    let err = Error::Config(format!(
+                if let Some(root) = is_root.get_mut(lower) {
+                    *root = false;
+                } else {
+                    config_errors.push(format!(
                         "Relation.lower references unknown artefact {}",
                         &lower
                     ));
-                    todo!("log error {err}");
                 }
-                *is_root.get_mut(&lower).unwrap() = false;
             }
         }
         for ac in &config.artefacts {
@@ -238,9 +239,19 @@ impl Controller {
                 reference_with_title,
             };
             let a = Rc::new(a);
-            artefacts.insert(ac.id.clone(), a);
+            if artefacts.insert(ac.id.clone(), a).is_some() {
+                config_errors.push(Error::DuplicateArtefact(ac.id.to_string()).to_string());
+            }
         }
 
+        let relations = relations
+            .into_iter()
+            .filter(|rel| {
+                artefacts.contains_key(&rel.upper)
+                    && rel.lower.iter().all(|lower| artefacts.contains_key(lower))
+            })
+            .collect();
+
         let graph = Graph {
             artefacts,
             relations,
@@ -255,6 +266,7 @@ impl Controller {
             traced_graph,
             jobs: config.jobs.unwrap_or_default(),
             default_jobs: config.default_jobs.unwrap_or_default(),
+            config_errors,
         }
     }
 
@@ -292,6 +304,12 @@ impl Controller {
         jobs: &[&Job],
         job_names: &[String],
     ) -> Result<JobSuccess, ControllerError> {
+        if !self.config_errors.is_empty() {
+            let err = ControllerError::Config(self.config_errors.join(", "));
+            log::info!("found problem {:#?}", &err);
+            return Err(err);
+        }
+
         let start = Instant::now();
         let mut success = JobSuccess::Success;
         for (job, job_name) in jobs.iter().zip(job_names.iter()) {
-- 
2.43.0


From 635ace3bc53c6966ededae1197e40d0cec0f0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:37 +0000
Subject: [PATCH 14/27] fix: a format that the query does not support is an
 error, not a panic

The process ended with code 101 instead of 2 (DSG_CLI_RETURN_CODE).
---
 src/formatters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..04920a0 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -34,7 +34,7 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported(format, "Parse")),
     }
 }
 
@@ -52,6 +52,13 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        _ => Err(unsupported(format, "Trace")),
     }
 }
+
+fn unsupported(format: &Format, query: &str) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("format {format:?} is not supported for query {query}"),
+    )
+}
-- 
2.43.0


From bbc9a6e728078622b3847e6c35e7647d86a8363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:01 +0000
Subject: [PATCH 15/27] fix: files are found below a base directory with glob
 characters

With a base directory like `work[1]`, no file of a Rust artefact was
found and nothing was reported.
---
 src/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 8d23816..be66263 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -39,7 +39,8 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
-            glob::glob(&format!("{}/{}", base_dir.display(), path))
+            let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
+            glob::glob(&format!("{base_dir}/{path}"))
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From 74c3735e5b04a0a46cba06413629f2d3e4653427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:04 +0000
Subject: [PATCH 16/27] fix: report missing files of Rust artefacts, continue
 after bad path patterns

A path that does not exist was silently ignored (DSG_CLI_RETURN_CODE:
file not found is an error). An invalid pattern or a directory that can
not be read dropped all other files of the artefact (REQ_LATE_ERROR).
---
 src/controller.rs | 73 +++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index be66263..f83d99f 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,8 +34,9 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
@@ -44,14 +45,27 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
+        let glob = match glob {
+            Ok(glob) => glob,
+            Err(err) => {
+                errors.push(Error::Io(PathBuf::from(path), err.to_string()));
+                continue;
+            }
+        };
+        let mut found = false;
         for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+            found = true;
+            match entry {
+                Ok(entry) => result.push(entry),
+                Err(err) => errors.push(Error::Io(err.path().into(), err.to_string())),
+            }
+        }
+        if !found && !path.contains(['*', '?', '[']) {
+            errors.push(Error::Io(base_dir.join(path), "file not found".to_owned()));
         }
     }
 
-    Ok(result)
+    (result, errors)
 }
 
 fn parse_single_file(
@@ -108,38 +122,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From cf41ba50643d753594fbaef6ea04f5621e45af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:32 +0000
Subject: [PATCH 17/27] fix: a file that matches several paths of an artefact
 is parsed only once

All its requirements were reported as duplicates of themselves.
---
 src/controller.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index f83d99f..54ff648 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -1,5 +1,6 @@
 use std::collections::btree_map;
 use std::collections::BTreeMap;
+use std::collections::HashSet;
 use std::fs;
 use std::io;
 use std::path::Path;
@@ -36,6 +37,7 @@ pub enum JobSuccess {
 
 fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut seen = HashSet::new();
     let mut errors = Vec::new();
 
     for path in paths {
@@ -56,7 +58,11 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
         for entry in glob {
             found = true;
             match entry {
-                Ok(entry) => result.push(entry),
+                Ok(entry) => {
+                    if seen.insert(entry.clone()) {
+                        result.push(entry);
+                    }
+                }
                 Err(err) => errors.push(Error::Io(err.path().into(), err.to_string())),
             }
         }
-- 
2.43.0


From 3545825465b58d7047b6ea3c4f6a9b0391ab6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:35 +0000
Subject: [PATCH 18/27] fix: Json artefacts accept the documented object with
 version and requirements

FMT_IMPORT_JSON, and what the Json format of a Parse job writes: an
object with the keys version and requirements. Only a bare list of
requirements was accepted, so that the own export could not be imported.
---
 src/controller.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 54ff648..aa6d980 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -74,6 +74,27 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
     (result, errors)
 }
 
+const JSON_VERSION: u32 = 0; // currently unstable
+
+#[derive(serde::Deserialize)]
+struct JsonFile {
+    version: u32,
+    requirements: Vec<Rc<Requirement>>,
+}
+
+/// Parse a versioned object as written by the Json format, or a plain list of requirements
+fn parse_json(reader: impl io::Read) -> Result<Vec<Rc<Requirement>>, String> {
+    let text = io::read_to_string(reader).map_err(|e| e.to_string())?;
+    if !text.trim_start().starts_with('{') {
+        return serde_json::from_str(&text).map_err(|e| e.to_string());
+    }
+    let file: JsonFile = serde_json::from_str(&text).map_err(|e| e.to_string())?;
+    if file.version > JSON_VERSION {
+        return Err(format!("unknown version {}", file.version));
+    }
+    Ok(file.requirements)
+}
+
 fn parse_single_file(
     config: &ArtefactConfig,
     base_dir: &Path,
@@ -101,11 +122,10 @@ fn parse_single_file(
             let (reqs, errs) = match &config.parser {
                 ArtefactParser::Markdown => parsers::markdown::parse(&mut r, &path),
                 ArtefactParser::MonoRequirement => parsers::monoreq::parse(&mut r, &path),
-                ArtefactParser::Json => match serde_json::from_reader(r) {
+                ArtefactParser::Json => match parse_json(r) {
                     Ok(reqs) => (reqs, vec![]),
                     Err(err) => {
-                        let err =
-                            Error::Format(Location::new_with_no_pos(path.clone()), err.to_string());
+                        let err = Error::Format(Location::new_with_no_pos(path.clone()), err);
                         log::info!("found problem {:#?}", &err);
 
                         (vec![], vec![err])
-- 
2.43.0


From 20d3f0a6b097fb7aba19fdc4fd379403bf510ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:15 +0000
Subject: [PATCH 19/27] fix: detect that the last line of a job could not be
 written to stdout

Output behind the last newline (Json) stayed in the buffer of stdout
until the process exited, where errors are ignored.
---
 src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index aa6d980..fd3fb9d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -442,7 +442,9 @@ impl Controller {
             }
         };
 
-        write_res.map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
+        write_res
+            .and_then(|()| io::Write::flush(&mut out))
+            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
 
         match success {
             JobSuccess::Success => {
-- 
2.43.0


From ee53bdca30380225753154d12cf8c6c4725a85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:50 +0000
Subject: [PATCH 20/27] fix: Rust files were not found below a base directory
 with trailing slash

The pattern then contained an empty component, which matches nothing, and
with wildcards all files of the artefact were ignored silently.
---
 src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index fd3fb9d..c49777e 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -42,8 +42,10 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
+            // components() drops repeated and trailing slashes, which would not match anything
+            let base_dir: PathBuf = base_dir.components().collect();
             let base_dir = glob::Pattern::escape(&base_dir.display().to_string());
-            glob::glob(&format!("{base_dir}/{path}"))
+            glob::glob(&Path::new(&base_dir).join(path).display().to_string())
         } else {
             glob::glob(path)
         };
-- 
2.43.0


From 547f2fb2cc58ee8d2a652ca8559c57ae62a7c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:35 +0000
Subject: [PATCH 21/27] fix: message about a coverage mark with too many
 arguments depended on other files

It contained the debug output of the tokens with their offsets in the
text of all files parsed so far.
---
 src/parsers/rust.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 89eb04c..f557614 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -149,7 +149,8 @@ impl Parser<'_> {
                 let err = Error::Format(
                     macro_location.clone(),
                     format!(
-                        "requirement_covered!() called with more than 2 argument/token {tokens:?}"
+                        "requirement_covered!() called with more than 2 argument/token {}",
+                        node.mac.tokens
                     ),
                 );
                 log::info!("found problem {:#?}", &err);
-- 
2.43.0


From 90bd0a312cd4f5ade42092a79da333195ec9764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 22/27] fix: coverage marks with braces or in the place of an
 item were lost

A macro call with braces in a function and every macro call directly in
a module, trait or implementation is an item for syn, not an expression.
---
 src/parsers/rust.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index f557614..597d6ed 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -63,10 +63,10 @@ struct Parser<'a> {
 }
 
 impl Parser<'_> {
-    fn parse_macro(&mut self, node: &syn::ExprMacro) -> bool {
+    fn parse_macro(&mut self, node: &syn::Macro) -> bool {
         requirement_covered!(FMT_IMPORT_RUS_COV_MARK);
 
-        let seg = &node.mac.path.segments;
+        let seg = &node.path.segments;
         if seg.len() != 1 {
             return false;
         }
@@ -74,7 +74,7 @@ impl Parser<'_> {
             return false;
         }
 
-        let tokens: Vec<_> = node.mac.tokens.clone().into_iter().collect();
+        let tokens: Vec<_> = node.tokens.clone().into_iter().collect();
         let macro_location = location_from_span(self.path, &seg[0].ident.span());
 
         let Some(item_location) = self.locations.last().cloned() else {
@@ -150,7 +150,7 @@ impl Parser<'_> {
                     macro_location.clone(),
                     format!(
                         "requirement_covered!() called with more than 2 argument/token {}",
-                        node.mac.tokens
+                        node.tokens
                     ),
                 );
                 log::info!("found problem {:#?}", &err);
@@ -192,9 +192,9 @@ impl Parser<'_> {
 }
 
 impl<'ast> Visit<'ast> for Parser<'ast> {
-    fn visit_expr_macro(&mut self, node: &'ast syn::ExprMacro) {
+    fn visit_macro(&mut self, node: &'ast syn::Macro) {
         if !self.parse_macro(node) {
-            visit::visit_expr_macro(self, node);
+            visit::visit_macro(self, node);
         }
     }
 
-- 
2.43.0


From 2be361fded3660df09f231261fe4508c75ac0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 23/27] fix: coverage marks in let-else statements and const
 blocks were lost

syn 1 has no syntax tree for these and keeps them as verbatim tokens.
---
 src/parsers/rust.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 597d6ed..94be662 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -3,8 +3,12 @@ use std::io::{self};
 use std::path::Path;
 use std::rc::Rc;
 
+use proc_macro2::Delimiter;
 use proc_macro2::Span;
+use proc_macro2::TokenStream;
+use proc_macro2::TokenTree;
 use quote::ToTokens;
+use syn::parse::Parser as _;
 use syn::parse_file;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
@@ -189,9 +193,45 @@ impl Parser<'_> {
         }
         true
     }
+
+    /// Finds marks in code for which syn has no syntax tree, like `let ... else`
+    fn visit_verbatim(&mut self, tokens: TokenStream) {
+        let tokens: Vec<_> = tokens.into_iter().collect();
+        let mut pos = 0;
+        while pos < tokens.len() {
+            let call = tokens.iter().skip(pos).take(3).cloned().collect();
+            if let Ok(call) = syn::parse2::<syn::Macro>(call) {
+                let is_path = pos > 0 && tokens[pos - 1].to_string() == ":";
+                if !is_path {
+                    self.visit_macro(&call);
+                }
+                pos += 3;
+                continue;
+            }
+            if let TokenTree::Group(group) = &tokens[pos] {
+                match syn::Block::parse_within.parse2(group.stream()) {
+                    Ok(stmts) if group.delimiter() == Delimiter::Brace => {
+                        for stmt in &stmts {
+                            self.visit_stmt(stmt);
+                        }
+                    }
+                    _ => self.visit_verbatim(group.stream()),
+                }
+            }
+            pos += 1;
+        }
+    }
 }
 
-impl<'ast> Visit<'ast> for Parser<'ast> {
+impl<'ast> Visit<'ast> for Parser<'_> {
+    fn visit_expr(&mut self, node: &'ast syn::Expr) {
+        if let syn::Expr::Verbatim(tokens) = node {
+            self.visit_verbatim(tokens.clone());
+        } else {
+            visit::visit_expr(self, node);
+        }
+    }
+
     fn visit_macro(&mut self, node: &'ast syn::Macro) {
         if !self.parse_macro(node) {
             visit::visit_macro(self, node);
-- 
2.43.0


From 7447617d2df9e1653ab188f76e64402e2ac837f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:13 +0000
Subject: [PATCH 24/27] fix: rust parser panicked at C string literals

syn 1 does not know them. Give it other literals in their place.
---
 src/parsers/rust.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 94be662..6a28cdc 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -4,12 +4,13 @@ use std::path::Path;
 use std::rc::Rc;
 
 use proc_macro2::Delimiter;
+use proc_macro2::Group;
+use proc_macro2::Literal;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use proc_macro2::TokenTree;
 use quote::ToTokens;
 use syn::parse::Parser as _;
-use syn::parse_file;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
 use syn::visit::{self};
@@ -31,7 +32,7 @@ pub fn parse(reader: &mut impl io::BufRead, path: &Path) -> (Vec<Rc<Requirement>
             log::info!("found problem {:#?}", &err);
             errors.push(err);
         }
-        Ok(_bytes) => match parse_file(&source) {
+        Ok(_bytes) => match parse_source(&source) {
             Err(e) => {
                 let pos = e.span().start();
                 let err = Error::Format(
@@ -306,6 +307,36 @@ impl<'ast> Visit<'ast> for Parser<'_> {
     }
 }
 
+/// like `syn::parse_file`, which panics at C string literals
+fn parse_source(source: &str) -> syn::Result<syn::File> {
+    let mut code = source.strip_prefix('\u{feff}').unwrap_or(source);
+    if code.starts_with("#!") && !code[2..].trim_start().starts_with('[') {
+        code = &code[code.find('\n').unwrap_or(code.len())..];
+    }
+    syn::parse2(replace_c_strings(code.parse()?))
+}
+
+/// replaces `c"..."` and `cr"..."`, which syn does not know, by other literals in the same place
+fn replace_c_strings(tokens: TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .map(|token| match token {
+            TokenTree::Group(group) => {
+                let tokens = replace_c_strings(group.stream());
+                let mut new = Group::new(group.delimiter(), tokens);
+                new.set_span(group.span());
+                new.into()
+            }
+            TokenTree::Literal(literal) if literal.to_string().starts_with('c') => {
+                let mut new = Literal::byte_string(b"");
+                new.set_span(literal.span());
+                new.into()
+            }
+            _ => token,
+        })
+        .collect()
+}
+
 /// value of a string literal
 fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
     let literal: syn::LitStr = syn::parse2(token.clone().into()).ok()?;
-- 
2.43.0


From 974bdf74f95b5839723cc1c702cefae99ebbf266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 25/27] fix: rust parser took quadratic time for many items
 with marks

---
 src/parsers/rust.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 6a28cdc..e463e9c 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -20,6 +20,7 @@ use crate::models::Error;
 use crate::models::Location;
 use crate::models::Reference;
 use crate::models::Requirement;
+use crate::models::RequirementId;
 
 pub fn parse(reader: &mut impl io::BufRead, path: &Path) -> (Vec<Rc<Requirement>>, Vec<Error>) {
     let requirements = Vec::new();
@@ -45,6 +46,7 @@ pub fn parse(reader: &mut impl io::BufRead, path: &Path) -> (Vec<Rc<Requirement>
             Ok(file) => {
                 let mut p = Parser {
                     requirements,
+                    positions: BTreeMap::new(),
                     errors,
                     path,
                     scope: Vec::new(),
@@ -61,6 +63,7 @@ pub fn parse(reader: &mut impl io::BufRead, path: &Path) -> (Vec<Rc<Requirement>
 
 struct Parser<'a> {
     requirements: Vec<Rc<Requirement>>,
+    positions: BTreeMap<RequirementId, usize>,
     errors: Vec<Error>,
     scope: Vec<String>,
     locations: Vec<Location>,
@@ -170,13 +173,15 @@ impl Parser<'_> {
             };
 
             // TODO: add info from path of source file to make symbols unique
-            let id = self.scope.join("::").into();
+            let id: RequirementId = self.scope.join("::").into();
 
-            match self.requirements.iter_mut().rev().find(|r| r.id == id) {
-                Some(req) => {
+            match self.positions.get(&id) {
+                Some(&pos) => {
+                    let req = &mut self.requirements[pos];
                     Rc::get_mut(req).unwrap().covers.push(reference);
                 }
                 None => {
+                    self.positions.insert(id.clone(), self.requirements.len());
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-- 
2.43.0


From afa9880b52db26972600c80f48cb2b8df0745b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:55 +0000
Subject: [PATCH 26/27] fix: tracing took quadratic time for many dangling
 references of one requirement

---
 src/trace.rs | 46 +++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/src/trace.rs b/src/trace.rs
index db204fc..c13041a 100644
--- a/src/trace.rs
+++ b/src/trace.rs
@@ -40,10 +40,10 @@ struct Tracer {
     req_by_id: BTreeMap<RequirementId, (ArtefactId, Rc<Requirement>)>,
 
     /// List of all depends-links that were not covered yet. later turned into errors
-    invalid_depends_links: BTreeSet<(RequirementId, RequirementId)>,
+    invalid_depends_links: BTreeMap<(RequirementId, RequirementId), Location>,
 
     /// List of all covers-links that were not covered yet. later turned into errors
-    invalid_covers_links: BTreeSet<(RequirementId, RequirementId)>,
+    invalid_covers_links: BTreeMap<(RequirementId, RequirementId), Location>,
 }
 
 impl Tracer {
@@ -53,8 +53,8 @@ impl Tracer {
             relations: Vec::new(),
             errors: Vec::new(),
             req_by_id: BTreeMap::new(),
-            invalid_depends_links: BTreeSet::new(),
-            invalid_covers_links: BTreeSet::new(),
+            invalid_depends_links: BTreeMap::new(),
+            invalid_covers_links: BTreeMap::new(),
         };
 
         for a in graph.artefacts.values() {
@@ -116,12 +116,14 @@ impl Tracer {
                     for cov in &req.covers {
                         requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                         self.invalid_covers_links
-                            .insert((cov.id.clone(), req.id.clone()));
+                            .entry((cov.id.clone(), req.id.clone()))
+                            .or_insert_with(|| cov.location.clone());
                     }
                     for dep in &req.depends {
                         requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
                         self.invalid_depends_links
-                            .insert((req.id.clone(), dep.id.clone()));
+                            .entry((req.id.clone(), dep.id.clone()))
+                            .or_insert_with(|| dep.location.clone());
                     }
 
                     if !artefact.ignore_derived_requirements {
@@ -290,41 +292,27 @@ impl Tracer {
     }
 
     fn validate_upwards(&mut self) {
-        for cov in &self.invalid_covers_links {
+        for ((upper_id, lower_id), location) in &self.invalid_covers_links {
             requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
-            let (upper_id, lower_id) = cov;
-
             let (_art_id, req) = &self.req_by_id[lower_id];
 
-            let reference: &Reference = req
-                .covers
-                .iter()
-                .find(|r| &r.id == upper_id)
-                .expect("invalid link exists");
-            let location = reference.location.clone();
-
-            let err = Error::CoversUnknownRequirement(Rc::clone(req), upper_id.clone(), location);
+            let err =
+                Error::CoversUnknownRequirement(Rc::clone(req), upper_id.clone(), location.clone());
             log::info!("found problem {err:#?}");
             self.errors.push(err);
         }
     }
 
     fn validate_downwards(&mut self) {
-        for dep in &self.invalid_depends_links {
+        for ((upper_id, lower_id), location) in &self.invalid_depends_links {
             requirement_covered!(DSG_TRACE_REFERENCE_EXIST);
-            let (upper_id, lower_id) = dep;
-
             let (_art_id, req) = &self.req_by_id[upper_id];
 
-            let reference = req.depends.iter().find(|r| &r.id == lower_id);
-
-            if reference.is_none() {
-                panic!("");
-            }
-
-            let location = reference.unwrap().location.clone();
-
-            let err = Error::DependOnUnknownRequirement(Rc::clone(req), lower_id.clone(), location);
+            let err = Error::DependOnUnknownRequirement(
+                Rc::clone(req),
+                lower_id.clone(),
+                location.clone(),
+            );
             log::info!("found problem {err:#?}");
             self.errors.push(err);
         }
-- 
2.43.0


From f9869190ba65dd6e6bcfc97f5406f2a76a9ae3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:52 +0000
Subject: [PATCH 27/27] fix: time for Rust files grew with the square of their
 number

---
 src/parsers/rust.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index e463e9c..7195199 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -26,6 +26,10 @@ pub fn parse(reader: &mut impl io::BufRead, path: &Path) -> (Vec<Rc<Requirement>
     let requirements = Vec::new();
     let mut errors = Vec::new();
 
+    // No span of another file is in use any more. If they were kept, each search for the location of
+    // a span would go through all files that were parsed before.
+    proc_macro2::extra::invalidate_current_thread_spans();
+
     let mut source = String::new();
     match reader.read_to_string(&mut source) {
         Err(e) => {
-- 
2.43.0

