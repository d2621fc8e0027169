From d1e9ca285d9fe13c70d7c7d2c766bd7a35a913f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 1/6] fix: return an error instead of panicking when a
 languages file is missing

---
 src/beider_morse/lang.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index 5659aee..e8f07b8 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -154,7 +154,9 @@ fn build_langs(directory: &Path, languages_set: &Languages) -> Result<Langs, Pho
     let mut langs: BTreeMap<NameType, Lang> = BTreeMap::new();
 
     for name_type in all::<NameType>() {
-        let languages = languages_set.get(&name_type).unwrap();
+        let languages = languages_set
+            .get(&name_type)
+            .ok_or_else(|| BMError::UnknownNameType(name_type.language_filename()))?;
         let filename = directory.join(format!("{name_type}_lang.txt"));
         let content = std::fs::read_to_string(filename.clone())
             .map_err(|error| PhoneticError::BMError(BMError::from(error)))?;
-- 
2.43.0


From 218e6cba081f02ada53c3a546dc288bf4f087747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 2/6] fix: return an error instead of panicking on a rule with
 an empty pattern

---
 src/beider_morse/rule.rs |  9 ++++++++-
 src/daitch_mokotoff.rs   | 10 ++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index cd26b8f..0ed0e4d 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -228,6 +228,14 @@ fn parse_rule(
         if let Ok((rm, (pattern, left_context, right_context, phoneme_expr))) =
             quadruplet().parse(remains)
         {
+            let Some(ch) = pattern.chars().next() else {
+                return Err(build_error(
+                    line_number,
+                    Some(filename.to_string()),
+                    remains,
+                    "Pattern is empty".to_string(),
+                ));
+            };
             remains = rm;
             let pattern_length_char = pattern.chars().count();
             let left_context = format!("{left_context}$");
@@ -252,7 +260,6 @@ fn parse_rule(
                 right_context,
                 phoneme,
             };
-            let ch = pattern.chars().next().unwrap();
             result.entry(ch).or_default().push(rule);
             continue;
         }
diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index fac1414..c903679 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -479,8 +479,14 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
             // Try quadruplet rule
             if let Ok((rm, quadruplet)) = quadruplet().parse(remains) {
                 let rule = Rule::try_from(quadruplet)?;
-                // There's always at least one char, the regex ensures that.
-                let ch = rule.pattern.chars().next().unwrap();
+                let Some(ch) = rule.pattern.chars().next() else {
+                    return Err(build_error(
+                        line_number,
+                        None,
+                        remains,
+                        "Pattern is empty".to_string(),
+                    ));
+                };
                 rules.entry(ch).or_default().push(rule);
                 remains = rm;
                 continue;
-- 
2.43.0


From 224aadd3c67cbea8a03828e14ab6fadba28b9946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 3/6] fix: return an error instead of overflowing the stack
 when rule files include themselves

---
 src/beider_morse/rule.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index 0ed0e4d..ae66440 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -215,7 +215,22 @@ fn parse_rule(
     resolver: &Resolver,
     filename: &str,
 ) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    parse_include(resolver, filename, &mut Vec::new())
+}
+
+/// Parse a file that is included by `parents` (outermost first).
+fn parse_include(
+    resolver: &Resolver,
+    filename: &str,
+    parents: &mut Vec<String>,
+) -> Result<BTreeMap<char, Vec<Rule>>, PhoneticError> {
+    if parents.iter().any(|parent| parent == filename) {
+        return Err(PhoneticError::BMError(BMError::BadRule(format!(
+            "{filename} includes itself"
+        ))));
+    }
     let content = resolver.resolve(filename)?;
+    parents.push(filename.to_string());
     let mut result: BTreeMap<char, Vec<Rule>> = BTreeMap::new();
     let mut remains = content.as_str();
     let mut line_number: usize = 0;
@@ -273,7 +288,7 @@ fn parse_rule(
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
             remains = rm;
-            let rules = parse_rule(resolver, include_filename).map_err(|error| {
+            let rules = parse_include(resolver, include_filename, parents).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
                         line_number,
@@ -305,6 +320,7 @@ fn parse_rule(
         ));
     }
 
+    parents.pop();
     Ok(result)
 }
 
-- 
2.43.0


From f52474988bbb30147ca523efbd9e8b097622c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 4/6] fix: Daitch-Mokotoff line number was wrong after a
 multiline comment

---
 src/daitch_mokotoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daitch_mokotoff.rs b/src/daitch_mokotoff.rs
index c903679..74201a8 100644
--- a/src/daitch_mokotoff.rs
+++ b/src/daitch_mokotoff.rs
@@ -507,7 +507,7 @@ impl<'a> DaitchMokotoffSoundexBuilder<'a> {
 
             // Try multiline comment
             if let Ok((rm, ln)) = multiline_comment().parse(remains) {
-                line_number += ln;
+                line_number += ln - 1;
                 remains = rm;
                 continue;
             }
-- 
2.43.0


From 71cb1a4e33e332eea791e1753806e3fe6ae97f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 5/6] fix: report the wrong line, not the one after it, and
 name the file of a language rule

---
 src/beider_morse/lang.rs | 6 +++---
 src/beider_morse/rule.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/beider_morse/lang.rs b/src/beider_morse/lang.rs
index e8f07b8..3795305 100644
--- a/src/beider_morse/lang.rs
+++ b/src/beider_morse/lang.rs
@@ -119,11 +119,11 @@ fn parse_lang(
         }
 
         if let Ok((rm, (pattern, langs, accept_on_match))) = lang().parse(remains) {
-            remains = rm;
-
             let pattern: Regex = Regex::new(pattern).map_err(|error| {
                 build_error(line_number, filename.clone(), remains, error.to_string())
             })?;
+            remains = rm;
+
             let langs: BTreeSet<String> =
                 BTreeSet::from_iter(langs.split('+').map(|v| v.to_string()));
             rules.push(LangRule {
@@ -138,7 +138,7 @@ fn parse_lang(
         // Everything fails, then return an error...
         return Err(build_error(
             line_number,
-            None,
+            filename,
             remains,
             "Can't parse line for language detection".to_string(),
         ));
diff --git a/src/beider_morse/rule.rs b/src/beider_morse/rule.rs
index ae66440..ff7b6aa 100644
--- a/src/beider_morse/rule.rs
+++ b/src/beider_morse/rule.rs
@@ -287,7 +287,6 @@ fn parse_include(
 
         // Try includes file
         if let Ok((rm, include_filename)) = include().parse(remains) {
-            remains = rm;
             let rules = parse_include(resolver, include_filename, parents).map_err(|error| {
                 if let PhoneticError::BMError(error) = error.clone() {
                     build_error(
@@ -300,6 +299,7 @@ fn parse_include(
                     error
                 }
             })?;
+            remains = rm;
             result.extend(rules);
             continue;
         }
-- 
2.43.0


From 5d442f10782dc86214b9beb0931d4a9ba5421405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 6/6] fix: a rule can't span several lines

---
 src/rules_parser.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/rules_parser.rs b/src/rules_parser.rs
index 40b3f06..1ce7e0a 100644
--- a/src/rules_parser.rs
+++ b/src/rules_parser.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
-use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
-use nom::character::complete::{alpha1, anychar, char, crlf, space1};
+use nom::bytes::complete::{is_not, tag, take_till, take_till1, take_until, take_while1};
+use nom::character::complete::{alpha1, char, crlf, none_of, space1};
 use nom::combinator::{eof, map, map_opt, opt, value};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
 
@@ -65,11 +65,15 @@ pub fn end_of_line<'a>(
     )
 }
 
-/// Recognize something between two double quote (`"..."`).
+/// Recognize something between two double quote (`"..."`), on a single line.
 fn part<'a>() -> impl nom::Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
     // There is only "\"" in rules, so to keep thing simple, we will just alt between
-    // tag("\\\"") and take_until("\"").
-    delimited(char('"'), alt((tag("\\\""), take_until("\""))), char('"'))
+    // tag("\\\"") and take everything until "\"".
+    delimited(
+        char('"'),
+        alt((tag("\\\""), take_till(|ch| ch == '"' || ch == '\n'))),
+        char('"'),
+    )
 }
 
 /// Recognize a quadruplet rule (`"..." "..." "..." "..."`). It could be followed by a single line comment.
@@ -91,7 +95,10 @@ pub fn quadruplet<'a>() -> impl nom::Parser<
 /// Recognize a Daitch-Mokotoff folding rule (`a=b`). It could be followed by a single line comment.
 pub fn folding<'a>(
 ) -> impl nom::Parser<&'a str, Output = (char, char), Error = nom::error::Error<&'a str>> {
-    terminated(separated_pair(anychar, char('='), anychar), end_of_line())
+    terminated(
+        separated_pair(none_of("\r\n"), char('='), none_of("\r\n")),
+        end_of_line(),
+    )
 }
 
 /// Recognize a Beider-Morse language detection rule. It could be followed by a single line comment.
@@ -99,8 +106,8 @@ pub fn lang<'a>(
 ) -> impl nom::Parser<&'a str, Output = (&'a str, &'a str, bool), Error = nom::error::Error<&'a str>>
 {
     (
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
-        terminated(take_till1(|ch| ch == ' '), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
+        terminated(take_till1(|ch| ch == ' ' || ch == '\n'), char(' ')),
         terminated(alt((boolean_true(), boolean_false())), end_of_line()),
     )
 }
-- 
2.43.0

