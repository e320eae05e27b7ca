From 68d936c44c6e8a89eb737707fd7d5b3022b07618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 01/33] fix: return an error from write_into() if the template
 fails

io::Write::write_fmt() panics if the formatting fails without an error of
the underlying stream, i.e. Template::write_into() panicked for every
template that failed on its own.
---
 askama/src/helpers.rs | 38 ++++++++++++++++++++++++++++++++++++++
 askama/src/lib.rs     |  4 ++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/askama/src/helpers.rs b/askama/src/helpers.rs
index 79a1ada..ae4c928 100644
--- a/askama/src/helpers.rs
+++ b/askama/src/helpers.rs
@@ -1,4 +1,5 @@
 use std::iter::{Enumerate, Peekable};
+use std::{fmt, io};
 
 pub struct TemplateLoop<I>
 where
@@ -46,3 +47,40 @@ pub struct LoopItem {
     pub first: bool,
     pub last: bool,
 }
+
+/// Renders into an [`io::Write`]
+///
+/// An error of the underlying stream is returned as is. If the rendering itself fails, then its
+/// error is returned as an [`io::ErrorKind::Other`] error.
+pub(crate) fn write_into_io<W, F>(writer: &mut W, render: F) -> io::Result<()>
+where
+    W: io::Write + ?Sized,
+    F: FnOnce(&mut IoAdapter<'_, W>) -> crate::Result<()>,
+{
+    let mut adapter = IoAdapter {
+        writer,
+        error: None,
+    };
+    let result = render(&mut adapter);
+    match (adapter.error, result) {
+        (Some(err), _) => Err(err),
+        (None, Err(err)) => Err(io::Error::new(io::ErrorKind::Other, err)),
+        (None, Ok(())) => Ok(()),
+    }
+}
+
+/// Passes everything on to an [`io::Write`], and remembers why it failed
+pub(crate) struct IoAdapter<'a, W: ?Sized> {
+    writer: &'a mut W,
+    error: Option<io::Error>,
+}
+
+impl<W: io::Write + ?Sized> fmt::Write for IoAdapter<'_, W> {
+    #[inline]
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.writer.write_all(s.as_bytes()).map_err(|err| {
+            self.error = Some(err);
+            fmt::Error
+        })
+    }
+}
diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..4db8e17 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -93,7 +93,7 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        helpers::write_into_io(writer, |adapter| self.render_into(adapter))
     }
 
     /// The template's extension, if provided
@@ -171,7 +171,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
-- 
2.43.0


From 20321dc57b7bd81424a1e3e4bfb4575c12c86fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 02/33] fix: answer with a server error if a template fails in
 axum

ErrorResponse::from(String) is a response with the status 200 OK.
---
 askama_axum/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..e5c5b9f 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,12 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| {
+            axum_core::response::ErrorResponse::from((
+                http::StatusCode::INTERNAL_SERVER_ERROR,
+                err.to_string(),
+            ))
+        })
         .into_response()
 }
 
-- 
2.43.0


From 74879bef9231a363f55470671f6d6e5bbba9a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 03/33] fix: do not panic if a filtered value cannot be
 formatted

The filters used ToString::to_string(), which panics if the Display
implementation of the value returns an error.
---
 askama/src/filters/mod.rs | 63 ++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..b6e5409 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -219,21 +219,21 @@ pub fn format() {}
 /// A single newline becomes an HTML line break `<br>` and a new line
 /// followed by a blank line becomes a paragraph break `<p>`.
 #[inline]
-pub fn linebreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaks(s: String) -> Result<String, Infallible> {
+pub fn linebreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaks(s: String) -> Result<String, fmt::Error> {
         let linebroken = s.replace("\n\n", "</p><p>").replace('\n', "<br/>");
         Ok(format!("<p>{linebroken}</p>"))
     }
-    linebreaks(s.to_string())
+    linebreaks(try_to_string(s)?)
 }
 
 /// Converts all newlines in a piece of plain text to HTML line breaks
 #[inline]
-pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaksbr(s: String) -> Result<String, Infallible> {
+pub fn linebreaksbr(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaksbr(s: String) -> Result<String, fmt::Error> {
         Ok(s.replace('\n', "<br/>"))
     }
-    linebreaksbr(s.to_string())
+    linebreaksbr(try_to_string(s)?)
 }
 
 /// Replaces only paragraph breaks in plain text with appropriate HTML
@@ -242,41 +242,41 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 /// Paragraph tags only wrap content; empty paragraphs are removed.
 /// No `<br/>` tags are added.
 #[inline]
-pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn paragraphbreaks(s: String) -> Result<String, Infallible> {
+pub fn paragraphbreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn paragraphbreaks(s: String) -> Result<String, fmt::Error> {
         let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
         Ok(format!("<p>{linebroken}</p>"))
     }
-    paragraphbreaks(s.to_string())
+    paragraphbreaks(try_to_string(s)?)
 }
 
 /// Converts to lowercase
 #[inline]
-pub fn lower(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn lower(s: String) -> Result<String, Infallible> {
+pub fn lower(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn lower(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_lowercase())
     }
-    lower(s.to_string())
+    lower(try_to_string(s)?)
 }
 
 /// Alias for the `lower()` filter
 #[inline]
-pub fn lowercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn lowercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     lower(s)
 }
 
 /// Converts to uppercase
 #[inline]
-pub fn upper(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn upper(s: String) -> Result<String, Infallible> {
+pub fn upper(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn upper(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_uppercase())
     }
-    upper(s.to_string())
+    upper(try_to_string(s)?)
 }
 
 /// Alias for the `upper()` filter
 #[inline]
-pub fn uppercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn uppercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     upper(s)
 }
 
@@ -375,8 +375,8 @@ impl<S: fmt::Display> fmt::Display for TruncateFilter<S> {
 
 /// Indent lines with `width` spaces
 #[inline]
-pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infallible> {
-    fn indent(s: String, width: usize) -> Result<String, Infallible> {
+pub fn indent(s: impl fmt::Display, width: usize) -> Result<impl fmt::Display, fmt::Error> {
+    fn indent(s: String, width: usize) -> Result<String, fmt::Error> {
         if width >= MAX_LEN || s.len() >= MAX_LEN {
             return Ok(s);
         }
@@ -392,7 +392,7 @@ pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infal
         }
         Ok(indented)
     }
-    indent(s.to_string(), width)
+    indent(try_to_string(s)?, width)
 }
 
 #[cfg(feature = "num-traits")]
@@ -470,8 +470,8 @@ where
 
 /// Capitalize a value. The first character will be uppercase, all others lowercase.
 #[inline]
-pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn capitalize(s: String) -> Result<String, Infallible> {
+pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn capitalize(s: String) -> Result<String, fmt::Error> {
         match s.chars().next() {
             Some(c) => {
                 let mut replacement: String = c.to_uppercase().collect();
@@ -481,7 +481,7 @@ pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
             _ => Ok(s),
         }
     }
-    capitalize(s.to_string())
+    capitalize(try_to_string(s)?)
 }
 
 /// Centers the value in a field of a given width
@@ -507,18 +507,18 @@ impl<T: fmt::Display> fmt::Display for Center<T> {
 
 /// Count the words in that string.
 #[inline]
-pub fn wordcount(s: impl ToString) -> Result<usize, Infallible> {
-    fn wordcount(s: String) -> Result<usize, Infallible> {
+pub fn wordcount(s: impl fmt::Display) -> Result<usize, fmt::Error> {
+    fn wordcount(s: String) -> Result<usize, fmt::Error> {
         Ok(s.split_whitespace().count())
     }
-    wordcount(s.to_string())
+    wordcount(try_to_string(s)?)
 }
 
 /// Return a title cased version of the value. Words will start with uppercase letters, all
 /// remaining characters are lowercase.
 #[inline]
-pub fn title(s: impl ToString) -> Result<String, Infallible> {
-    let s = s.to_string();
+pub fn title(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let s = try_to_string(s)?;
     let mut need_capitalization = true;
 
     // Sadly enough, we can't mutate a string when iterating over its chars, likely because it could
@@ -544,6 +544,13 @@ pub fn title(s: impl ToString) -> Result<String, Infallible> {
     Ok(output)
 }
 
+/// Like [`ToString::to_string()`], but returns an error if the formatting fails instead of panicking
+fn try_to_string(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let mut result = String::new();
+    write!(result, "{s}")?;
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 7980c08ad4a13ea324f14be2ea3ce2f118fa5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 04/33] fix: let the result of the join filter be displayed
 more than once

The filter consumed its iterator when it was displayed for the first time,
so {{ v|join(",") }};{{ v|join(",") }} and a variable that holds a joined
value lost everything after the first use.
---
 askama/src/filters/mod.rs | 44 +++++++--------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index b6e5409..1b46912 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -5,7 +5,6 @@
 //! For more information, read the [book](https://djc.github.io/askama/filters.html).
 #![allow(clippy::trivially_copy_pass_by_ref)]
 
-use std::cell::Cell;
 use std::convert::Infallible;
 use std::fmt::{self, Write};
 
@@ -415,48 +414,21 @@ where
 
 /// Joins iterable into a string separated by provided argument
 #[inline]
-pub fn join<I, S>(input: I, separator: S) -> Result<impl fmt::Display, Infallible>
+pub fn join<I, S>(input: I, separator: S) -> Result<impl fmt::Display, fmt::Error>
 where
     I: IntoIterator,
     I::Item: fmt::Display,
     S: fmt::Display,
 {
-    Ok(JoinFilter(Cell::new(Some((input, separator)))))
-}
-
-/// Result of the filter [`join()`].
-///
-/// ## Note
-///
-/// This struct implements [`fmt::Display`], but only produces a string once.
-/// Any subsequent call to `.to_string()` will result in an empty string, because the iterator is
-/// already consumed.
-//
-// The filter contains a [`Cell`], so we can modify iterator inside a method that takes `self` by
-// reference: [`fmt::Display::fmt()`] normally has the contract that it will produce the same result
-// in multiple invocations for the same object. We break this contract, because have to consume the
-// iterator, unless we want to enforce `I: Clone`, nor do we want to "memorize" the result of the
-// joined data.
-struct JoinFilter<I, S>(Cell<Option<(I, S)>>);
-
-impl<I, S> fmt::Display for JoinFilter<I, S>
-where
-    I: IntoIterator,
-    I::Item: fmt::Display,
-    S: fmt::Display,
-{
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let Some((iter, separator)) = self.0.take() else {
-            return Ok(());
-        };
-        for (idx, token) in iter.into_iter().enumerate() {
-            match idx {
-                0 => f.write_fmt(format_args!("{token}"))?,
-                _ => f.write_fmt(format_args!("{separator}{token}"))?,
-            }
+    // The iterator can be consumed only once, but the result may be displayed any number of times.
+    let mut joined = String::new();
+    for (idx, token) in input.into_iter().enumerate() {
+        match idx {
+            0 => write!(joined, "{token}")?,
+            _ => write!(joined, "{separator}{token}")?,
         }
-        Ok(())
     }
+    Ok(joined)
 }
 
 #[cfg(feature = "num-traits")]
-- 
2.43.0


From b9eba3567e187bbc78b34917cba10e062723bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 05/33] fix: do not panic in the fmt and format filters

::std::format!() panics if the Display or Debug implementation of an
argument returns an error. Only the condition of a for loop, which is
executed in a closure, still has to use it.
---
 askama/src/helpers.rs          |  7 ++++++
 askama_derive/src/generator.rs | 45 +++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/askama/src/helpers.rs b/askama/src/helpers.rs
index ae4c928..4f44550 100644
--- a/askama/src/helpers.rs
+++ b/askama/src/helpers.rs
@@ -48,6 +48,13 @@ pub struct LoopItem {
     pub last: bool,
 }
 
+/// Like [`std::fmt::format()`], but returns an error if the formatting fails instead of panicking
+pub fn format(args: fmt::Arguments<'_>) -> Result<String, fmt::Error> {
+    let mut result = String::new();
+    fmt::write(&mut result, args)?;
+    Ok(result)
+}
+
 /// Renders into an [`io::Write`]
 ///
 /// An error of the underlying stream is returned as is. If the rendering itself fails, then its
diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..ab04f9e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -39,6 +39,8 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // If the current expression is part of a closure, i.e. if it cannot use the `?` operator
+    in_closure: bool,
 }
 
 impl<'a> Generator<'a> {
@@ -61,6 +63,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            in_closure: false,
         }
     }
 
@@ -510,7 +513,9 @@ impl<'a> Generator<'a> {
             buf.write("let _iter = _iter.filter(|");
             self.visit_target(buf, true, true, &loop_block.var);
             buf.write("| -> bool {");
+            self.in_closure = true;
             self.visit_expr(buf, cond)?;
+            self.in_closure = false;
             buf.writeln("});")?;
             self.locals.pop();
         }
@@ -1374,13 +1379,7 @@ impl<'a> Generator<'a> {
             [Expr::StrLit(fmt), ..] => fmt,
             _ => return Err(r#"use filter format like `"a={} b={}"|format(a, b)`"#.into()),
         };
-        buf.write("::std::format!(");
-        self.visit_str_lit(buf, fmt);
-        if args.len() > 1 {
-            buf.write(", ");
-            self._visit_args(buf, &args[1..])?;
-        }
-        buf.write(")");
+        self.write_format_call(buf, fmt, &args[1..])?;
         Ok(DisplayWrap::Unwrapped)
     }
 
@@ -1393,14 +1392,36 @@ impl<'a> Generator<'a> {
             [_, Expr::StrLit(fmt)] => fmt,
             _ => return Err(r#"use filter fmt like `value|fmt("{:?}")`"#.into()),
         };
-        buf.write("::std::format!(");
-        self.visit_str_lit(buf, fmt);
-        buf.write(", ");
-        self._visit_args(buf, &args[..1])?;
-        buf.write(")");
+        self.write_format_call(buf, fmt, &args[..1])?;
         Ok(DisplayWrap::Unwrapped)
     }
 
+    // `::std::format!()` panics if an argument cannot be formatted, so it is only used if there is
+    // no way to return the error.
+    fn write_format_call(
+        &mut self,
+        buf: &mut Buffer,
+        fmt: &str,
+        args: &[Expr<'_>],
+    ) -> Result<(), CompileError> {
+        if self.in_closure {
+            buf.write("::std::format!(");
+        } else {
+            buf.write(CRATE);
+            buf.write("::helpers::format(::std::format_args!(");
+        }
+        self.visit_str_lit(buf, fmt);
+        if !args.is_empty() {
+            buf.write(", ");
+            self._visit_args(buf, args)?;
+        }
+        buf.write(match self.in_closure {
+            true => ")",
+            false => "))?",
+        });
+        Ok(())
+    }
+
     // Force type coercion on first argument to `join` filter (see #39).
     fn _visit_join_filter(
         &mut self,
-- 
2.43.0


From 724a3ff2b51201f1e2dd1e09f0e90a4e18587db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 06/33] fix: evaluate expressions before a following variable
 assignment

{{ self.next() }}{% let x = self.next() %} evaluated the assigned value
first, because the preceding expression was still buffered.
---
 askama_derive/src/generator.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ab04f9e..cad1921 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -268,7 +268,7 @@ impl<'a> Generator<'a> {
                     self.write_expr(ws, val);
                 }
                 Node::Let(ref l) => {
-                    self.write_let(buf, l)?;
+                    size_hint += self.write_let(buf, l)?;
                 }
                 Node::If(ref i) => {
                     size_hint += self.write_if(ctx, buf, i)?;
@@ -873,25 +873,27 @@ impl<'a> Generator<'a> {
         }
     }
 
-    fn write_let(&mut self, buf: &mut Buffer, l: &'a Let<'_>) -> Result<(), CompileError> {
+    fn write_let(&mut self, buf: &mut Buffer, l: &'a Let<'_>) -> Result<usize, CompileError> {
         self.handle_ws(l.ws);
 
+        // Need to flush the buffer before the value is evaluated: the preceding expressions have to
+        // be evaluated first, and with the old variable if it is being shadowed.
+        let mut size_hint = 0;
+        if !(self.buf_writable.iter()).all(|w| matches!(w, Writable::Lit(_))) {
+            size_hint = self.write_buf_writable(buf)?;
+        }
+
         let Some(val) = &l.val else {
-            self.write_buf_writable(buf)?;
             buf.write("let ");
             self.visit_target(buf, false, true, &l.var);
-            return buf.writeln(";");
+            buf.writeln(";")?;
+            return Ok(size_hint);
         };
 
         let mut expr_buf = Buffer::new(0);
         self.visit_expr(&mut expr_buf, val)?;
 
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
@@ -900,7 +902,8 @@ impl<'a> Generator<'a> {
         }
 
         self.visit_target(buf, true, true, &l.var);
-        buf.writeln(&format!(" = {};", &expr_buf.buf))
+        buf.writeln(&format!(" = {};", &expr_buf.buf))?;
+        Ok(size_hint)
     }
 
     // If `name` is `Some`, this is a call to a block definition, and we have to find
-- 
2.43.0


From 819d8018014b7dc658fc506cdbd7b33cde83a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 07/33] fix: collect the whole content of a filter block before
 filtering it

Everything but literals and plain expressions, e.g. an if or for node, was
written directly to the output, i.e. unfiltered and before the text which
precedes it. A filter block without content made the text in front of it
disappear, and a value which could not be formatted made it panic.
---
 askama_derive/src/generator.rs | 71 ++++++++++++++++------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cad1921..627eaad 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -39,6 +39,8 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // How many filter blocks the current node is in
+    filter_depth: usize,
     // If the current expression is part of a closure, i.e. if it cannot use the `?` operator
     in_closure: bool,
 }
@@ -63,6 +65,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            filter_depth: 0,
             in_closure: false,
         }
     }
@@ -716,44 +719,37 @@ impl<'a> Generator<'a> {
         filter: &'a FilterBlock<'_>,
     ) -> Result<usize, CompileError> {
         self.flush_ws(filter.ws1);
-        let mut var_name = String::new();
-        for id in 0.. {
-            var_name = format!("__filter_block{id}");
-            if self.locals.get(&Cow::Borrowed(var_name.as_str())).is_none() {
-                // No variable with this name exists, we're in the clear!
-                break;
-            }
+        let mut size_hint = self.write_buf_writable(buf)?;
+
+        let var_name = format!("__filter_block{}", self.filter_depth);
+        let writer_name = format!("__filter_writer{}", self.filter_depth);
+        let discard = self.buf_writable.discard;
+
+        // Everything in the block gets written into a variable ...
+        if !discard {
+            buf.writeln(&format!(
+                "let mut {var_name} = ::std::string::String::new();"
+            ))?;
+            buf.writeln(&format!("let {writer_name} = &mut *writer;"))?;
+            buf.writeln(&format!(
+                "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
+            ))?;
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
 
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        self.filter_depth += 1;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
+        size_hint += self.write_buf_writable(buf)?;
+        self.filter_depth -= 1;
 
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
+        if discard {
+            self.prepare_ws(filter.ws2);
+            return Ok(size_hint);
+        }
 
-        self.buf_writable.buf = current_buf;
+        // ... to which the filter is applied.
+        buf.writeln(&format!("let writer = {writer_name};"))?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
@@ -831,6 +827,7 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        child.filter_depth = self.filter_depth;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
         self.prepare_ws(i.ws);
@@ -976,6 +973,7 @@ impl<'a> Generator<'a> {
             MapChain::default(),
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
+        child.filter_depth = self.filter_depth;
 
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
@@ -1034,9 +1032,8 @@ impl<'a> Generator<'a> {
         }
     }
 
-    /// This is the common code to generate an expression. It is used for filter blocks and for
-    /// expressions more generally. It stores the size it represents and the buffers. Take a look
-    /// at `WriteParts` for more details.
+    /// This is the common code to generate an expression. It stores the size it represents and the
+    /// buffers. Take a look at `WriteParts` for more details.
     fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
@@ -2194,13 +2191,13 @@ struct WriteParts {
 /// If "expr" is `None`, it means we can generate code like this:
 ///
 /// ```ignore
-/// let var = format;
+/// writer.write_str(format)?;
 /// ```
 ///
 /// Otherwise we need to format "expr" using "format":
 ///
 /// ```ignore
-/// let var = format!(format, expr);
+/// write!(writer, format, expr)?;
 /// ```
 struct WritePartsBuffers {
     format: Buffer,
-- 
2.43.0


From 62cf8838825bf5fb3d8f996600cfa83bc549d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 08/33] fix: resolve all macro arguments in the scope of the
 caller

With {% macro m(a, b) %} the call {% call m(b, a) %} used the parameter a,
which was just introduced, for the second argument.
---
 askama_derive/src/generator.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 627eaad..c352e03 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -640,6 +640,10 @@ impl<'a> Generator<'a> {
         // * If there is one, we add it and move to the next argument.
         // * If there isn't one, then we pick the next argument (we can do it without checking
         //   anything since named arguments are always last).
+        //
+        // The arguments are evaluated in the scope of the caller, so the parameters must not be
+        // introduced before all arguments were handled.
+        let mut parameters = Vec::with_capacity(def.args.len());
         let mut allow_positional = true;
         for (index, arg) in def.args.iter().enumerate() {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
@@ -665,16 +669,14 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    parameters.push((Cow::Borrowed(*arg), LocalMeta::with_ref(var)));
                 }
                 Expr::Attr(obj, attr) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    parameters.push((Cow::Borrowed(*arg), LocalMeta::with_ref(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -692,10 +694,13 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    parameters.push((Cow::Borrowed(*arg), LocalMeta::default()));
                 }
             }
         }
+        for (name, meta) in parameters {
+            self.locals.insert(name, meta);
+        }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
-- 
2.43.0


From a474ffa018d72ce72b53323f25b0783ffb76d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 09/33] fix: evaluate loop variables only once if passed to a
 macro

An argument like loop.index was evaluated where the macro uses its
parameter, i.e. it was the index of the wrong loop inside of a for node of
the macro.
---
 askama_derive/src/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index c352e03..f39e75f 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -671,7 +671,9 @@ impl<'a> Generator<'a> {
                     let var = self.locals.resolve_or_self(name);
                     parameters.push((Cow::Borrowed(*arg), LocalMeta::with_ref(var)));
                 }
-                Expr::Attr(obj, attr) => {
+                // The value of a loop variable depends on the innermost loop, i.e. it would change if
+                // the macro contains a loop.
+                Expr::Attr(obj, attr) if **obj != Expr::Var("loop") => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
-- 
2.43.0


From 0038fb9a38d297bf6ae9d58a494b84c6ff9233c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 10/33] fix: resolve includes relative to the template that
 contains them

The code generator searched relative to the derived template, so an include
in a parent template or in an imported macro was not found, or a different
template was used than the one that was read.
---
 askama_derive/src/generator.rs | 9 +++++++--
 askama_derive/src/heritage.rs  | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index f39e75f..3d28e81 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -788,10 +788,11 @@ impl<'a> Generator<'a> {
     ) -> Result<usize, CompileError> {
         self.flush_ws(i.ws);
         self.write_buf_writable(buf)?;
+        // The path is relative to the template that contains the include node.
         let path = self
             .input
             .config
-            .find_template(i.path, Some(&self.input.path))?;
+            .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
@@ -808,7 +809,11 @@ impl<'a> Generator<'a> {
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
         // child's ones to preserve this template's context.
-        let child_ctx = &mut self.contexts[&path].clone();
+        let child_ctx = &mut self
+            .contexts
+            .get(&path)
+            .ok_or_else(|| CompileError::from(format!("context for {path:?} not found")))?
+            .clone();
         for (name, mac) in &ctx.macros {
             child_ctx.macros.entry(name).or_insert(mac);
         }
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..2f61fc1 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -39,6 +39,7 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
     pub(crate) nodes: &'a [Node<'a>],
+    pub(crate) path: Option<&'a Path>,
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
     pub(crate) macros: HashMap<&'a str, &'a Macro<'a>>,
@@ -48,7 +49,7 @@ pub(crate) struct Context<'a> {
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -105,6 +106,7 @@ impl Context<'_> {
 
         Ok(Context {
             nodes,
+            path: Some(path),
             extends,
             blocks,
             macros,
-- 
2.43.0


From 6fda19fc20b52a2a4a4ba1324937e1c158c7c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 11/33] fix: do not overflow the indentation of the generated
 code

With at least 64 levels of nested code, e.g. by includes or macro calls, the
derive macro panicked with 'attempt to multiply with overflow'.
---
 askama_derive/src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3d28e81..63b0dd9 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1046,7 +1046,7 @@ impl<'a> Generator<'a> {
 
     /// This is the common code to generate an expression. It stores the size it represents and the
     /// buffers. Take a look at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1863,14 +1863,14 @@ struct Buffer {
     // The buffer to generate the code into
     buf: String,
     // The current level of indentation (in spaces)
-    indent: u8,
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From 0bcafd8d6b02ec93995bb025099ad2a5f424216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 12/33] fix: keep the indentation if the generated code is
 discarded

Opening braces that are discarded do not change the indentation, but else
branches did: a few of them in front of a block fragment were rejected with
'dedent() called while indentation == 0'.
---
 askama_derive/src/generator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 63b0dd9..d4c5323 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1916,6 +1916,9 @@ impl Buffer {
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From cc9e93518a8fe00a232f0ae3554fad8b4113a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 13/33] fix: generate the same code every time

The templates were kept in a HashMap, so the order of the generated
include_bytes!() calls, and which of several errors was reported, depended
on the random state of the map.
---
 askama_derive/src/generator.rs | 5 +++--
 askama_derive/src/heritage.rs  | 4 ++--
 askama_derive/src/input.rs     | 4 ++--
 askama_derive/src/lib.rs       | 9 +++++----
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d4c5323..de661ae 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1,5 +1,6 @@
 use std::borrow::Cow;
 use std::collections::hash_map::{Entry, HashMap};
+use std::collections::BTreeMap;
 use std::ops::Deref;
 use std::path::Path;
 use std::rc::Rc;
@@ -21,7 +22,7 @@ pub(crate) struct Generator<'a> {
     // The template input state: original struct AST and attributes
     input: &'a TemplateInput<'a>,
     // All contexts, keyed by the package-relative template path
-    contexts: &'a HashMap<&'a Rc<Path>, Context<'a>>,
+    contexts: &'a BTreeMap<&'a Rc<Path>, Context<'a>>,
     // The heritage contains references to blocks and their ancestry
     heritage: Option<&'a Heritage<'a>>,
     // Variables accessible directly from the current scope (not redirected to context)
@@ -48,7 +49,7 @@ pub(crate) struct Generator<'a> {
 impl<'a> Generator<'a> {
     pub(crate) fn new<'n>(
         input: &'n TemplateInput<'_>,
-        contexts: &'n HashMap<&'n Rc<Path>, Context<'n>>,
+        contexts: &'n BTreeMap<&'n Rc<Path>, Context<'n>>,
         heritage: Option<&'n Heritage<'_>>,
         locals: MapChain<'n, Cow<'n, str>, LocalMeta>,
     ) -> Generator<'n> {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 2f61fc1..4b76d34 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::path::Path;
 use std::rc::Rc;
 
@@ -15,7 +15,7 @@ pub(crate) struct Heritage<'a> {
 impl Heritage<'_> {
     pub(crate) fn new<'n>(
         mut ctx: &'n Context<'n>,
-        contexts: &'n HashMap<&'n Rc<Path>, Context<'n>>,
+        contexts: &'n BTreeMap<&'n Rc<Path>, Context<'n>>,
     ) -> Heritage<'n> {
         let mut blocks: BlockAncestry<'n> = ctx
             .blocks
diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..9c7ad8d 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -1,4 +1,4 @@
-use std::collections::hash_map::HashMap;
+use std::collections::BTreeMap;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::str::FromStr;
@@ -108,7 +108,7 @@ impl TemplateInput<'_> {
 
     pub(crate) fn find_used_templates(
         &self,
-        map: &mut HashMap<Rc<Path>, Parsed>,
+        map: &mut BTreeMap<Rc<Path>, Parsed>,
     ) -> Result<(), CompileError> {
         let (source, source_path) = match &self.source {
             Source::Source(s) => (s.into(), None),
diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index e347001..fad9a20 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -2,7 +2,7 @@
 #![deny(unreachable_pub)]
 
 use std::fmt;
-use std::{borrow::Cow, collections::HashMap};
+use std::{borrow::Cow, collections::BTreeMap};
 
 use proc_macro::TokenStream;
 use proc_macro2::Span;
@@ -40,7 +40,7 @@ fn build_skeleton(ast: &syn::DeriveInput) -> Result<String, CompileError> {
     let template_args = TemplateArgs::fallback();
     let config = Config::new("", None)?;
     let input = TemplateInput::new(ast, &config, &template_args)?;
-    let mut contexts = HashMap::new();
+    let mut contexts = BTreeMap::new();
     contexts.insert(&input.path, Context::default());
     Generator::new(&input, &contexts, None, MapChain::default()).build(&contexts[&input.path])
 }
@@ -58,10 +58,11 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
     let config = Config::new(&toml, template_args.whitespace.as_deref())?;
     let input = TemplateInput::new(ast, &config, &template_args)?;
 
-    let mut templates = HashMap::new();
+    // The order of the templates must be stable to get reproducible code and error messages.
+    let mut templates = BTreeMap::new();
     input.find_used_templates(&mut templates)?;
 
-    let mut contexts = HashMap::new();
+    let mut contexts = BTreeMap::new();
     for (path, parsed) in &templates {
         contexts.insert(path, Context::new(input.config, path, parsed.nodes())?);
     }
-- 
2.43.0


From 1d0dc578d74b8407884c0d6c930336d2576650b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 14/33] fix: report unresolvable templates and blocks instead
 of panicking

A template file that disappears while it is being processed, a path that is
not UTF-8, and a block in a filter node made the derive macro panic.
---
 askama_derive/src/generator.rs | 41 +++++++++++++++++-----------------
 askama_derive/src/heritage.rs  |  8 ++++---
 askama_derive/src/lib.rs       |  2 +-
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index de661ae..37988eb 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -105,14 +105,7 @@ impl<'a> Generator<'a> {
                 Source::Source(_) => **path != self.input.path,
             };
             if path_is_valid {
-                let canonical_path = path.canonicalize().unwrap();
-                let include_path = canonical_path.to_str().unwrap();
-                buf.writeln(
-                    &quote! {
-                        include_bytes!(#include_path);
-                    }
-                    .to_string(),
-                )?;
+                write_dependency(buf, path)?;
             }
         }
 
@@ -796,16 +789,7 @@ impl<'a> Generator<'a> {
             .find_template(i.path, Some(ctx.path.unwrap_or(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
-        {
-            let canonical_path = path.canonicalize().unwrap();
-            let include_path = canonical_path.to_str().unwrap();
-            buf.writeln(
-                &quote! {
-                    include_bytes!(#include_path);
-                }
-                .to_string(),
-            )?;
-        }
+        write_dependency(buf, &path)?;
 
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
@@ -828,7 +812,7 @@ impl<'a> Generator<'a> {
         // Create a new generator for the child, and call it like in `impl_template` as if it were
         // a full template, while preserving the context.
         let heritage = if !child_ctx.blocks.is_empty() || child_ctx.extends.is_some() {
-            Some(Heritage::new(child_ctx, self.contexts))
+            Some(Heritage::new(child_ctx, self.contexts)?)
         } else {
             None
         };
@@ -957,7 +941,8 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
+        let ancestry = heritage.blocks.get(cur.0);
+        let (child_ctx, def) = *ancestry.and_then(|gens| gens.get(cur.1)).ok_or_else(|| {
             CompileError::from(match name {
                 None => format!("no super() block found for block '{}'", cur.0),
                 Some(name) => format!("no block found for name '{name}'"),
@@ -2108,6 +2093,22 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
     }
 }
 
+/// Makes the compiler understand that the generated code depends on the file `path`
+fn write_dependency(buf: &mut Buffer, path: &Path) -> Result<(), CompileError> {
+    let canonical_path = path
+        .canonicalize()
+        .map_err(|err| CompileError::from(format!("unable to resolve path {path:?}: {err}")))?;
+    let include_path = canonical_path
+        .to_str()
+        .ok_or_else(|| CompileError::from(format!("path {canonical_path:?} is not UTF-8")))?;
+    buf.writeln(
+        &quote! {
+            include_bytes!(#include_path);
+        }
+        .to_string(),
+    )
+}
+
 fn median(sizes: &mut [usize]) -> usize {
     sizes.sort_unstable();
     if sizes.len() % 2 == 1 {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 4b76d34..9cd2061 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -16,7 +16,7 @@ impl Heritage<'_> {
     pub(crate) fn new<'n>(
         mut ctx: &'n Context<'n>,
         contexts: &'n BTreeMap<&'n Rc<Path>, Context<'n>>,
-    ) -> Heritage<'n> {
+    ) -> Result<Heritage<'n>, CompileError> {
         let mut blocks: BlockAncestry<'n> = ctx
             .blocks
             .iter()
@@ -24,13 +24,15 @@ impl Heritage<'_> {
             .collect();
 
         while let Some(path) = &ctx.extends {
-            ctx = &contexts[path];
+            ctx = contexts
+                .get(path)
+                .ok_or_else(|| CompileError::from(format!("context for {path:?} not found")))?;
             for (name, def) in &ctx.blocks {
                 blocks.entry(name).or_default().push((ctx, def));
             }
         }
 
-        Heritage { root: ctx, blocks }
+        Ok(Heritage { root: ctx, blocks })
     }
 }
 
diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index fad9a20..8138cc7 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -69,7 +69,7 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
 
     let ctx = &contexts[&input.path];
     let heritage = if !ctx.blocks.is_empty() || ctx.extends.is_some() {
-        let heritage = Heritage::new(ctx, &contexts);
+        let heritage = Heritage::new(ctx, &contexts)?;
 
         if let Some(block_name) = input.block {
             if !heritage.blocks.contains_key(&block_name) {
-- 
2.43.0


From 56061aea4db715734e9b99812309c894edfa516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 15/33] fix: do not search templates in the current working
 directory

The path of a template that is defined in Rust source is just its file name,
so what it extends, includes or imports was searched relative to the working
directory of the compiler first.
---
 askama_derive/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index aac8123..f705aad 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -112,7 +112,8 @@ impl<'a> Config<'a> {
         path: &str,
         start_at: Option<&Path>,
     ) -> std::result::Result<Rc<Path>, CompileError> {
-        if let Some(root) = start_at {
+        // The fake path of a template that is defined in Rust source is not in any directory.
+        if let Some(root) = start_at.filter(|root| root.is_absolute()) {
             let relative = root.with_file_name(path);
             if relative.exists() {
                 return Ok(relative.into());
-- 
2.43.0


From 9f5e0ecb275a34f5f40b10a784fd88b756741cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 16/33] fix: report a missing path or source as a compile error

---
 askama_derive/src/input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 9c7ad8d..efcfefc 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -48,7 +48,7 @@ impl TemplateInput<'_> {
         // of `ext` is merged into a synthetic `path` value here.
         let source = source
             .as_ref()
-            .expect("template path or source not found in attributes");
+            .ok_or_else(|| CompileError::from("template path or source not found in attributes"))?;
         let path = match (&source, &ext) {
             (Source::Path(path), _) => config.find_template(path, None)?,
             (&Source::Source(_), Some(ext)) => {
-- 
2.43.0


From 35dbaadc556dd8a7382574931ead3e82a10bb525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 17/33] fix: reject recursive includes and macro calls

They are inlined into the generated code, so a template that includes itself
made the compiler crash with a stack overflow.
---
 askama_derive/src/generator.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 37988eb..1fdd420 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -42,6 +42,8 @@ pub(crate) struct Generator<'a> {
     named: usize,
     // How many filter blocks the current node is in
     filter_depth: usize,
+    // How many blocks, includes, and macro calls the current node is in
+    expansion_depth: usize,
     // If the current expression is part of a closure, i.e. if it cannot use the `?` operator
     in_closure: bool,
 }
@@ -67,6 +69,7 @@ impl<'a> Generator<'a> {
             },
             named: 0,
             filter_depth: 0,
+            expansion_depth: 0,
             in_closure: false,
         }
     }
@@ -703,7 +706,9 @@ impl<'a> Generator<'a> {
             buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
         }
 
+        self.expansion_depth = self.next_expansion_depth()?;
         let mut size_hint = self.handle(own_ctx, &def.nodes, buf, AstLevel::Nested)?;
+        self.expansion_depth -= 1;
 
         self.flush_ws(def.ws2);
         size_hint += self.write_buf_writable(buf)?;
@@ -825,6 +830,7 @@ impl<'a> Generator<'a> {
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
         child.filter_depth = self.filter_depth;
+        child.expansion_depth = self.next_expansion_depth()?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
         self.prepare_ws(i.ws);
@@ -832,6 +838,16 @@ impl<'a> Generator<'a> {
         Ok(size_hint)
     }
 
+    // Blocks, includes and macro calls are replaced by their content, so they must not be recursive
+    fn next_expansion_depth(&self) -> Result<usize, CompileError> {
+        match self.expansion_depth {
+            MAX_EXPANSION_DEPTH.. => {
+                Err("blocks, includes or macro calls are recursive, or too deeply nested".into())
+            }
+            depth => Ok(depth + 1),
+        }
+    }
+
     fn is_shadowing_variable(&self, var: &Target<'a>) -> Result<bool, CompileError> {
         match var {
             Target::Name(name) => {
@@ -972,6 +988,7 @@ impl<'a> Generator<'a> {
         );
         child.buf_writable = mem::take(&mut self.buf_writable);
         child.filter_depth = self.filter_depth;
+        child.expansion_depth = self.next_expansion_depth()?;
 
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
@@ -1845,6 +1862,9 @@ impl<'a> Generator<'a> {
     }
 }
 
+/// How deep blocks, includes and macro calls can be nested
+const MAX_EXPANSION_DEPTH: usize = 128;
+
 struct Buffer {
     // The buffer to generate the code into
     buf: String,
-- 
2.43.0


From 25c750a1dfd28369f79f05621ea495dbf6563606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 18/33] fix: make the generated code depend on the
 configuration file

The templates were not compiled again if only askama.toml was changed.
---
 askama_derive/src/config.rs    | 14 ++++++++++----
 askama_derive/src/generator.rs |  6 +++++-
 askama_derive/src/input.rs     |  2 +-
 askama_derive/src/lib.rs       |  5 +++--
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index f705aad..e5005e8 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -13,6 +13,8 @@ use parser::Syntax;
 
 #[derive(Debug)]
 pub(crate) struct Config<'a> {
+    // The configuration file, if there is one
+    pub(crate) path: Option<PathBuf>,
     pub(crate) dirs: Vec<PathBuf>,
     pub(crate) syntaxes: BTreeMap<String, Syntax<'a>>,
     pub(crate) default_syntax: &'a str,
@@ -99,6 +101,7 @@ impl<'a> Config<'a> {
         }
 
         Ok(Config {
+            path: None,
             dirs,
             syntaxes,
             default_syntax,
@@ -259,9 +262,10 @@ struct RawEscaper<'a> {
     extensions: Vec<&'a str>,
 }
 
+/// Returns the content of the configuration file, and its path if it exists
 pub(crate) fn read_config_file(
     config_path: Option<&str>,
-) -> std::result::Result<String, CompileError> {
+) -> std::result::Result<(String, Option<PathBuf>), CompileError> {
     let root = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
     let filename = match config_path {
         Some(config_path) => root.join(config_path),
@@ -269,12 +273,14 @@ pub(crate) fn read_config_file(
     };
 
     if filename.exists() {
-        fs::read_to_string(&filename)
-            .map_err(|_| format!("unable to read {:?}", filename.to_str().unwrap()).into())
+        match fs::read_to_string(&filename) {
+            Ok(content) => Ok((content, Some(filename))),
+            Err(_) => Err(format!("unable to read {:?}", filename.to_str().unwrap()).into()),
+        }
     } else if config_path.is_some() {
         Err(format!("`{}` does not exist", root.display()).into())
     } else {
-        Ok("".to_string())
+        Ok(("".to_string(), None))
     }
 }
 
diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 1fdd420..632dc7c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -100,7 +100,11 @@ impl<'a> Generator<'a> {
         buf.write(CRATE);
         buf.writeln("::Result<()> {")?;
 
-        // Make sure the compiler understands that the generated code depends on the template files.
+        // Make sure the compiler understands that the generated code depends on the configuration
+        // and on the template files.
+        if let Some(path) = &self.input.config.path {
+            write_dependency(buf, path)?;
+        }
         for path in self.contexts.keys() {
             // Skip the fake path of templates defined in rust source.
             let path_is_valid = match self.input.source {
diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index efcfefc..1abe625 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -349,7 +349,7 @@ impl TemplateArgs {
         }
     }
 
-    pub(crate) fn config(&self) -> Result<String, CompileError> {
+    pub(crate) fn config(&self) -> Result<(String, Option<PathBuf>), CompileError> {
         read_config_file(self.config.as_deref())
     }
 }
diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index 8138cc7..7ba6850 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -54,8 +54,9 @@ fn build_skeleton(ast: &syn::DeriveInput) -> Result<String, CompileError> {
 /// value as passed to the `template()` attribute.
 pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileError> {
     let template_args = TemplateArgs::new(ast)?;
-    let toml = template_args.config()?;
-    let config = Config::new(&toml, template_args.whitespace.as_deref())?;
+    let (toml, config_path) = template_args.config()?;
+    let mut config = Config::new(&toml, template_args.whitespace.as_deref())?;
+    config.path = config_path;
     let input = TemplateInput::new(ast, &config, &template_args)?;
 
     // The order of the templates must be stable to get reproducible code and error messages.
-- 
2.43.0


From 0611be822af9de1c07173b274d7847dbaf2b033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 19/33] hook: compile askama_derive as a library with --cfg
 askama_verif

---
 askama_derive/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index 7ba6850..000b820 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -1,5 +1,9 @@
 #![deny(elided_lifetimes_in_paths)]
 #![deny(unreachable_pub)]
+#![allow(unexpected_cfgs)] // `askama_verif`
+
+#[cfg(askama_verif)]
+extern crate proc_macro;
 
 use std::fmt;
 use std::{borrow::Cow, collections::BTreeMap};
@@ -20,7 +24,7 @@ use input::{Print, TemplateArgs, TemplateInput};
 #[cfg(test)]
 mod tests;
 
-#[proc_macro_derive(Template, attributes(template))]
+#[cfg_attr(not(askama_verif), proc_macro_derive(Template, attributes(template)))]
 pub fn derive_template(input: TokenStream) -> TokenStream {
     let ast = syn::parse::<syn::DeriveInput>(input).unwrap();
     match build_template(&ast) {
@@ -36,6 +40,16 @@ pub fn derive_template(input: TokenStream) -> TokenStream {
     }
 }
 
+/// Entry point if the crate is not compiled as a procedural macro, but as an ordinary library.
+///
+/// Returns the generated code, or the error message and the fallback implementations.
+#[cfg(askama_verif)]
+pub fn verif_derive_template(item: &str) -> Result<String, (String, Option<String>)> {
+    let ast = syn::parse_str::<syn::DeriveInput>(item)
+        .map_err(|err| (format!("invalid item: {err}"), None))?;
+    build_template(&ast).map_err(|err| (err.to_string(), build_skeleton(&ast).ok()))
+}
+
 fn build_skeleton(ast: &syn::DeriveInput) -> Result<String, CompileError> {
     let template_args = TemplateArgs::fallback();
     let config = Config::new("", None)?;
-- 
2.43.0


From 2115451535b455cad0292746513696e8a64c9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 20/33] fix: center values whose Display implementation ignores
 the width

Only a value that uses Formatter::pad() was centered, but not e.g. a value
that is written in pieces.
---
 askama/src/filters/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 1b46912..387ddb0 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -470,7 +470,8 @@ struct Center<T> {
 impl<T: fmt::Display> fmt::Display for Center<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.width < MAX_LEN {
-            write!(f, "{: ^1$}", self.src, self.width)
+            // A Display implementation does not need to care about the width.
+            write!(f, "{: ^1$}", try_to_string(&self.src)?, self.width)
         } else {
             write!(f, "{}", self.src)
         }
-- 
2.43.0


From 28dde4b039bd011465aea76e46bd3002b3877c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 21/33] fix: let can shadow a macro parameter

A parameter whose argument was not a plain variable counted as declared but
not yet initialized, i.e. a let of the same name tried to assign to it.
---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 632dc7c..f09a88c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -697,7 +697,7 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    parameters.push((Cow::Borrowed(*arg), LocalMeta::default()));
+                    parameters.push((Cow::Borrowed(*arg), LocalMeta::initialized()));
                 }
             }
         }
-- 
2.43.0


From 65556987ec2ae220a07151764ea46a6309964b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 22/33] fix: variables of includes and blocks end with them

The code of an include or a block was written into the scope of the template
that contains it, so that a variable it declared replaced the one with the same
name there.
---
 askama_derive/src/generator.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index f09a88c..f457978 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -835,8 +835,11 @@ impl<'a> Generator<'a> {
         child.buf_writable.discard = self.buf_writable.discard;
         child.filter_depth = self.filter_depth;
         child.expansion_depth = self.next_expansion_depth()?;
+        // Variables of the child are not visible to this template.
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
@@ -997,15 +1000,13 @@ impl<'a> Generator<'a> {
         // Handle inner whitespace suppression spec and process block nodes
         child.prepare_ws(def.ws1);
 
+        // Variables of the block are not visible outside of it
+        buf.writeln("{")?;
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
-
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
         child.flush_ws(def.ws2);
+        size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1990,10 +1991,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From 4288e877aa1c4fdc88c54d8196357168797bf723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 23/33] fix: do not overflow the size hint of nested loops

---
 askama_derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index f457978..335ea0c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -557,7 +557,9 @@ impl<'a> Generator<'a> {
         buf.writeln("}")?;
         self.locals.pop();
 
-        Ok(flushed + ((size_hint1 * 3) + size_hint2) / 2)
+        // Nested loops must not overflow the estimate
+        let size_hint = flushed + ((size_hint1 * 3) + size_hint2) / 2;
+        Ok(size_hint.min(MAX_LOOP_SIZE_HINT))
     }
 
     fn write_call(
@@ -1870,6 +1872,9 @@ impl<'a> Generator<'a> {
 /// How deep blocks, includes and macro calls can be nested
 const MAX_EXPANSION_DEPTH: usize = 128;
 
+/// The greatest estimate of how much a single loop writes
+const MAX_LOOP_SIZE_HINT: usize = 1 << 28;
+
 struct Buffer {
     // The buffer to generate the code into
     buf: String,
-- 
2.43.0


From 6ae885928674f0c1c8bda0318ce0768f0568f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 24/33] fix: report templates that are inaccessible instead of
 ignoring them

---
 askama_derive/src/config.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index e5005e8..3a7e91e 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -118,14 +118,14 @@ impl<'a> Config<'a> {
         // The fake path of a template that is defined in Rust source is not in any directory.
         if let Some(root) = start_at.filter(|root| root.is_absolute()) {
             let relative = root.with_file_name(path);
-            if relative.exists() {
+            if exists(&relative)? {
                 return Ok(relative.into());
             }
         }
 
         for dir in &self.dirs {
             let rooted = dir.join(path);
-            if rooted.exists() {
+            if exists(&rooted)? {
                 return Ok(rooted.into());
             }
         }
@@ -272,7 +272,7 @@ pub(crate) fn read_config_file(
         None => root.join(CONFIG_FILE_NAME),
     };
 
-    if filename.exists() {
+    if exists(&filename)? {
         match fs::read_to_string(&filename) {
             Ok(content) => Ok((content, Some(filename))),
             Err(_) => Err(format!("unable to read {:?}", filename.to_str().unwrap()).into()),
@@ -284,6 +284,16 @@ pub(crate) fn read_config_file(
     }
 }
 
+/// Another file must not be used instead only because it is not known whether this one exists
+fn exists(path: &Path) -> std::result::Result<bool, CompileError> {
+    match path.try_exists() {
+        Ok(exists) => Ok(exists),
+        // One of the directories is a file
+        Err(_) if path.ancestors().skip(1).any(Path::is_file) => Ok(false),
+        Err(err) => Err(format!("unable to access {path:?}: {err}").into()),
+    }
+}
+
 fn str_set<T>(vals: &[T]) -> HashSet<String>
 where
     T: ToString,
-- 
2.43.0


From a523e46b5c8ec3080cfabe8d1d492065b4a397c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 25/33] fix: reject templates that extend themselves through
 others

---
 askama_derive/src/input.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 1abe625..2e60cca 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -150,6 +150,16 @@ impl TemplateInput<'_> {
                                 return cyclic_graph_error(&dependency_graph);
                             }
                             dependency_graph.push(dependency_path);
+                            // The template must not extend itself through other templates, either.
+                            let mut ancestor = &extends;
+                            while let Some((_, next)) =
+                                dependency_graph.iter().find(|(from, _)| from == ancestor)
+                            {
+                                if *next == path {
+                                    return cyclic_graph_error(&dependency_graph);
+                                }
+                                ancestor = next;
+                            }
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
-- 
2.43.0


From 32dbc6f34c1b77e76091404a52266525885daa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 26/33] fix: give templates in other directories only one path

---
 askama_derive/src/config.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index 3a7e91e..6153d73 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -1,5 +1,5 @@
 use std::collections::{BTreeMap, HashSet};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::{env, fs};
 
@@ -119,7 +119,7 @@ impl<'a> Config<'a> {
         if let Some(root) = start_at.filter(|root| root.is_absolute()) {
             let relative = root.with_file_name(path);
             if exists(&relative)? {
-                return Ok(relative.into());
+                return Ok(without_detours(&relative)?.into());
             }
         }
 
@@ -294,6 +294,25 @@ fn exists(path: &Path) -> std::result::Result<bool, CompileError> {
     }
 }
 
+/// Every template must have only one path, otherwise cyclic templates would not be recognized
+fn without_detours(path: &Path) -> std::result::Result<PathBuf, CompileError> {
+    let mut result = PathBuf::new();
+    for component in path.components() {
+        if component == Component::ParentDir && result.file_name().is_some() {
+            // Symbolic links must be kept, because their parent is elsewhere
+            let metadata = result
+                .symlink_metadata()
+                .map_err(|err| format!("unable to access {result:?}: {err}"))?;
+            if !metadata.file_type().is_symlink() {
+                result.pop();
+                continue;
+            }
+        }
+        result.push(component);
+    }
+    Ok(result)
+}
+
 fn str_set<T>(vals: &[T]) -> HashSet<String>
 where
     T: ToString,
@@ -329,7 +348,7 @@ static DEFAULT_ESCAPERS: &[(&[&str], &str)] = &[
 #[cfg(test)]
 mod tests {
     use std::env;
-    use std::path::{Path, PathBuf};
+    use std::path::{Component, Path, PathBuf};
 
     use super::*;
 
-- 
2.43.0


From 323e78d9c8ef04fe818b4d50da0341a90b032e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 27/33] fix: read a template that refers to itself only once

---
 askama_derive/src/input.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 2e60cca..f14618a 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -119,6 +119,8 @@ impl TemplateInput<'_> {
         };
 
         let mut dependency_graph = Vec::new();
+        // Every file is read only once.
+        map.insert(Rc::clone(&self.path), Parsed::default());
         let mut check = vec![(Rc::clone(&self.path), source, source_path)];
         while let Some((path, source, source_path)) = check.pop() {
             let parsed = Parsed::new(source, source_path, self.syntax)?;
-- 
2.43.0


From dbf29bb540c3b7b1ea6b4cf652fdd0cb4aba544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 28/33] fix: limit the depth of expressions

---
 askama_parser/src/expr.rs | 67 +++++++++++++++++++++++++++++++++++++--
 askama_parser/src/node.rs |  5 +++
 2 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/askama_parser/src/expr.rs b/askama_parser/src/expr.rs
index 94f7d40..7f044e1 100644
--- a/askama_parser/src/expr.rs
+++ b/askama_parser/src/expr.rs
@@ -25,6 +25,7 @@ macro_rules! expr_prec_layer {
                 ws(tag($op)),
                 |i| Self::$inner(i, level),
             ))(i)?;
+            check_depth(i, right.len())?;
             Ok((
                 i,
                 right.into_iter().fold(left, |left, (op, right)| {
@@ -41,6 +42,7 @@ macro_rules! expr_prec_layer {
                 ws(alt(($( tag($op) ),+,))),
                 |i| Self::$inner(i, level),
             ))(i)?;
+            check_depth(i, right.len())?;
             Ok((
                 i,
                 right.into_iter().fold(left, |left, (op, right)| {
@@ -51,6 +53,16 @@ macro_rules! expr_prec_layer {
     }
 }
 
+/// Prevents stack overflows when the expression is used or dropped
+pub(crate) fn check_depth(i: &str, depth: usize) -> ParseResult<'_, ()> {
+    const MAX_DEPTH: usize = 1000;
+
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(error_position!(i, ErrorKind::TooLarge)));
+    }
+    Ok((i, ()))
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub enum Expr<'a> {
     BoolLit(&'a str),
@@ -151,6 +163,7 @@ impl<'a> Expr<'a> {
     }
 
     pub(super) fn parse(i: &'a str, level: Level) -> ParseResult<'a, Self> {
+        let start = i;
         let (_, level) = level.nest(i)?;
         let range_right = move |i| {
             pair(
@@ -158,7 +171,7 @@ impl<'a> Expr<'a> {
                 opt(move |i| Self::or(i, level)),
             )(i)
         };
-        alt((
+        let (i, expr) = alt((
             map(range_right, |(op, right)| {
                 Self::Range(op, None, right.map(Box::new))
             }),
@@ -169,7 +182,53 @@ impl<'a> Expr<'a> {
                     None => left,
                 },
             ),
-        ))(i)
+        ))(i)?;
+        check_depth(start, expr.depth())?;
+        Ok((i, expr))
+    }
+
+    /// How deep the expression is nested. Chains of operators, filters and suffixes make it deep,
+    /// although the parser does not recurse to parse them.
+    pub(crate) fn depth(&self) -> usize {
+        let mut max = 0;
+        let mut check = vec![(self, 1)];
+        while let Some((expr, depth)) = check.pop() {
+            max = max.max(depth);
+            let mut add = |expr| check.push((expr, depth + 1));
+            match expr {
+                Self::BoolLit(_)
+                | Self::NumLit(_)
+                | Self::StrLit(_)
+                | Self::CharLit(_)
+                | Self::Var(_)
+                | Self::Path(_)
+                | Self::RustMacro(_, _)
+                | Self::Generated(_) => {}
+                Self::Attr(expr, _)
+                | Self::NamedArgument(_, expr)
+                | Self::Unary(_, expr)
+                | Self::Group(expr)
+                | Self::Try(expr) => add(expr),
+                Self::Index(left, right) | Self::BinOp(_, left, right) => {
+                    add(left);
+                    add(right);
+                }
+                Self::Range(_, left, right) => {
+                    left.iter().for_each(|expr| add(expr));
+                    right.iter().for_each(|expr| add(expr));
+                }
+                Self::Array(exprs)
+                | Self::Tuple(exprs)
+                | Self::Filter(Filter {
+                    arguments: exprs, ..
+                }) => exprs.iter().for_each(add),
+                Self::Call(expr, args) => {
+                    add(expr);
+                    args.iter().for_each(add);
+                }
+            }
+        }
+        max
     }
 
     // Keep in sync with `TWO_PLUS_CHAR_OPS`, below
@@ -187,6 +246,7 @@ impl<'a> Expr<'a> {
         let (_, level) = level.nest(i)?;
         let (i, (obj, filters)) =
             tuple((|i| Self::prefix(i, level), many0(|i| filter(i, level))))(i)?;
+        check_depth(i, filters.len())?;
 
         let mut res = obj;
         for (fname, args) in filters {
@@ -316,7 +376,8 @@ impl<'a> Suffix<'a> {
     fn parse(i: &'a str, level: Level) -> ParseResult<'a, Expr<'a>> {
         let (_, level) = level.nest(i)?;
         let (mut i, mut expr) = Expr::single(i, level)?;
-        loop {
+        for len in 0.. {
+            check_depth(i, len)?;
             let (j, suffix) = opt(alt((
                 Self::attr,
                 |i| Self::index(i, level),
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..22d3b72 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -11,6 +11,7 @@ use nom::error_position;
 use nom::multi::{fold_many0, many0, many1, separated_list0, separated_list1};
 use nom::sequence::{delimited, pair, preceded, terminated, tuple};
 
+use crate::expr::check_depth;
 use crate::{not_ws, ErrorContext, ParseResult};
 
 use super::{
@@ -611,6 +612,7 @@ impl<'a> FilterBlock<'a> {
             ))),
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
+        check_depth(i, extra_filters.len())?;
 
         let mut filters = Filter {
             name: filter_name,
@@ -626,6 +628,9 @@ impl<'a> FilterBlock<'a> {
                 },
             };
         }
+        for arg in &filters.arguments {
+            check_depth(i, arg.depth())?;
+        }
 
         let mut end = cut(tuple((
             |i| Node::many(i, s),
-- 
2.43.0


From 1dfbf43b5b7f915e473b861a51a8e8e9cd1d4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 29/33] fix: write nothing more to a stream that has failed

---
 askama/src/helpers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/askama/src/helpers.rs b/askama/src/helpers.rs
index 4f44550..f18c265 100644
--- a/askama/src/helpers.rs
+++ b/askama/src/helpers.rs
@@ -85,6 +85,10 @@ pub(crate) struct IoAdapter<'a, W: ?Sized> {
 impl<W: io::Write + ?Sized> fmt::Write for IoAdapter<'_, W> {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
+        if self.error.is_some() {
+            // Whoever is writing has ignored the error.
+            return Err(fmt::Error);
+        }
         self.writer.write_all(s.as_bytes()).map_err(|err| {
             self.error = Some(err);
             fmt::Error
-- 
2.43.0


From d507d85a3d789347a56cab3bb4635627697f6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 30/33] fix: support Rust keywords as names of macro parameters
 and declared variables

---
 askama_derive/src/generator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 335ea0c..ed6725f 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -666,13 +666,14 @@ impl<'a> Generator<'a> {
                     &args[index]
                 }
             };
+            let arg = normalize_identifier(arg);
             match expr {
                 // If `expr` is already a form of variable then
                 // don't reintroduce a new variable. This is
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    parameters.push((Cow::Borrowed(*arg), LocalMeta::with_ref(var)));
+                    parameters.push((Cow::Borrowed(arg), LocalMeta::with_ref(var)));
                 }
                 // The value of a loop variable depends on the innermost loop, i.e. it would change if
                 // the macro contains a loop.
@@ -681,7 +682,7 @@ impl<'a> Generator<'a> {
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    parameters.push((Cow::Borrowed(*arg), LocalMeta::with_ref(var)));
+                    parameters.push((Cow::Borrowed(arg), LocalMeta::with_ref(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -699,7 +700,7 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    parameters.push((Cow::Borrowed(*arg), LocalMeta::initialized()));
+                    parameters.push((Cow::Borrowed(arg), LocalMeta::initialized()));
                 }
             }
         }
@@ -915,7 +916,7 @@ impl<'a> Generator<'a> {
         let shadowed = self.is_shadowing_variable(&l.var)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From 109e876262080b6f0470a77f57ba579717e1722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 31/33] fix: find blocks that are defined in filter blocks

---
 askama_derive/src/heritage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 9cd2061..1e27004 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -100,6 +100,9 @@ impl Context<'_> {
                             nested.push(&arm.nodes);
                         }
                     }
+                    Node::FilterBlock(filter) => {
+                        nested.push(&filter.nodes);
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From 8ba752706550ab6392c850f4f4cb4f06254d9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 32/33] fix: macros and included templates do not initialize
 variables of the caller

---
 askama_derive/src/generator.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ed6725f..fa09736 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -704,6 +704,7 @@ impl<'a> Generator<'a> {
                 }
             }
         }
+        self.locals.hide_uninitialized();
         for (name, meta) in parameters {
             self.locals.insert(name, meta);
         }
@@ -833,7 +834,8 @@ impl<'a> Generator<'a> {
             Some(heritage) => heritage.root,
             None => child_ctx,
         };
-        let locals = MapChain::with_parent(&self.locals);
+        let mut locals = MapChain::with_parent(&self.locals);
+        locals.hide_uninitialized();
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
         child.filter_depth = self.filter_depth;
@@ -2033,6 +2035,22 @@ impl MapChain<'_, Cow<'_, str>, LocalMeta> {
         })
     }
 
+    /// Variables that were declared, but not initialized yet, cannot be initialized by the macro or
+    /// by the included template that is entered: it declares variables of its own.
+    fn hide_uninitialized(&mut self) {
+        let mut names = Vec::new();
+        let mut chain = Some(&*self);
+        while let Some(map) = chain {
+            names.extend(map.scopes.iter().flat_map(|scope| scope.keys().cloned()));
+            chain = map.parent;
+        }
+        for name in names {
+            if self.get(&name).map_or(false, |meta| !meta.initialized) {
+                self.insert(name, LocalMeta::initialized());
+            }
+        }
+    }
+
     fn resolve_or_self(&self, name: &str) -> String {
         let name = normalize_identifier(name);
         self.resolve(name).unwrap_or_else(|| format!("self.{name}"))
-- 
2.43.0


From 2b523decec811f6d8a81fff13395fdb2bea13786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 33/33] fix: report unbalanced arguments of Rust macros instead
 of panicking

---
 askama_parser/src/expr.rs | 118 ++++++++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 38 deletions(-)

diff --git a/askama_parser/src/expr.rs b/askama_parser/src/expr.rs
index 7f044e1..d216d8f 100644
--- a/askama_parser/src/expr.rs
+++ b/askama_parser/src/expr.rs
@@ -405,52 +405,94 @@ impl<'a> Suffix<'a> {
     }
 
     fn r#macro(i: &'a str) -> ParseResult<'a, Self> {
+        // The arguments have to be tokens of Rust, in which all brackets are balanced.
         fn nested_parenthesis(input: &str) -> ParseResult<'_, ()> {
-            let mut nested = 0;
-            let mut last = 0;
-            let mut in_str = false;
-            let mut escaped = false;
-
-            for (i, c) in input.char_indices() {
-                if !(c == '(' || c == ')') || !in_str {
-                    match c {
-                        '(' => nested += 1,
-                        ')' => {
-                            if nested == 0 {
-                                last = i;
-                                break;
-                            }
-                            nested -= 1;
-                        }
-                        '"' => {
-                            if in_str {
-                                if !escaped {
-                                    in_str = false;
-                                }
-                            } else {
-                                in_str = true;
-                            }
-                        }
-                        '\\' => {
-                            escaped = !escaped;
-                        }
-                        _ => (),
+            let mut closing = Vec::new();
+            let mut rest = input;
+            while let Some(c) = rest.chars().next() {
+                let len = match c {
+                    '(' => {
+                        closing.push(')');
+                        Some(1)
+                    }
+                    '[' => {
+                        closing.push(']');
+                        Some(1)
                     }
+                    '{' => {
+                        closing.push('}');
+                        Some(1)
+                    }
+                    ')' if closing.is_empty() => return Ok((rest, ())),
+                    ')' | ']' | '}' => (closing.pop() == Some(c)).then_some(1),
+                    _ => rust_token_len(rest, c),
+                };
+                match len {
+                    Some(len) => rest = &rest[len..],
+                    None => break,
                 }
+            }
+            Err(nom::Err::Error(error_position!(
+                rest,
+                ErrorKind::SeparatedNonEmptyList
+            )))
+        }
 
-                if escaped && c != '\\' {
-                    escaped = false;
+        // The length of a literal, comment, identifier or any other character, if it is terminated
+        fn rust_token_len(s: &str, first: char) -> Option<usize> {
+            if s.starts_with("//") {
+                return s.find('\n');
+            } else if s.starts_with("/*") {
+                let mut depth = 1;
+                let mut at = 2;
+                while depth > 0 {
+                    at += s[at..].find(['/', '*'])?;
+                    let (add, len) = match s.get(at..at + 2)? {
+                        "/*" => (1, 2),
+                        "*/" => (-1, 2),
+                        _ => (0, 1),
+                    };
+                    depth += add;
+                    at += len;
                 }
+                return Some(at);
+            } else if first == '"' {
+                return quoted_len(s, '"');
+            } else if first == '\'' {
+                let is_lifetime = s[1..].starts_with(|c: char| c.is_alphabetic() || c == '_')
+                    && s.chars().nth(2) != Some('\'');
+                return match is_lifetime {
+                    true => Some(1),
+                    false => quoted_len(s, '\''),
+                };
+            } else if !(first.is_alphanumeric() || first == '_') {
+                return Some(first.len_utf8());
+            }
+
+            let len = s
+                .find(|c: char| !(c.is_alphanumeric() || c == '_'))
+                .unwrap_or(s.len());
+            if !matches!(&s[..len], "r" | "br" | "cr") {
+                return Some(len);
             }
+            let hashes = s[len..].len() - s[len..].trim_start_matches('#').len();
+            let start = len + hashes;
+            if !s[start..].starts_with('"') {
+                return Some(len);
+            }
+            let end = format!("\"{}", &s[len..start]);
+            Some(start + 1 + s[start + 1..].find(&end)? + end.len())
+        }
 
-            if nested == 0 {
-                Ok((&input[last..], ()))
-            } else {
-                Err(nom::Err::Error(error_position!(
-                    input,
-                    ErrorKind::SeparatedNonEmptyList
-                )))
+        fn quoted_len(s: &str, quote: char) -> Option<usize> {
+            let mut escaped = false;
+            for (i, c) in s.char_indices().skip(1) {
+                if !escaped && c == quote {
+                    return Some(i + 1);
+                }
+                escaped = c == '\\' && !escaped;
             }
+            None
         }
 
         preceded(
-- 
2.43.0

