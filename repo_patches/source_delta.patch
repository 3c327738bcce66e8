From 0fb618c11c87e31318bba0ebca360a96be832196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 01/14] fix: parenthesise format arguments before borrowing
 them

An argument expression with an operator binding looser than unary `&`
(`a + b`, `x as T`, `1..3`, ...) was expanded to `&a + b`, which
borrows only its first operand and does not compile.
---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..0077cf9 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -113,7 +113,7 @@ fn format_args_impl(
     assert!(leftover.is_empty());
     let num_positional_args = positional_args.len();
     let positional_args = positional_args.into_iter();
-    let positional_args = quote! { (#(&#positional_args,)*) };
+    let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
@@ -123,7 +123,7 @@ fn format_args_impl(
         .collect();
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
-        (#(&#named_args_values,)*)
+        (#(&(#named_args_values),)*)
     };
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
-- 
2.43.0


From 01fcee23f3dc7e72bd2d1e0ee89c7b0c1534323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 02/14] fix: let format string attributes set an aspect back to
 its default

`fg=default`, `bg=default` and `normal` were parsed by diffing the
resulting style with the default one, which dropped them: inside a
restyled scope they had no effect, unlike `Foreground(Color::Default)`,
`Background(Color::Default)` and `Intensity::Normal`.
---
 macros/src/format.rs | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..1acea6c 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,24 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -70,11 +75,17 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                let mut diff = StyleDiff::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From 6c56e1d4a3008b40ecbc9d8673929484d6158a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 03/14] fix: accept empty and comma-terminated attribute lists

The documented grammar is
`attributes := '(' [attribute [',' attribute]* [',']] ')'`, but `{:()}`
and `{:(bold,)}` were rejected.
---
 macros/src/format.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 1acea6c..afecd44 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -4,8 +4,8 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
-    combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    combinator::{all_consuming, cut, map, map_res, not, opt, peek, recognize, value},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -75,7 +75,16 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            alt((
+                map(peek(tag(")")), |_| Vec::new()),
+                terminated(
+                    separated_list1(
+                        terminated(tag(","), not(tag(")"))),
+                        cut(Attribute::parse),
+                    ),
+                    opt(tag(",")),
+                ),
+            )),
             |attributes| {
                 let mut diff = StyleDiff::default();
                 for attribute in attributes {
-- 
2.43.0


From 4fa0c868b56880c4b557f8c1210319810bdbf276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 04/14] fix: accept the bright colors in format string
 attributes

`fg` and `bg` are documented to take a `Color` value in lowercase, but
none of the bright colors was accepted.
---
 macros/src/format.rs    | 8 ++++++++
 macros/src/to_tokens.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index afecd44..c0b6108 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -33,6 +33,14 @@ impl<'a> Parse<'a> for Color {
             value(Color::Magenta, tag("magenta")),
             value(Color::Cyan, tag("cyan")),
             value(Color::White, tag("white")),
+            value(Color::BrightBlack, tag("brightblack")),
+            value(Color::BrightRed, tag("brightred")),
+            value(Color::BrightGreen, tag("brightgreen")),
+            value(Color::BrightYellow, tag("brightyellow")),
+            value(Color::BrightBlue, tag("brightblue")),
+            value(Color::BrightMagenta, tag("brightmagenta")),
+            value(Color::BrightCyan, tag("brightcyan")),
+            value(Color::BrightWhite, tag("brightwhite")),
             value(Color::Default, tag("default")),
         ))(input)
     }
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 5a6d4ea..1b36de9 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -59,6 +59,14 @@ impl<'a> ToTokens for Scoped<'a, Color> {
             Color::Magenta => quote!(#export::Color::Magenta),
             Color::Cyan => quote!(#export::Color::Cyan),
             Color::White => quote!(#export::Color::White),
+            Color::BrightBlack => quote!(#export::Color::BrightBlack),
+            Color::BrightRed => quote!(#export::Color::BrightRed),
+            Color::BrightGreen => quote!(#export::Color::BrightGreen),
+            Color::BrightYellow => quote!(#export::Color::BrightYellow),
+            Color::BrightBlue => quote!(#export::Color::BrightBlue),
+            Color::BrightMagenta => quote!(#export::Color::BrightMagenta),
+            Color::BrightCyan => quote!(#export::Color::BrightCyan),
+            Color::BrightWhite => quote!(#export::Color::BrightWhite),
             Color::Default => quote!(#export::Color::Default),
             color => unreachable!("unknown color {color:?}"),
         }
-- 
2.43.0


From 71b92be5d72be28e30e5ac4ff828a18fbfc0778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 05/14] fix: accept whitespace before the closing brace of a
 placeholder

std's grammar, which the attribute syntax extends, is
`'{' [argument] [':' format_spec] [ws]* '}'`.
---
 macros/src/format.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index c0b6108..39f4d2f 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use nom::{
     branch::alt,
-    bytes::complete::tag,
+    bytes::complete::{tag, take_while},
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, not, opt, peek, recognize, value},
     multi::{many0, many1, separated_list1},
@@ -301,7 +301,11 @@ impl<'a> Piece<'a> {
 
     pub fn parse_arg(input: &'a str) -> IResult<&'a str, Self> {
         map(
-            delimited(tag("{"), cut(FormatArg::parse), tag("}")),
+            delimited(
+                tag("{"),
+                cut(FormatArg::parse),
+                preceded(take_while(char::is_whitespace), tag("}")),
+            ),
             Self::Arg,
         )(input)
     }
-- 
2.43.0


From c81b2fb9838246920d581da2c2d57405a3dfd9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 06/14] fix: clear bold before setting faint in ANSI output,
 and vice versa

SGR 1 and 2 set independent attributes, both only cleared by 22 (or 0),
so text going from bold straight to faint was displayed as both.
---
 ansi/src/ansi.rs | 3 ++-
 ansi/src/io.rs   | 3 ++-
 ansi/src/util.rs | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..6acef11 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..f60db38 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..ea4918b 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,8 +50,12 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
+pub(crate) fn intensity(current: Intensity, intensity: Intensity) -> &'static str {
     match intensity {
+        // Bold and faint are independent attributes, the code to set one doesn't
+        // clear the other.
+        Intensity::Bold if current == Intensity::Faint => "22;1",
+        Intensity::Faint if current == Intensity::Bold => "22;2",
         Intensity::Bold => "1",
         Intensity::Faint => "2",
         Intensity::Normal => "22",
-- 
2.43.0


From 185c89ae6cb03144ef3e2316dc4fe28fed3a7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 07/14] fix: let placeholders refer to named arguments given as
 raw identifiers

`format!("{type}", r#type = x)` looked the argument up as `r#type`, did
not find it, and rejected the call for an unused argument.
---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0077cf9..c3ab9c9 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -10,6 +10,7 @@ use std::collections::{HashMap, HashSet};
 use proc_macro2::Span;
 use quote::{quote, ToTokens};
 use syn::{
+    ext::IdentExt as _,
     parse::{ParseStream, Result},
     parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
     Token,
@@ -117,7 +118,7 @@ fn format_args_impl(
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
-        .map(|name| name.to_string())
+        .map(|name| name.unraw().to_string())
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
-- 
2.43.0


From 980ac3172cc816664864eb3181977ddc57a37add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 08/14] fix: reject duplicate named arguments

---
 macros/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index c3ab9c9..3170f05 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -76,6 +76,12 @@ impl syn::parse::Parse for ArgsInput {
                     } else {
                         panic!()
                     };
+                    if named_args
+                        .iter()
+                        .any(|(name, _): &(Ident, _)| name.unraw() == ident.unraw())
+                    {
+                        panic!("duplicate argument named {ident}");
+                    }
                     named_args.push((ident, *right));
                     onto_named = true;
                 }
-- 
2.43.0


From 8a3382ae90d3194c822553c975c83192e20b2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 09/14] fix: let placeholders capture self

---
 macros/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 3170f05..641b057 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -177,14 +177,16 @@ fn format_args_impl(
                             quote!(__stylish_named_args.#index)
                         } else {
                             let i = implicit_named_args_values.len();
+                            let span = Span::call_site().resolved_at(format_string.span());
+                            let ident = match name {
+                                // A path keyword, can't be a raw identifier.
+                                "self" => Ident::new(name, span),
+                                _ => Ident::new_raw(name, span),
+                            };
                             implicit_named_args_values.push(ExprPath {
                                 attrs: Vec::new(),
                                 qself: None,
-                                path: Ident::new_raw(
-                                    name,
-                                    Span::call_site().resolved_at(format_string.span()),
-                                )
-                                .into(),
+                                path: ident.into(),
                             });
                             let index = Index::from(i);
                             quote!(__stylish_implicit_named_args.#index)
-- 
2.43.0


From 3673c33497b43218e2d5bcfaa06164fec4edf092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 10/14] fix: keep names at the call site out of the macro
 expansions

---
 ansi/src/format.rs      |  4 ++--
 core/src/format.rs      |  4 ++--
 core/src/lib.rs         |  2 +-
 html/src/format.rs      |  4 ++--
 macros/src/to_tokens.rs | 17 ++++++++++++-----
 plain/src/format.rs     |  4 ++--
 6 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/ansi/src/format.rs b/ansi/src/format.rs
index fac9f0f..b7138b4 100644
--- a/ansi/src/format.rs
+++ b/ansi/src/format.rs
@@ -17,8 +17,8 @@ use crate::Ansi;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/core/src/format.rs b/core/src/format.rs
index 9d9c19b..e87fe77 100644
--- a/core/src/format.rs
+++ b/core/src/format.rs
@@ -18,8 +18,8 @@ use crate::{Arguments, String, Write};
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::format_args!($($arg)*));
+        __stylish_res
     }};
 }
 
diff --git a/core/src/lib.rs b/core/src/lib.rs
index d88c45d..eb5daaf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -48,7 +48,7 @@ pub use self::{format::format, string::String};
 #[cfg(feature = "macros")]
 #[doc(hidden)]
 pub mod 𓀄 {
-    pub use core::{fmt, option::Option};
+    pub use core::{default::Default, fmt, option::Option};
 
     pub use stylish_macros::{format_args, format_args_nl};
     pub use with_builtin_macros::with_builtin;
diff --git a/html/src/format.rs b/html/src/format.rs
index 51ba819..d669893 100644
--- a/html/src/format.rs
+++ b/html/src/format.rs
@@ -17,8 +17,8 @@ use crate::Html;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 1b36de9..293b07a 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -106,20 +106,27 @@ impl<'a> ToTokens for Scoped<'a, StyleDiff> {
             ..
         } = self.as_ref();
         let mut inner = TokenStream::new();
-        quote!(let mut diff = #export::StyleDiff::default();).to_tokens(&mut inner);
+        quote! {
+            let mut __stylish_diff =
+                <#export::StyleDiff as #export::Default>::default();
+        }
+        .to_tokens(&mut inner);
         if let Some(foreground) = foreground {
             let foreground = self.scope(foreground);
-            quote!(diff.foreground = Some(#foreground);).to_tokens(&mut inner);
+            quote!(__stylish_diff.foreground = #export::Option::Some(#foreground);)
+                .to_tokens(&mut inner);
         }
         if let Some(background) = background {
             let background = self.scope(background);
-            quote!(diff.background = Some(#background);).to_tokens(&mut inner);
+            quote!(__stylish_diff.background = #export::Option::Some(#background);)
+                .to_tokens(&mut inner);
         }
         if let Some(intensity) = intensity {
             let intensity = self.scope(intensity);
-            quote!(diff.intensity = Some(#intensity);).to_tokens(&mut inner);
+            quote!(__stylish_diff.intensity = #export::Option::Some(#intensity);)
+                .to_tokens(&mut inner);
         }
-        quote!(diff).to_tokens(&mut inner);
+        quote!(__stylish_diff).to_tokens(&mut inner);
         quote!({ #inner }).to_tokens(tokens);
     }
 }
diff --git a/plain/src/format.rs b/plain/src/format.rs
index 6a68159..9616a79 100644
--- a/plain/src/format.rs
+++ b/plain/src/format.rs
@@ -16,8 +16,8 @@ use crate::Plain;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
-- 
2.43.0


From 60d802343d954382b74c46689f2d4535b56b9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 11/14] fix: accept builtin macros as the format string of
 writeln

---
 core/src/lib.rs   | 25 +++++++++++++++++++++++++
 core/src/write.rs |  2 +-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index eb5daaf..9463c7d 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -121,3 +121,28 @@ macro_rules! _format_args {
         $crate::𓀄::format_args!(crate=$crate, $fmt $(, $($arg)*)?)
     };
 }
+
+#[cfg(feature = "macros")]
+#[cfg(not(stylish_proc_macro_expand))]
+#[doc(hidden)]
+#[macro_export]
+macro_rules! _format_args_nl {
+    ($fmt:literal $(, $($arg:tt)*)?) => {
+        $crate::𓀄::format_args_nl!(crate=$crate, $fmt $(, $($arg)*)?)
+    };
+    ($fmt:expr $(, $($arg:tt)*)?) => {
+        $crate::𓀄::with_builtin!(let $fmt_lit = $fmt in {
+            $crate::𓀄::format_args_nl!(crate=$crate, $fmt_lit $(, $($arg)*)?)
+        })
+    };
+}
+
+#[cfg(feature = "macros")]
+#[cfg(stylish_proc_macro_expand)]
+#[doc(hidden)]
+#[macro_export]
+macro_rules! _format_args_nl {
+    ($fmt:expr $(, $($arg:tt)*)?) => {
+        $crate::𓀄::format_args_nl!(crate=$crate, $fmt $(, $($arg)*)?)
+    };
+}
diff --git a/core/src/write.rs b/core/src/write.rs
index 72c3a14..5c64888 100644
--- a/core/src/write.rs
+++ b/core/src/write.rs
@@ -164,6 +164,6 @@ macro_rules! writeln {
         $crate::write!($dst, "\n")
     };
     ($dst:expr, $($arg:tt)*) => {
-        $dst.write_fmt($crate::𓀄::format_args_nl!(crate=$crate, $($arg)*))
+        $dst.write_fmt($crate::_format_args_nl!($($arg)*))
     };
 }
-- 
2.43.0


From a330ad95b55491338a3edfcfe69b9828729ab457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 12/14] fix: reject a suffix on the format string

---
 macros/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 641b057..c049745 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -43,9 +43,9 @@ impl syn::parse::Parse for ArgsInput {
             None
         };
         #[cfg(not(stylish_proc_macro_expand))]
-        let format = input.parse()?;
+        let format: LitStr = input.parse()?;
         #[cfg(stylish_proc_macro_expand)]
-        let format = {
+        let format: LitStr = {
             use syn::spanned::Spanned;
             let expr = input.parse::<Expr>()?;
             let span = expr.span();
@@ -59,6 +59,12 @@ impl syn::parse::Parse for ArgsInput {
             }
             syn::parse(expanded)?
         };
+        if !format.suffix().is_empty() {
+            return Err(syn::parse::Error::new(
+                format.span(),
+                "suffixes on string literals are invalid",
+            ));
+        }
         let mut positional_args = Vec::new();
         let mut named_args = Vec::new();
         let mut onto_named = false;
-- 
2.43.0


From 84fad7a799b15bad60c66b66a0671b2577c3e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 13/14] fix: write no style change for an empty io write

---
 ansi/src/io.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index f60db38..3ea35a0 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -54,6 +54,10 @@ impl<T: std::io::Write> Ansi<T> {
 /// write to the underlying stream until the change is completed.
 impl<T: std::io::Write> Write for Ansi<T> {
     fn write(&mut self, s: &[u8], style: Style) -> Result<usize> {
+        if s.is_empty() {
+            return Ok(0);
+        }
+
         if self.current != style && style == Style::default() {
             self.inner.write_all(b"\x1b[0m")?;
         } else {
-- 
2.43.0


From d65766931aab8604d558020eb8829b84f3172800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 14/14] fix: accept only plain identifiers as the names of
 arguments

---
 macros/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index c049745..a92dfce 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -12,8 +12,7 @@ use quote::{quote, ToTokens};
 use syn::{
     ext::IdentExt as _,
     parse::{ParseStream, Result},
-    parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
-    Token,
+    parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, Token,
 };
 
 use self::{
@@ -75,7 +74,10 @@ impl syn::parse::Parse for ArgsInput {
             }
             let expr = input.parse::<Expr>()?;
             match expr {
-                Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
+                Expr::Assign(ExprAssign {
+                    attrs, left, right, ..
+                }) if attrs.is_empty()
+                    && matches!(&*left, Expr::Path(ExprPath { attrs, qself: None, path }) if attrs.is_empty() && path.get_ident().is_some()) =>
                 {
                     let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
                         path.segments.pop().unwrap().into_value().ident
-- 
2.43.0

