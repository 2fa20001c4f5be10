From 1cf7f3399ab10d323be8fbe719fe8020ed121a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 01/97] fix: rescan only what follows a replaced macro

Expanding a macro restarted expansion from the beginning of the body, so that
names which had already been passed over could become calls of macros, and it
nested one call per replacement.
---
 src/macro_set/mod.rs | 151 +++++++++++++++++++++++++++++--------------
 1 file changed, 102 insertions(+), 49 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 9096967..924fb14 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -1,6 +1,6 @@
 use std::{
   borrow::Cow,
-  collections::{HashMap, HashSet},
+  collections::{HashMap, HashSet, VecDeque},
   error::Error,
   fmt,
   iter::IntoIterator,
@@ -227,7 +227,7 @@ impl<'t> Token<'t> {
       Self::Plain(t) => Append(t.as_ref()),
       Self::Punctuation(t) => Append(t.as_str()),
       Self::Comment(_) => Skip,
-      Self::Placemarker => Skip,
+      Self::Placemarker | Self::EndOfMacro(_) => Skip,
     }
   }
 
@@ -242,7 +242,7 @@ impl<'t> Token<'t> {
       Self::Punctuation(t) => MacroToken::Punctuation(t),
       Self::Comment(t) => MacroToken::Comment(t),
       Self::NonReplacable(t) => return t.detokenize(arg_names),
-      Self::Placemarker => return Ok(None),
+      Self::Placemarker | Self::EndOfMacro(_) => return Ok(None),
     }))
   }
 
@@ -326,8 +326,8 @@ impl<'t> Token<'t> {
       },
       (Self::Punctuation(_lhs), _) => return Err(ExpansionError::InvalidConcat),
       (_, Self::Punctuation(_rhs)) => return Err(ExpansionError::InvalidConcat),
-      (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_), _)
-      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_)) => unreachable!(),
+      (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::EndOfMacro(_), _)
+      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::EndOfMacro(_)) => unreachable!(),
     };
 
     Ok(if let Ok(identifier) = Identifier::try_from(new_token.as_ref()) {
@@ -417,6 +417,8 @@ enum Token<'t> {
   Comment(Comment<'t>),
   /// A placeholder token.
   Placemarker,
+  /// The end of a replaced macro with the given name.
+  EndOfMacro(&'t str),
 }
 
 impl MacroSet {
@@ -431,52 +433,49 @@ impl MacroSet {
 
   fn expand_macro_body<'s, 't>(
     &'s self,
-    non_replaced_names: HashSet<&str>,
+    mut non_replaced_names: HashSet<&'t str>,
     body: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
     's: 't,
   {
     let mut tokens = vec![];
-    let mut it = body.iter().cloned().peekable();
+    let mut remaining: VecDeque<_> = body.iter().cloned().collect();
 
-    while let Some(token) = it.next() {
+    // A replaced macro is put back in front of the remaining tokens, so that it is rescanned along with these,
+    // but tokens which have already been scanned are not considered again.
+    while let Some(token) = remaining.pop_front() {
       match token {
         Token::Identifier(ref id) => {
           if non_replaced_names.contains(id.id.as_ref()) {
             tokens.push(Token::NonReplacable(Box::new(token)));
           } else {
             // Treat as function-like macro call if immediately followed by `(`.
-            if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "(" })) {
-              if let Some((arg_names, body)) = self.fn_macros.get(id.id.as_ref()) {
-                if let Ok(args) = self.collect_args(&mut it) {
-                  let arg_names = tokenize_arg_names(arg_names)?;
-                  let body = tokenize(&arg_names, body);
-                  let expanded_tokens = self.expand_fn_macro_body(
-                    non_replaced_names.clone(),
-                    id.id.as_ref(),
-                    &arg_names,
-                    Some(&args),
-                    &body,
-                  )?;
-                  tokens.extend(expanded_tokens);
-                  tokens.extend(it);
-                  return self.expand_macro_body(non_replaced_names, &tokens)
-                }
+            if let Some((name, (arg_names, body))) = self.fn_macros.get_key_value(id.id.as_ref()) {
+              if let Ok(args) = self.collect_args(&mut remaining, &mut non_replaced_names) {
+                let arg_names = tokenize_arg_names(arg_names)?;
+                let body = tokenize(&arg_names, body);
+                let replaced_tokens =
+                  self.replace_fn_macro(non_replaced_names.clone(), name, &arg_names, Some(&args), &body)?;
+                Self::prepend_macro(&mut remaining, &mut non_replaced_names, name, replaced_tokens);
+                continue
               }
             }
 
             // If it's not a macro call, check if it is a variable-like macro.
-            if let Some(body) = self.var_macros.get(id.id.as_ref()) {
+            if let Some((name, body)) = self.var_macros.get_key_value(id.id.as_ref()) {
               let body = tokenize(&[], body);
-              tokens.extend(self.expand_var_macro_body(non_replaced_names.clone(), id.id.as_ref(), &body)?);
-              tokens.extend(it);
-              return self.expand_macro_body(non_replaced_names, &tokens)
+              let replaced_tokens = Self::replace_var_macro(&body)?;
+              Self::prepend_macro(&mut remaining, &mut non_replaced_names, name, replaced_tokens);
+              continue
             }
 
             tokens.push(token)
           }
         },
+        Token::EndOfMacro(name) => {
+          non_replaced_names.remove(name);
+        },
         token => tokens.push(token),
       }
     }
@@ -484,15 +483,38 @@ impl MacroSet {
     Ok(tokens)
   }
 
-  fn expand_var_macro_body<'s, 't, 'n>(
+  /// Put a replaced macro in front of the remaining tokens.
+  fn prepend_macro<'t>(
+    remaining: &mut VecDeque<Token<'t>>,
+    non_replaced_names: &mut HashSet<&'t str>,
+    name: &'t str,
+    tokens: Vec<Token<'t>>,
+  ) {
+    non_replaced_names.insert(name);
+    remaining.push_front(Token::EndOfMacro(name));
+
+    for token in tokens.into_iter().rev() {
+      remaining.push_front(token);
+    }
+  }
+
+  fn expand_var_macro_body<'s, 't>(
     &'s self,
-    mut non_replaced_names: HashSet<&'n str>,
-    name: &'n str,
+    mut non_replaced_names: HashSet<&'t str>,
+    name: &'t str,
     body: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
     's: 't,
   {
+    let body = Self::replace_var_macro(body)?;
+
+    non_replaced_names.insert(name);
+
+    self.expand_macro_body(non_replaced_names, &body)
+  }
+
+  fn replace_var_macro<'t>(body: &[Token<'t>]) -> Result<Vec<Token<'t>>, ExpansionError> {
     // A variable-like macro shall not contain `__VA_ARGS__`.
     if Self::contains_var_args(body) {
       return Err(ExpansionError::NonVariadicVarArgs)
@@ -501,15 +523,31 @@ impl MacroSet {
     let mut body = Self::expand_concat(body.to_vec())?;
     Self::remove_placemarkers(&mut body);
 
+    Ok(body)
+  }
+
+  fn expand_fn_macro_body<'s, 't>(
+    &'s self,
+    mut non_replaced_names: HashSet<&'t str>,
+    name: &'t str,
+    arg_names: &[Token<'t>],
+    args: Option<&[Vec<Token<'t>>]>,
+    body: &[Token<'t>],
+  ) -> Result<Vec<Token<'t>>, ExpansionError>
+  where
+    's: 't,
+  {
+    let body = self.replace_fn_macro(non_replaced_names.clone(), name, arg_names, args, body)?;
+
     non_replaced_names.insert(name);
 
     self.expand_macro_body(non_replaced_names, &body)
   }
 
-  fn expand_fn_macro_body<'s, 't, 'n>(
+  fn replace_fn_macro<'s, 't>(
     &'s self,
-    mut non_replaced_names: HashSet<&'n str>,
-    name: &'n str,
+    non_replaced_names: HashSet<&'t str>,
+    name: &str,
     arg_names: &[Token<'t>],
     args: Option<&[Vec<Token<'t>>]>,
     body: &[Token<'t>],
@@ -560,7 +598,7 @@ impl MacroSet {
     }
 
     let body = if let Some(args) = args {
-      self.expand_arguments(non_replaced_names.clone(), &arg_names, args, body)?
+      self.expand_arguments(non_replaced_names, &arg_names, args, body)?
     } else {
       body.to_vec()
     };
@@ -568,28 +606,36 @@ impl MacroSet {
     let mut body = Self::expand_concat(body)?;
     Self::remove_placemarkers(&mut body);
 
-    non_replaced_names.insert(name);
-
-    self.expand_macro_body(non_replaced_names, &body)
+    Ok(body)
   }
 
-  fn collect_args<'s, 't, I>(&'s self, it: &mut I) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
+  fn collect_args<'s, 't>(
+    &'s self,
+    remaining: &mut VecDeque<Token<'t>>,
+    non_replaced_names: &mut HashSet<&'t str>,
+  ) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
   where
     's: 't,
-    I: Iterator<Item = Token<'t>> + Clone,
   {
     let mut parentheses = vec![]; // Keep track of parenthesis pairs.
     let mut args = vec![];
     let mut current_arg = vec![];
 
-    let mut it2 = it.clone();
+    // The arguments may extend past the end of macros which are currently being replaced.
+    let mut names = non_replaced_names.clone();
+    let mut it = remaining.iter().cloned().enumerate();
 
-    match it2.next() {
-      Some(Token::Punctuation(p)) if p == "(" => (),
-      _ => return Err(CollectArgsError::MissingOpenParenthesis('(')),
+    loop {
+      match it.next() {
+        Some((_, Token::EndOfMacro(name))) => {
+          names.remove(name);
+        },
+        Some((_, Token::Punctuation(p))) if p == "(" => break,
+        _ => return Err(CollectArgsError::MissingOpenParenthesis('(')),
+      }
     }
 
-    while let Some(token) = it2.next() {
+    for (i, token) in it {
       match token {
         Token::Punctuation(p) => {
           let pop = |parentheses: &mut Vec<char>, open, close| match parentheses.pop() {
@@ -609,7 +655,8 @@ impl MacroSet {
               if parentheses.is_empty() {
                 args.push(mem::take(&mut current_arg));
 
-                *it = it2;
+                remaining.drain(..=i);
+                *non_replaced_names = names;
                 return Ok(args)
               } else {
                 pop(&mut parentheses, '(', ')')?
@@ -630,6 +677,12 @@ impl MacroSet {
 
           current_arg.push(Token::Punctuation(p));
         },
+        Token::EndOfMacro(name) => {
+          names.remove(name);
+        },
+        Token::Identifier(ref id) if names.contains(id.id.as_ref()) => {
+          current_arg.push(Token::NonReplacable(Box::new(token)))
+        },
         token => current_arg.push(token),
       }
     }
@@ -639,7 +692,7 @@ impl MacroSet {
 
   fn expand_arguments<'s, 't>(
     &'s self,
-    non_replaced_names: HashSet<&str>,
+    non_replaced_names: HashSet<&'t str>,
     arg_names: &[Token<'t>],
     args: &[Vec<Token<'t>>],
     tokens: &[Token<'t>],
@@ -783,7 +836,7 @@ impl MacroSet {
   where
     's: 't,
   {
-    let body = self.var_macros.get(name).ok_or(ExpansionError::MacroNotFound)?;
+    let (name, body) = self.var_macros.get_key_value(name).ok_or(ExpansionError::MacroNotFound)?;
     let body = tokenize(&[], body);
     let tokens = self.expand_var_macro_body(HashSet::new(), name, &body)?;
     detokenize(&[], tokens)
@@ -838,7 +891,7 @@ impl MacroSet {
   where
     's: 't,
   {
-    let (arg_names, body) = self.fn_macros.get(name).ok_or(ExpansionError::MacroNotFound)?;
+    let (name, (arg_names, body)) = self.fn_macros.get_key_value(name).ok_or(ExpansionError::MacroNotFound)?;
 
     let arg_names = tokenize_arg_names(arg_names)?;
     let body = tokenize(&arg_names, body);
-- 
2.43.0


From 3764693772f3ba2c216887e5a2069616808ad5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 02/97] fix: only parentheses protect commas in macro arguments

Brackets and braces are ordinary tokens in the arguments of a macro call.
---
 src/macro_set/mod.rs | 45 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 924fb14..a494aba 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -388,13 +388,6 @@ fn detokenize<'t>(arg_names: &[Token<'t>], tokens: Vec<Token<'t>>) -> Result<Vec
   tokens.into_iter().filter_map(|t| t.detokenize(arg_names).transpose()).collect()
 }
 
-enum CollectArgsError {
-  /// Open parenthesis not found.
-  MissingOpenParenthesis(char),
-  /// Unclosed parenthesis.
-  UnclosedParenthesis(char),
-}
-
 #[derive(Debug, Clone, PartialEq)]
 enum Token<'t> {
   /// A token that will not be considered for replacement again.
@@ -452,7 +445,7 @@ impl MacroSet {
           } else {
             // Treat as function-like macro call if immediately followed by `(`.
             if let Some((name, (arg_names, body))) = self.fn_macros.get_key_value(id.id.as_ref()) {
-              if let Ok(args) = self.collect_args(&mut remaining, &mut non_replaced_names) {
+              if let Some(args) = self.collect_args(&mut remaining, &mut non_replaced_names) {
                 let arg_names = tokenize_arg_names(arg_names)?;
                 let body = tokenize(&arg_names, body);
                 let replaced_tokens =
@@ -613,11 +606,11 @@ impl MacroSet {
     &'s self,
     remaining: &mut VecDeque<Token<'t>>,
     non_replaced_names: &mut HashSet<&'t str>,
-  ) -> Result<Vec<Vec<Token<'t>>>, CollectArgsError>
+  ) -> Option<Vec<Vec<Token<'t>>>>
   where
     's: 't,
   {
-    let mut parentheses = vec![]; // Keep track of parenthesis pairs.
+    let mut parentheses = 0; // Keep track of parenthesis pairs.
     let mut args = vec![];
     let mut current_arg = vec![];
 
@@ -631,43 +624,28 @@ impl MacroSet {
           names.remove(name);
         },
         Some((_, Token::Punctuation(p))) if p == "(" => break,
-        _ => return Err(CollectArgsError::MissingOpenParenthesis('(')),
+        _ => return None,
       }
     }
 
     for (i, token) in it {
       match token {
         Token::Punctuation(p) => {
-          let pop = |parentheses: &mut Vec<char>, open, close| match parentheses.pop() {
-            Some(p) => {
-              if p == open {
-                Ok(())
-              } else {
-                Err(CollectArgsError::UnclosedParenthesis(p))
-              }
-            },
-            None => Err(CollectArgsError::MissingOpenParenthesis(close)),
-          };
-
           match p.as_str() {
-            "(" => parentheses.push('('),
+            "(" => parentheses += 1,
             ")" => {
-              if parentheses.is_empty() {
+              if parentheses == 0 {
                 args.push(mem::take(&mut current_arg));
 
                 remaining.drain(..=i);
                 *non_replaced_names = names;
-                return Ok(args)
-              } else {
-                pop(&mut parentheses, '(', ')')?
+                return Some(args)
               }
+
+              parentheses -= 1;
             },
-            "[" => parentheses.push('['),
-            "]" => pop(&mut parentheses, '[', ']')?,
-            "{" => parentheses.push('{'),
-            "}" => pop(&mut parentheses, '{', '}')?,
             "," => {
-              if parentheses.is_empty() {
+              if parentheses == 0 {
                 args.push(mem::take(&mut current_arg));
                 continue
               }
@@ -687,7 +665,8 @@ impl MacroSet {
       }
     }
 
-    Err(CollectArgsError::UnclosedParenthesis('('))
+    // Unclosed parenthesis.
+    None
   }
 
   fn expand_arguments<'s, 't>(
-- 
2.43.0


From 4397fccc564e47069eea8e8488cc524cf33b1d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 03/97] fix: report variadic macro calls with too few arguments

Calling a variadic macro with fewer arguments than it has named parameters panicked.
---
 src/macro_set/mod.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index a494aba..bd33c4c 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -557,18 +557,24 @@ impl MacroSet {
       if Self::contains_var_args(body) {
         return Err(ExpansionError::NonVariadicVarArgs)
       }
+    }
 
-      if let Some(args) = args {
-        if arg_names.len() != args.len()
+    if let Some(args) = args {
+      let valid_arg_count = if is_variadic {
+        // The variable arguments may be omitted.
+        args.len() >= arg_names.len() - 1
+      } else {
+        arg_names.len() == args.len()
           // Allow passing an empty argument for arity 0.
-          && !(arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
-        {
-          return Err(ExpansionError::FnMacroArgumentError {
-            name: name.to_owned(),
-            required: arg_names.len(),
-            given: args.len(),
-          })
-        }
+          || (arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+      };
+
+      if !valid_arg_count {
+        return Err(ExpansionError::FnMacroArgumentError {
+          name: name.to_owned(),
+          required: arg_names.len(),
+          given: args.len(),
+        })
       }
     }
 
-- 
2.43.0


From 27605ce914415a344710edaf3e120940817362b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 04/97] fix: a macro without parameters does not accept several
 arguments

`F(,)` was accepted because only the first argument was looked at.
---
 src/macro_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index bd33c4c..5dfdd88 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -566,7 +566,7 @@ impl MacroSet {
       } else {
         arg_names.len() == args.len()
           // Allow passing an empty argument for arity 0.
-          || (arg_names.is_empty() && args.first().map(|arg| arg.is_empty()).unwrap_or(true))
+          || (arg_names.is_empty() && args.len() == 1 && args[0].is_empty())
       };
 
       if !valid_arg_count {
-- 
2.43.0


From 53b7f52779366a3d158ef96c0b3f2563b3e30789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 05/97] fix: do not expand macro arguments which are operands
 of `##`

---
 src/macro_set/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 5dfdd88..8ecbf3e 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -718,8 +718,6 @@ impl MacroSet {
               tokens.extend(stringify(arg, non_replaced_names.len() > 1));
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -727,8 +725,6 @@ impl MacroSet {
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
-              let arg = self.expand_macro_body(non_replaced_names.clone(), &arg)?;
-
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-- 
2.43.0


From 08cd3f5a602c64a76425835078bbae4ea9c7230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 06/97] fix: `#` and `##` are not operators in macro arguments

---
 src/macro_set/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 8ecbf3e..2ce605b 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -712,6 +712,14 @@ impl MacroSet {
             var_args
           };
 
+          // `#` and `##` are only operators in the body of a macro, not in the arguments.
+          let non_operators = |arg: Vec<Token<'t>>| {
+            arg.into_iter().map(|token| match token {
+              Token::Punctuation(ref p) if p == "#" || p == "##" => Token::NonReplacable(Box::new(token)),
+              token => token,
+            })
+          };
+
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
@@ -721,17 +729,17 @@ impl MacroSet {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-                tokens.extend(arg);
+                tokens.extend(non_operators(arg));
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
-                tokens.extend(arg);
+                tokens.extend(non_operators(arg));
               }
             },
-            _ => tokens.extend(self.expand_macro_body(non_replaced_names.clone(), &arg)?),
+            _ => tokens.extend(non_operators(self.expand_macro_body(non_replaced_names.clone(), &arg)?)),
           }
         },
         token => tokens.push(token),
-- 
2.43.0


From 8a1b31ecb273b7a7b3525adba9a3e7971cef3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 07/97] fix: spell stringified tokens as C string literals

The spelling of a stringified token was escaped as a Rust string literal.
---
 src/macro_set/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 2ce605b..485a555 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -374,7 +374,8 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   }
 
   tokens.extend(current_string.take().map(|s| {
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.clone().into_bytes()))), Cow::Owned(format!("{s:?}")))
+    let spelling = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
+    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
   }));
 
   if tokens.is_empty() {
-- 
2.43.0


From 72e96cbe9cd9899fc9b9e9d2223a6e8079f3ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 08/97] fix: do not panic on concatenations which cannot be
 represented

---
 src/macro_set/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 485a555..5027909 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -289,10 +289,12 @@ impl<'t> Token<'t> {
             if matches!(lhs.id.as_ref(), "u8" | "u" | "U" | "L") =>
           {
             lhs.id.to_mut().push_str(rhs.as_ref());
-            return Ok(Self::Literal(
-              Lit::try_from(lhs.id.as_ref()).unwrap().into_static(),
-              Cow::Owned(lhs.id.into_owned()),
-            ))
+            let token: Cow<'_, str> = Cow::Owned(lhs.id.into_owned());
+            return Ok(match Lit::try_from(token.as_ref()) {
+              Ok(literal) => Self::Literal(literal.into_static(), token),
+              // The contents cannot be represented with the given prefix.
+              Err(_) => Self::Plain(token),
+            })
           },
           // Strings cannot be prefixed with anything else.
           Lit::String(_) | Lit::Char(_) => (),
@@ -304,7 +306,7 @@ impl<'t> Token<'t> {
             // Appending a float only works for scientific notation
             if rhs.as_ref().chars().all(unicode_ident::is_xid_continue) {
               lhs.id.to_mut().push_str(rhs.as_ref());
-              return Ok(Self::Identifier(Identifier::try_from(lhs.id.as_ref()).unwrap().to_static()))
+              return Ok(Self::Identifier(lhs))
             }
           },
         }
@@ -326,8 +328,11 @@ impl<'t> Token<'t> {
       },
       (Self::Punctuation(_lhs), _) => return Err(ExpansionError::InvalidConcat),
       (_, Self::Punctuation(_rhs)) => return Err(ExpansionError::InvalidConcat),
+      // Macro arguments are only concatenated once they are replaced.
       (Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::EndOfMacro(_), _)
-      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::EndOfMacro(_)) => unreachable!(),
+      | (_, Self::MacroArg(_) | Self::VarArgs | Self::Comment(_) | Self::EndOfMacro(_)) => {
+        return Err(ExpansionError::InvalidConcat)
+      },
     };
 
     Ok(if let Ok(identifier) = Identifier::try_from(new_token.as_ref()) {
-- 
2.43.0


From 506f5875ddb834d95ce5be1f6d826c22e6875686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 09/97] fix: `##` forms exactly the valid pre-processing tokens

Preprocessing numbers with a sign or period were refused, and pastes like
`1 ## "a"` which form no token at all were accepted.
---
 src/macro_set/mod.rs | 45 ++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 5027909..6ce3cf0 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -116,6 +116,20 @@ fn is_whitespace(s: &str) -> bool {
   s.is_empty() || is_comment(s)
 }
 
+/// Check if the given string is a pre-processing number.
+fn is_pp_number(s: &str) -> bool {
+  let mut previous = '.';
+
+  let is_start = |s: &str| s.starts_with(|c: char| c.is_ascii_digit());
+
+  (is_start(s) || s.strip_prefix('.').map_or(false, is_start))
+    && s.chars().all(|c| {
+      let is_exponent_sign = matches!(c, '+' | '-') && matches!(previous, 'e' | 'E' | 'p' | 'P');
+      previous = c;
+      c == '.' || unicode_ident::is_xid_continue(c) || is_exponent_sign
+    })
+}
+
 fn tokenize_arg_names<'s, 't, T>(arg_names: &'s [T]) -> Result<Vec<Token<'t>>, ExpansionError>
 where
   's: 't,
@@ -268,21 +282,18 @@ impl<'t> Token<'t> {
         // Cannot concatenate anything to a string or char literal.
         return Err(ExpansionError::InvalidConcat)
       },
-      (Self::Punctuation(lhs), Self::Literal(lit, rhs)) => {
-        if lhs == "." {
-          match lit {
-            Lit::String(_) | Lit::Char(_) => return Err(ExpansionError::InvalidConcat),
-            Lit::Int(_) | Lit::Float(_) => {
-              let token = format!("{}{rhs}", lhs.as_str());
-              if let Ok(literal) = Lit::try_from(token.as_str()) {
-                return Ok(Self::Literal(literal.into_static(), Cow::Owned(token)))
-              }
-            },
-          }
-        }
-
-        return Err(ExpansionError::InvalidConcat)
-      },
+      (
+        Self::Punctuation(lhs),
+        Self::IdentifierContinue(IdentifierContinue { id_cont: ref rhs })
+        | Self::Literal(Lit::Int(_) | Lit::Float(_), ref rhs)
+        | Self::Plain(ref rhs),
+      ) => format!("{}{rhs}", lhs.as_str()),
+      (
+        Self::IdentifierContinue(IdentifierContinue { id_cont: lhs })
+        | Self::Literal(Lit::Int(_) | Lit::Float(_), lhs)
+        | Self::Plain(lhs),
+        Self::Punctuation(ref rhs),
+      ) => format!("{lhs}{}", rhs.as_str()),
       (Self::Identifier(mut lhs), Self::Literal(lit, rhs)) => {
         match lit {
           Lit::String(LitString::Ordinary(_)) | Lit::Char(LitChar::Ordinary(_))
@@ -341,8 +352,10 @@ impl<'t> Token<'t> {
       Self::Literal(literal.into_static(), Cow::Owned(new_token))
     } else if let Ok(id_cont) = IdentifierContinue::try_from(new_token.as_ref()) {
       Self::IdentifierContinue(id_cont.into_static())
-    } else {
+    } else if is_pp_number(&new_token) {
       Self::Plain(Cow::Owned(new_token))
+    } else {
+      return Err(ExpansionError::InvalidConcat)
     })
   }
 }
-- 
2.43.0


From 080b1e2d3f1d22f4debc7dedc14493c74b49251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 10/97] fix: keep the order of stringified text and macro
 arguments

---
 src/macro_set/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 6ce3cf0..bfb2f67 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -366,11 +366,23 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
 
   let mut space_before_next = false;
 
-  let mut current_string = None;
+  let mut current_string: Option<String> = None;
+
+  let string_token = |s: String| {
+    let spelling = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
+    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
+  };
 
   for token in it {
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
+        // Keep the order of the text and the tokens which are stringified later.
+        if space_before_next {
+          current_string.get_or_insert(String::new()).push(' ');
+        }
+        tokens.extend(current_string.take().map(string_token));
+        space_before_next = true;
+
         tokens.push(Token::Punctuation(Punctuation { punctuation: "#" }));
         tokens.push(token);
         continue
@@ -391,10 +403,7 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     s.push_str(token)
   }
 
-  tokens.extend(current_string.take().map(|s| {
-    let spelling = format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
-    Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
-  }));
+  tokens.extend(current_string.take().map(string_token));
 
   if tokens.is_empty() {
     return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
-- 
2.43.0


From fc81031b8343e6babda509618ad9a28f61d68ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 11/97] fix: refuse to stringify operators which are not
 replaced yet

The operator itself ended up in the string, silently yielding a wrong template.
---
 src/macro_set/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index bfb2f67..6fdcc10 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -360,8 +360,8 @@ impl<'t> Token<'t> {
   }
 }
 
-fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
-  let it = tokens.into_iter().peekable();
+fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Result<Vec<Token<'_>>, ExpansionError> {
+  let mut it = tokens.into_iter().peekable();
   let mut tokens = vec![];
 
   let mut space_before_next = false;
@@ -373,7 +373,18 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
     Token::Literal(Lit::String(LitString::Ordinary(Cow::Owned(s.into_bytes()))), Cow::Owned(spelling))
   };
 
-  for token in it {
+  while let Some(token) = it.next() {
+    // An operator whose operand is not replaced yet does not have a spelling.
+    let is_arg = |token: Option<&Token<'_>>| matches!(token, Some(Token::MacroArg(_) | Token::VarArgs));
+    match token {
+      Token::Punctuation(ref p)
+        if (p == "#" || p == "##") && is_arg(it.peek()) || p == "##" && is_arg(tokens.last()) =>
+      {
+        return Err(ExpansionError::StringifyNonArgument)
+      },
+      _ => (),
+    }
+
     let token = match token.stringify(nested) {
       StringifyAction::Keep => {
         // Keep the order of the text and the tokens which are stringified later.
@@ -406,10 +417,10 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Vec<Token<'_>> {
   tokens.extend(current_string.take().map(string_token));
 
   if tokens.is_empty() {
-    return vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))]
+    return Ok(vec![Token::Literal(Lit::String(LitString::Ordinary(Cow::Borrowed(&[]))), Cow::Borrowed("\"\""))])
   }
 
-  tokens
+  Ok(tokens)
 }
 
 fn detokenize<'t>(arg_names: &[Token<'t>], tokens: Vec<Token<'t>>) -> Result<Vec<MacroToken<'t>>, ExpansionError> {
@@ -751,7 +762,7 @@ impl MacroSet {
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
-              tokens.extend(stringify(arg, non_replaced_names.len() > 1));
+              tokens.extend(stringify(arg, non_replaced_names.len() > 1)?);
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
               if arg.is_empty() {
-- 
2.43.0


From 6298309804b24f675a7d56ddac1c3c485c4dc4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 12/97] fix: keep variable arguments which are stringified by a
 nested macro

Forwarding `__VA_ARGS__` to a stringifying macro yielded the text `__VA_ARGS__`.
---
 src/macro_set/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 6fdcc10..5d36f88 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -223,14 +223,7 @@ impl<'t> Token<'t> {
     use StringifyAction::*;
 
     match self {
-      Self::MacroArg(_) => Keep,
-      Self::VarArgs => {
-        if nested {
-          Keep
-        } else {
-          Append("__VA_ARGS__")
-        }
-      },
+      Self::MacroArg(_) | Self::VarArgs => Keep,
       Self::Identifier(id) => match id.id.as_ref() {
         "__LINE__" | "__FILE__" if nested => Keep,
         t => Append(t),
-- 
2.43.0


From 19e816c5805375ad3807e5c158b04adca0163abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 13/97] fix: also refuse to stringify unreplaced operators
 passed through another macro

---
 src/macro_set/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 5d36f88..1d73731 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -219,6 +219,14 @@ impl<'t> Token<'t> {
     }
   }
 
+  /// Get the token regardless of whether it will be considered for replacement again.
+  fn inner(&self) -> &Self {
+    match self {
+      Self::NonReplacable(token) => token.inner(),
+      token => token,
+    }
+  }
+
   pub fn stringify(&self, nested: bool) -> StringifyAction<'_> {
     use StringifyAction::*;
 
@@ -369,8 +377,8 @@ fn stringify(tokens: Vec<Token<'_>>, nested: bool) -> Result<Vec<Token<'_>>, Exp
   while let Some(token) = it.next() {
     // An operator whose operand is not replaced yet does not have a spelling.
     let is_arg = |token: Option<&Token<'_>>| matches!(token, Some(Token::MacroArg(_) | Token::VarArgs));
-    match token {
-      Token::Punctuation(ref p)
+    match token.inner() {
+      Token::Punctuation(p)
         if (p == "#" || p == "##") && is_arg(it.peek()) || p == "##" && is_arg(tokens.last()) =>
       {
         return Err(ExpansionError::StringifyNonArgument)
-- 
2.43.0


From 03a78f9f9805ae06500319d9d8b176f4621d0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 14/97] fix: do not count comments for the index of variable
 arguments

---
 src/macro_set/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 1d73731..0fac03e 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -249,7 +249,10 @@ impl<'t> Token<'t> {
   pub fn detokenize(self, arg_names: &[Token<'t>]) -> Result<Option<MacroToken<'t>>, ExpansionError> {
     Ok(Some(match self {
       Self::MacroArg(arg_index) => MacroToken::Arg(MacroArg { index: arg_index }),
-      Self::VarArgs => MacroToken::Arg(MacroArg { index: arg_names.len() - 1 }),
+      Self::VarArgs => {
+        let arg_count = arg_names.iter().filter(|t| !matches!(t, Token::Comment(_))).count();
+        MacroToken::Arg(MacroArg { index: arg_count - 1 })
+      },
       Self::Identifier(id) => MacroToken::Identifier(id),
       Self::IdentifierContinue(id_cont) => MacroToken::IdentifierContinue(id_cont),
       Self::Literal(lit, _) => MacroToken::Lit(lit),
-- 
2.43.0


From 6448b18292be614993217df120502e39557ef764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 15/97] fix: macros of different length are redefinitions

Only the common prefix of both definitions was compared.
---
 src/macro_set/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 0fac03e..0e05d01 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -853,7 +853,7 @@ impl MacroSet {
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
 
-      !old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2)
+      !old_tokens.eq(new_tokens)
     } else {
       self.fn_macros.remove(&name).is_some()
     };
@@ -899,11 +899,11 @@ impl MacroSet {
     let redefined = if let Some((old_args, old_body)) = self.fn_macros.remove(&name) {
       let old_args = old_args.iter().filter(|t| !is_whitespace(t));
       let new_args = args.iter().filter(|t| !is_whitespace(t));
-      let args_equal = old_args.zip(new_args).all(|(old_arg, arg)| old_arg == arg);
+      let args_equal = old_args.eq(new_args);
 
       let old_tokens = old_body.iter().filter(|t| !is_whitespace(t));
       let new_tokens = body.iter().filter(|t| !is_whitespace(t));
-      let tokens_equal = old_tokens.zip(new_tokens).all(|(t1, t2)| t1 == t2);
+      let tokens_equal = old_tokens.eq(new_tokens);
 
       !(args_equal && tokens_equal)
     } else {
-- 
2.43.0


From fe7d028b453df3dfb27df1ab071f9e264e0fc15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 16/97] fix: ignore comments between a macro name and its
 arguments, in arguments and around operators

---
 src/macro_set/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 0e05d01..a57b81a 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -672,6 +672,7 @@ impl MacroSet {
         Some((_, Token::EndOfMacro(name))) => {
           names.remove(name);
         },
+        Some((_, Token::Comment(_))) => (),
         Some((_, Token::Punctuation(p))) if p == "(" => break,
         _ => return None,
       }
@@ -707,6 +708,7 @@ impl MacroSet {
         Token::EndOfMacro(name) => {
           names.remove(name);
         },
+        Token::Comment(_) => (),
         Token::Identifier(ref id) if names.contains(id.id.as_ref()) => {
           current_arg.push(Token::NonReplacable(Box::new(token)))
         },
@@ -728,7 +730,7 @@ impl MacroSet {
   where
     's: 't,
   {
-    let mut it = tokens.iter().cloned().peekable();
+    let mut it = tokens.iter().filter(|t| !matches!(t, Token::Comment(_))).cloned().peekable();
     let mut tokens = vec![];
 
     while let Some(token) = it.next() {
@@ -794,13 +796,16 @@ impl MacroSet {
 
   fn expand_concat(tokens: Vec<Token<'_>>) -> Result<Vec<Token<'_>>, ExpansionError> {
     let mut it = tokens.into_iter().peekable();
-    let mut tokens = vec![];
+    let mut tokens: Vec<Token<'_>> = vec![];
+
+    let is_comment = |t: &Token<'_>| matches!(t, Token::Comment(_));
+    let is_arg = |t: Option<Token<'_>>| matches!(t, Some(Token::MacroArg(_) | Token::VarArgs));
 
     while let Some(token) = it.next() {
       match token {
         Token::Punctuation(Punctuation { punctuation: "##" })
-          if !matches!(tokens.last(), Some(&Token::MacroArg(_) | &Token::VarArgs))
-            && !matches!(it.peek(), Some(&Token::MacroArg(_) | &Token::VarArgs)) =>
+          if !is_arg(tokens.iter().rev().find(|t| !is_comment(t)).cloned())
+            && !is_arg(it.clone().find(|t| !is_comment(t))) =>
         {
           macro_rules! until_no_whitespace {
             ($expr:expr, $error:ident) => {{
-- 
2.43.0


From 8319d934d1e75d3ee1053e87d2f0ae8e1f30509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 17/97] fix: accept universal character names anywhere in an
 identifier

---
 src/ast/identifier.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index f107aec..d65611e 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -3,9 +3,9 @@ use std::{borrow::Cow, fmt::Debug};
 use nom::{
   branch::alt,
   character::complete::{anychar, char, satisfy},
-  combinator::{all_consuming, map, map_opt, recognize, verify},
+  combinator::{all_consuming, map, map_opt, not, recognize, verify},
   multi::{fold_many0, fold_many1},
-  sequence::{pair, preceded},
+  sequence::{pair, preceded, terminated},
   IResult,
 };
 use proc_macro2::{Ident, Span, TokenStream};
@@ -44,10 +44,14 @@ impl<'t> Identifier<'t> {
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
       map(
-        recognize(pair(
-          satisfy(is_identifier_start),
-          fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
-        )),
+        terminated(
+          recognize(pair(
+            satisfy(is_identifier_start),
+            fold_many0(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ()),
+          )),
+          // Universal character names are handled below.
+          not(char('\\')),
+        ),
         |s| Self { id: Cow::Borrowed(s) },
       ),
       |token| {
@@ -104,9 +108,14 @@ impl<'t> IdentifierContinue<'t> {
 
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
     alt((
-      map(recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())), |s| Self {
-        id_cont: Cow::Borrowed(s),
-      }),
+      map(
+        terminated(
+          recognize(fold_many1(satisfy(unicode_ident::is_xid_continue), || (), |_, _| ())),
+          // Universal character names are handled below.
+          not(char('\\')),
+        ),
+        |s| Self { id_cont: Cow::Borrowed(s) },
+      ),
       |token| {
         let identifier_char = alt((map_opt(preceded(char('\\'), universal_char), char::from_u32), anychar));
 
-- 
2.43.0


From 879848e62fa7f8147ef5e9ff84a4d95e5a9b756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 18/97] fix: joining with an empty argument keeps a name
 unavailable for replacement

---
 src/macro_set/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index a57b81a..b8839b1 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -266,10 +266,10 @@ impl<'t> Token<'t> {
 
   pub fn concat(self, other: Self) -> Result<Self, ExpansionError> {
     let new_token = match (self, other) {
-      (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
-      (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
       (Self::Placemarker, rhs) => return Ok(rhs),
       (lhs, Self::Placemarker) => return Ok(lhs),
+      (Token::NonReplacable(lhs), rhs) => return lhs.concat(rhs),
+      (lhs, Token::NonReplacable(rhs)) => return lhs.concat(*rhs),
       (
         Self::Identifier(mut lhs),
         Self::Identifier(Identifier { id: rhs }) | Self::IdentifierContinue(IdentifierContinue { id_cont: rhs }),
-- 
2.43.0


From 8e93dccb601b4badca1f2cc675a59e20e7c3afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 19/97] fix: macro arguments taken from inside a replaced macro
 stay subject to its recursion limit

---
 src/macro_set/mod.rs | 60 +++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index b8839b1..51cacde 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -457,6 +457,21 @@ enum Token<'t> {
   EndOfMacro(&'t str),
 }
 
+/// An argument of a function-like macro call.
+#[derive(Debug, Clone)]
+struct Arg<'t> {
+  /// The names which are not replaced at the beginning of this argument.
+  non_replaced_names: HashSet<&'t str>,
+  /// The tokens of this argument, including the end of macros it extends past.
+  tokens: Vec<Token<'t>>,
+}
+
+impl<'t> Arg<'t> {
+  fn unexpanded(&self) -> Vec<Token<'t>> {
+    self.tokens.iter().filter(|t| !matches!(t, Token::EndOfMacro(_))).cloned().collect()
+  }
+}
+
 impl MacroSet {
   /// Create a new macro set.
   pub fn new() -> Self {
@@ -567,7 +582,7 @@ impl MacroSet {
     mut non_replaced_names: HashSet<&'t str>,
     name: &'t str,
     arg_names: &[Token<'t>],
-    args: Option<&[Vec<Token<'t>>]>,
+    args: Option<&[Arg<'t>]>,
     body: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
@@ -585,7 +600,7 @@ impl MacroSet {
     non_replaced_names: HashSet<&'t str>,
     name: &str,
     arg_names: &[Token<'t>],
-    args: Option<&[Vec<Token<'t>>]>,
+    args: Option<&[Arg<'t>]>,
     body: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
@@ -609,7 +624,7 @@ impl MacroSet {
       } else {
         arg_names.len() == args.len()
           // Allow passing an empty argument for arity 0.
-          || (arg_names.is_empty() && args.len() == 1 && args[0].is_empty())
+          || (arg_names.is_empty() && args.len() == 1 && args[0].unexpanded().is_empty())
       };
 
       if !valid_arg_count {
@@ -655,13 +670,12 @@ impl MacroSet {
     &'s self,
     remaining: &mut VecDeque<Token<'t>>,
     non_replaced_names: &mut HashSet<&'t str>,
-  ) -> Option<Vec<Vec<Token<'t>>>>
+  ) -> Option<Vec<Arg<'t>>>
   where
     's: 't,
   {
     let mut parentheses = 0; // Keep track of parenthesis pairs.
     let mut args = vec![];
-    let mut current_arg = vec![];
 
     // The arguments may extend past the end of macros which are currently being replaced.
     let mut names = non_replaced_names.clone();
@@ -678,6 +692,8 @@ impl MacroSet {
       }
     }
 
+    let mut current_arg = Arg { non_replaced_names: names.clone(), tokens: vec![] };
+
     for (i, token) in it {
       match token {
         Token::Punctuation(p) => {
@@ -685,7 +701,7 @@ impl MacroSet {
             "(" => parentheses += 1,
             ")" => {
               if parentheses == 0 {
-                args.push(mem::take(&mut current_arg));
+                args.push(current_arg);
 
                 remaining.drain(..=i);
                 *non_replaced_names = names;
@@ -696,23 +712,27 @@ impl MacroSet {
             },
             "," => {
               if parentheses == 0 {
-                args.push(mem::take(&mut current_arg));
+                args.push(mem::replace(
+                  &mut current_arg,
+                  Arg { non_replaced_names: names.clone(), tokens: vec![] },
+                ));
                 continue
               }
             },
             _ => (),
           }
 
-          current_arg.push(Token::Punctuation(p));
+          current_arg.tokens.push(Token::Punctuation(p));
         },
         Token::EndOfMacro(name) => {
           names.remove(name);
+          current_arg.tokens.push(token);
         },
         Token::Comment(_) => (),
         Token::Identifier(ref id) if names.contains(id.id.as_ref()) => {
-          current_arg.push(Token::NonReplacable(Box::new(token)))
+          current_arg.tokens.push(Token::NonReplacable(Box::new(token)))
         },
-        token => current_arg.push(token),
+        token => current_arg.tokens.push(token),
       }
     }
 
@@ -724,7 +744,7 @@ impl MacroSet {
     &'s self,
     non_replaced_names: HashSet<&'t str>,
     arg_names: &[Token<'t>],
-    args: &[Vec<Token<'t>>],
+    args: &[Arg<'t>],
     tokens: &[Token<'t>],
   ) -> Result<Vec<Token<'t>>, ExpansionError>
   where
@@ -745,13 +765,15 @@ impl MacroSet {
           let arg = if let Token::MacroArg(arg_index) = token {
             args[arg_index].clone()
           } else {
-            let mut var_args = vec![];
+            let mut var_args = Arg { non_replaced_names: non_replaced_names.clone(), tokens: vec![] };
 
             for (i, arg) in args[(arg_names.len() - 1)..].iter().enumerate() {
-              if i > 0 {
-                var_args.push(Token::Punctuation(Punctuation { punctuation: "," }));
+              if i == 0 {
+                var_args.non_replaced_names = arg.non_replaced_names.clone();
+              } else {
+                var_args.tokens.push(Token::Punctuation(Punctuation { punctuation: "," }));
               }
-              var_args.extend(arg.clone());
+              var_args.tokens.extend(arg.tokens.iter().cloned());
             }
 
             var_args
@@ -768,9 +790,11 @@ impl MacroSet {
           match tokens.last() {
             Some(Token::Punctuation(Punctuation { punctuation: "#" })) => {
               tokens.pop();
-              tokens.extend(stringify(arg, non_replaced_names.len() > 1)?);
+              tokens.extend(stringify(arg.unexpanded(), non_replaced_names.len() > 1)?);
             },
             Some(Token::Punctuation(Punctuation { punctuation: "##" })) => {
+              let arg = arg.unexpanded();
+
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
@@ -778,13 +802,15 @@ impl MacroSet {
               }
             },
             _ if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) => {
+              let arg = arg.unexpanded();
+
               if arg.is_empty() {
                 tokens.push(Token::Placemarker);
               } else {
                 tokens.extend(non_operators(arg));
               }
             },
-            _ => tokens.extend(non_operators(self.expand_macro_body(non_replaced_names.clone(), &arg)?)),
+            _ => tokens.extend(non_operators(self.expand_macro_body(arg.non_replaced_names, &arg.tokens)?)),
           }
         },
         token => tokens.push(token),
-- 
2.43.0


From bd818d04e9f5ec2cdb01a5440d9199faa9d96257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 20/97] fix: hexadecimal escapes have any number of digits and
 a lower-case x

---
 src/ast/literal.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index dbbfbba..ab18e61 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -2,13 +2,12 @@ use std::{fmt::Debug, ops::RangeFrom, str};
 
 use nom::{
   branch::alt,
-  bytes::complete::tag_no_case,
   character::{
     complete::{anychar, char, none_of, one_of},
     is_hex_digit, is_oct_digit,
   },
   combinator::{all_consuming, map, map_opt, value, verify},
-  multi::fold_many_m_n,
+  multi::{fold_many1, fold_many_m_n},
   sequence::preceded,
   AsChar, Compare, FindToken, IResult, InputIter, InputLength, InputTake, Slice,
 };
@@ -156,13 +155,14 @@ where
       |acc, n| acc * 8 + n,
     ),
     preceded(
-      tag_no_case("x"),
-      fold_many_m_n(
-        2,
-        2,
-        map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
-        || 0,
-        |acc, n| acc * 16 + n,
+      char('x'),
+      map_opt(
+        fold_many1(
+          map_opt(verify(anychar, |c| is_hex_digit(*c as u8)), |c| c.to_digit(16)),
+          || Some(0u32),
+          |acc, n| acc?.checked_mul(16)?.checked_add(n),
+        ),
+        |c| c,
       ),
     ),
   ))(input)
-- 
2.43.0


From e9c9bd039b0987b1bfca1968afb79eff342b7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 21/97] fix: distinguish code units from characters in escapes

---
 src/ast/literal.rs        | 26 +++++++++++++++++----
 src/ast/literal/char.rs   | 18 +++++++++-----
 src/ast/literal/string.rs | 49 +++++++++++++++++++++++----------------
 3 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/src/ast/literal.rs b/src/ast/literal.rs
index ab18e61..0a13f16 100644
--- a/src/ast/literal.rs
+++ b/src/ast/literal.rs
@@ -174,7 +174,7 @@ where
   I: Debug + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone,
   <I as InputIter>::Item: AsChar,
 {
-  alt((
+  let universal_char = alt((
     preceded(
       char('u'),
       fold_many_m_n(
@@ -195,17 +195,35 @@ where
         |acc, n| acc * 16 + n,
       ),
     ),
-  ))(input)
+  ));
+
+  verify(universal_char, |c| *c <= 0x10ffff)(input)
+}
+
+/// An escaped character.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) enum EscapedChar {
+  /// A code unit, specified as a number.
+  CodeUnit(u32),
+  /// A character, which may need to be encoded as multiple code units.
+  Char(u32),
 }
 
 /// Parse an escaped character.
-pub(crate) fn escaped_char<I>(input: I) -> IResult<I, u32>
+pub(crate) fn escaped_char<I>(input: I) -> IResult<I, EscapedChar>
 where
   I: Debug + InputTake + InputLength + Slice<RangeFrom<usize>> + InputIter + Clone + Compare<&'static str>,
   <I as InputIter>::Item: AsChar + Copy,
   &'static str: FindToken<<I as InputIter>::Item>,
 {
-  preceded(char('\\'), alt((map(simple_escape_sequence, u32::from), numeric_escape_sequence, universal_char)))(input)
+  preceded(
+    char('\\'),
+    alt((
+      map(simple_escape_sequence, |c| EscapedChar::Char(c.into())),
+      map(numeric_escape_sequence, EscapedChar::CodeUnit),
+      map(universal_char, EscapedChar::Char),
+    )),
+  )(input)
 }
 
 /// Parse an unescaped character.
diff --git a/src/ast/literal/char.rs b/src/ast/literal/char.rs
index 7c19c59..696a4b2 100644
--- a/src/ast/literal/char.rs
+++ b/src/ast/literal/char.rs
@@ -11,7 +11,7 @@ use nom::{
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use super::{escaped_char, unescaped_char};
+use super::{escaped_char, unescaped_char, EscapedChar};
 use crate::{
   ast::tokens::{id, take_one},
   BuiltInType, CodegenContext, Identifier, IdentifierExpr, Lit, LocalContext, MacroToken, Type,
@@ -80,14 +80,20 @@ impl LitChar {
     map_opt(pair(opt(LitCharPrefix::parse), Self::parse_unprefixed), |(prefix, c)| Self::with_prefix(prefix, c))(input)
   }
 
-  fn parse_unprefixed(input: &str) -> IResult<&str, u32> {
-    delimited(char('\''), alt((escaped_char, map(unescaped_char, u32::from))), char('\''))(input)
+  fn parse_unprefixed(input: &str) -> IResult<&str, EscapedChar> {
+    delimited(char('\''), alt((escaped_char, map(unescaped_char, |c| EscapedChar::Char(c.into())))), char('\''))(input)
   }
 
-  fn with_prefix(prefix: Option<LitCharPrefix>, c: u32) -> Option<Self> {
+  fn with_prefix(prefix: Option<LitCharPrefix>, c: EscapedChar) -> Option<Self> {
+    // A character has to be encoded as a single UTF-8 code unit, but a code unit can have any value.
+    let (c, max_utf8) = match c {
+      EscapedChar::CodeUnit(c) => (c, 0xff),
+      EscapedChar::Char(c) => (c, 0x7f),
+    };
+
     match prefix {
       None if c <= 0xff => Some(LitChar::Ordinary(c as u8)),
-      Some(LitCharPrefix::Utf8) if c <= 0x7f => Some(LitChar::Utf8(c as u8)),
+      Some(LitCharPrefix::Utf8) if c <= max_utf8 => Some(LitChar::Utf8(c as u8)),
       Some(LitCharPrefix::Utf16) if c <= u16::MAX as u32 => Some(LitChar::Utf16(c as u16)),
       Some(LitCharPrefix::Utf32) => Some(LitChar::Utf32(c)),
       Some(LitCharPrefix::Wide) => Some(LitChar::Wide(c)),
@@ -107,7 +113,7 @@ impl LitChar {
             value(LitCharPrefix::Wide, id("L")),
           )),
           map_opt(take_one, |token| match token {
-            MacroToken::Lit(Lit::Char(LitChar::Ordinary(c))) => Some(u32::from(*c)),
+            MacroToken::Lit(Lit::Char(LitChar::Ordinary(c))) => Some(EscapedChar::Char(u32::from(*c))),
             _ => None,
           }),
         ),
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index d35aa59..1db68cb 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -28,7 +28,7 @@ use crate::ast::{
   Identifier,
 };
 
-use super::escaped_char;
+use super::{escaped_char, EscapedChar};
 
 /// A string literal.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -72,15 +72,12 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
-          map_opt(escaped_char, |c| {
-            if let Ok(c) = u8::try_from(c) {
-              Some(Cow::Owned(vec![c]))
-            } else if let Ok(c) = char::try_from(c) {
+          map_opt(escaped_char, |c| match c {
+            EscapedChar::CodeUnit(c) => Some(Cow::Owned(vec![u8::try_from(c).ok()?])),
+            EscapedChar::Char(c) => {
               let mut s = [0; 4];
-              Some(Cow::Owned(c.encode_utf8(&mut s).as_bytes().to_vec()))
-            } else {
-              None
-            }
+              Some(Cow::Owned(char::try_from(c).ok()?.encode_utf8(&mut s).as_bytes().to_vec()))
+            },
           }),
           map(is_not("\\\"\n"), |b: &str| Cow::Borrowed(b.as_bytes())),
         )),
@@ -127,15 +124,16 @@ impl<'t> LitString<'t> {
         char('\"'),
         fold_many0(
           alt((
-            map_opt(escaped_char, |c| {
-              if let Ok(c) = u16::try_from(c) {
-                Some(Part::Vec(vec![c]))
-              } else if let Ok(c) = char::try_from(c) {
-                let mut s = [0; 2];
-                Some(Part::Vec(c.encode_utf16(&mut s).to_vec()))
-              } else {
-                None
-              }
+            map_opt(escaped_char, |c| match c {
+              EscapedChar::CodeUnit(c) => Some(Part::Vec(vec![u16::try_from(c).ok()?])),
+              EscapedChar::Char(c) => {
+                if let Ok(c) = u16::try_from(c) {
+                  Some(Part::Vec(vec![c]))
+                } else {
+                  let mut s = [0; 2];
+                  Some(Part::Vec(char::try_from(c).ok()?.encode_utf16(&mut s).to_vec()))
+                }
+              },
             }),
             map(is_not("\\\"\n"), |s: &str| Part::String(Cow::Borrowed(s))),
           )),
@@ -174,7 +172,9 @@ impl<'t> LitString<'t> {
       char('\"'),
       fold_many0(
         alt((
-          map_res(escaped_char, |c| char::try_from(c).map(Part::Char)),
+          map_res(escaped_char, |c| match c {
+            EscapedChar::CodeUnit(c) | EscapedChar::Char(c) => char::try_from(c).map(Part::Char),
+          }),
           map(is_not("\\\"\n"), |s| Part::String(Cow::Borrowed(s))),
         )),
         || Cow::Borrowed(""),
@@ -198,7 +198,16 @@ impl<'t> LitString<'t> {
   }
 
   fn parse_wide(input: &str) -> IResult<&str, Vec<u32>> {
-    delimited(char('\"'), many0(alt((escaped_char, map(none_of("\\\"\n"), u32::from)))), char('\"'))(input)
+    delimited(
+      char('\"'),
+      many0(alt((
+        map(escaped_char, |c| match c {
+          EscapedChar::CodeUnit(c) | EscapedChar::Char(c) => c,
+        }),
+        map(none_of("\\\"\n"), u32::from),
+      ))),
+      char('\"'),
+    )(input)
   }
 
   pub(crate) fn parse_str(input: &'t str) -> IResult<&'t str, Self> {
-- 
2.43.0


From d665d9e56c471bba317a5152dbca231ccbe81c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 22/97] fix: join strings regardless of which of them has a
 prefix

---
 src/ast/literal/string.rs | 179 +++++++++++++-------------------------
 1 file changed, 59 insertions(+), 120 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 1db68cb..9323203 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -10,7 +10,7 @@ use nom::{
   branch::alt,
   bytes::complete::{is_not, tag},
   character::complete::{char, none_of},
-  combinator::{all_consuming, map, map_opt, map_res, opt},
+  combinator::{all_consuming, map, map_opt, map_res, verify},
   multi::{fold_many0, many0},
   sequence::{delimited, preceded},
   IResult,
@@ -222,126 +222,65 @@ impl<'t> LitString<'t> {
 
   /// Parse a string literal.
   pub fn parse<'i>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    let (input, s) =
-      map_opt(take_one, |token| if let MacroToken::Lit(Lit::String(s)) = token { Some(s.clone()) } else { None })(
-        input,
-      )?;
+    fn string<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'i LitString<'t>> {
+      map_opt(take_one, |token| if let MacroToken::Lit(Lit::String(s)) = token { Some(s) } else { None })(input)
+    }
 
-    match s {
-      Self::Ordinary(bytes) => map(
-        fold_many0(
-          map_opt(take_one, |token| match token {
-            MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => Some(Cow::Borrowed(bytes.as_ref())),
-            _ => None,
-          }),
-          move || bytes.clone(),
-          |mut acc, bytes| {
-            acc.to_mut().extend(bytes.as_ref());
-            acc
-          },
-        ),
-        Self::Ordinary,
-      )(input),
-      Self::Utf8(s) => map(
-        fold_many0(
-          alt((
-            map_opt(take_one, |token| match token {
-              MacroToken::Lit(Lit::String(LitString::Utf8(s))) => Some(Cow::Borrowed(s.as_ref())),
-              _ => None,
-            }),
-            preceded(
-              opt(id("u8")),
-              map_opt(take_one, |token| match token {
-                MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Borrowed(str::from_utf8(bytes.as_ref()).ok()?))
-                },
-                _ => None,
-              }),
-            ),
-          )),
-          move || s.clone(),
-          |mut acc, s| {
-            acc.to_mut().push_str(s.as_ref());
-            acc
-          },
-        ),
-        Self::Utf8,
-      )(input),
-      Self::Utf16(s) => map(
-        fold_many0(
-          alt((
-            map_opt(take_one, |token| match token {
-              MacroToken::Lit(Lit::String(LitString::Utf16(s))) => Some(Cow::Borrowed(s.as_ref())),
-              _ => None,
-            }),
-            preceded(
-              opt(id("u")),
-              map_opt(take_one, |token| match token {
-                MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Borrowed(str::from_utf8(bytes.as_ref()).ok()?))
-                },
-                _ => None,
-              }),
-            ),
-          )),
-          move || s.clone(),
-          |mut acc, s| {
-            acc.to_mut().push_str(s.as_ref());
-            acc
-          },
-        ),
-        Self::Utf16,
-      )(input),
-      Self::Utf32(s) => map(
-        fold_many0(
-          alt((
-            map_opt(take_one, |token| match token {
-              MacroToken::Lit(Lit::String(LitString::Utf32(s))) => Some(Cow::Borrowed(s.as_ref())),
-              _ => None,
-            }),
-            preceded(
-              opt(id("U")),
-              map_opt(take_one, |token| match token {
-                MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Borrowed(str::from_utf8(bytes.as_ref()).ok()?))
-                },
-                _ => None,
-              }),
-            ),
-          )),
-          move || s.clone(),
-          |mut acc, s| {
-            acc.to_mut().push_str(&s);
-            acc
-          },
-        ),
-        Self::Utf32,
-      )(input),
-      Self::Wide(words) => map(
-        fold_many0(
-          alt((
-            map_opt(take_one, |token| match token {
-              MacroToken::Lit(Lit::String(LitString::Wide(words))) => Some(Cow::Borrowed(words)),
-              _ => None,
-            }),
-            preceded(
-              opt(id("L")),
-              map_opt(take_one, |token| match token {
-                MacroToken::Lit(Lit::String(LitString::Ordinary(bytes))) => {
-                  Some(Cow::Owned(bytes.as_ref().iter().map(|b| u32::from(*b)).collect::<Vec<_>>()))
-                },
-                _ => None,
-              }),
-            ),
-          )),
-          move || words.clone(),
-          |mut acc, words| {
-            acc.extend(words.as_ref());
-            acc
-          },
-        ),
-        Self::Wide,
-      )(input),
+    let (mut input, mut s) = map(string, |s| s.clone())(input)?;
+
+    loop {
+      let prefix = match s {
+        Self::Ordinary(_) => None,
+        Self::Utf8(_) => Some("u8"),
+        Self::Utf16(_) => Some("u"),
+        Self::Utf32(_) => Some("U"),
+        Self::Wide(_) => Some("L"),
+      };
+
+      let res = if let Some(prefix) = prefix {
+        alt((string, preceded(id(prefix), verify(string, |s| matches!(s, Self::Ordinary(_))))))(input)
+      } else {
+        string(input)
+      };
+
+      // Adjacent strings are joined if they have the same prefix or if only one of them has a prefix.
+      match res.ok().and_then(|(rest, next)| Some((rest, s.join(next)?))) {
+        Some((rest, joined)) => {
+          input = rest;
+          s = joined;
+        },
+        None => return Ok((input, s)),
+      }
+    }
+  }
+
+  fn join(&self, other: &LitString<'t>) -> Option<LitString<'t>> {
+    fn concat<'t>(a: &str, b: &str) -> Cow<'t, str> {
+      Cow::Owned(format!("{a}{b}"))
+    }
+
+    Some(match (self, other) {
+      (Self::Ordinary(a), Self::Ordinary(b)) => Self::Ordinary(Cow::Owned([a.as_ref(), b.as_ref()].concat())),
+      (Self::Utf8(a), Self::Utf8(b)) => Self::Utf8(concat(a, b)),
+      (Self::Utf8(a), b @ Self::Ordinary(_)) => Self::Utf8(concat(a, b.as_str()?)),
+      (a @ Self::Ordinary(_), Self::Utf8(b)) => Self::Utf8(concat(a.as_str()?, b)),
+      (Self::Utf16(a), Self::Utf16(b)) => Self::Utf16(concat(a, b)),
+      (Self::Utf16(a), b @ Self::Ordinary(_)) => Self::Utf16(concat(a, b.as_str()?)),
+      (a @ Self::Ordinary(_), Self::Utf16(b)) => Self::Utf16(concat(a.as_str()?, b)),
+      (Self::Utf32(a), Self::Utf32(b)) => Self::Utf32(concat(a, b)),
+      (Self::Utf32(a), b @ Self::Ordinary(_)) => Self::Utf32(concat(a, b.as_str()?)),
+      (a @ Self::Ordinary(_), Self::Utf32(b)) => Self::Utf32(concat(a.as_str()?, b)),
+      (Self::Wide(a), Self::Wide(b)) => Self::Wide([a.as_slice(), b.as_slice()].concat()),
+      (Self::Wide(a), Self::Ordinary(b)) => Self::Wide([a.clone(), Self::widen(b)].concat()),
+      (Self::Ordinary(a), Self::Wide(b)) => Self::Wide([Self::widen(a), b.clone()].concat()),
+      _ => return None,
+    })
+  }
+
+  fn widen(bytes: &[u8]) -> Vec<u32> {
+    match str::from_utf8(bytes) {
+      Ok(s) => s.chars().map(u32::from).collect(),
+      Err(_) => bytes.iter().map(|b| u32::from(*b)).collect(),
     }
   }
 
-- 
2.43.0


From 476efbd5ed67800f716080d52b66e3ec09041de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 23/97] fix: digits 8 and 9 are not part of octal integer
 literals

---
 src/ast/literal/int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index dd632a2..ffedf6e 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -122,6 +122,7 @@ impl LitInt {
       map_opt(preceded(tag_no_case("0x"), hex_digit1), Self::parse_i128(16)),
       map_opt(preceded(tag_no_case("0b"), is_a("01")), Self::parse_i128(2)),
       map_opt(preceded(tag("0"), oct_digit1), Self::parse_i128(8)),
+      value(0, tag("0")),
       map_opt(digit1, Self::parse_i128(10)),
     ));
 
-- 
2.43.0


From 21d4a8758e9dae9a05cb7f36d071c78f83498f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 24/97] fix: wide characters which do not fit a signed
 `wchar_t` overflow their literal

---
 src/ast/literal/string.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 9323203..e8f772e 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -427,8 +427,16 @@ impl<'t> LitString<'t> {
         }
       },
       Self::Wide(s) => {
-        let wchars =
-          s.iter().cloned().chain(iter::once(0)).map(proc_macro2::Literal::u32_unsuffixed).collect::<Vec<_>>();
+        let wchars = s
+          .iter()
+          .cloned()
+          .chain(iter::once(0))
+          .map(|c| match i32::try_from(c) {
+            Ok(c) => proc_macro2::Literal::i32_unsuffixed(c),
+            // Does not fit `wchar_t` if it is signed.
+            Err(_) => proc_macro2::Literal::u32_suffixed(c),
+          })
+          .collect::<Vec<_>>();
 
         let wchar_ty = if let Some(ty) = ctx.resolve_ty("wchar_t") {
           Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).unwrap().to_token_stream(ctx)
-- 
2.43.0


From 9d2ebd9ad64380f6e041c12ec7aa6b2f8b112175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 25/97] fix: do not parse a parenthesized argument followed by
 an operator as a cast

---
 src/ast/expr.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 3f7f5d2..5451bd8 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -2,7 +2,7 @@ use std::{borrow::Cow, fmt::Debug};
 
 use nom::{
   branch::alt,
-  combinator::{map, map_res, value},
+  combinator::{map, map_res, not, peek, value},
   multi::{fold_many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -148,9 +148,30 @@ impl<'t> Expr<'t> {
     )(tokens)
   }
 
+  /// Parse the parenthesized type of a cast.
+  fn parse_cast_type<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
+    let (tokens, ty) = terminated(parenthesized(Type::parse), meta)(tokens)?;
+
+    // Handle ambiguous cast vs. binary or postfix operation, e.g. `(ty)-1` vs `(arg) - 1`. Arguments cannot be
+    // resolved as a type, so these are always treated as the operand.
+    if matches!(ty, Type::Identifier { name: IdentifierExpr::Arg(_) | IdentifierExpr::Concat(_), is_struct: false }) {
+      let binary_or_unary_op = |input| alt((punct("+"), punct("-"), punct("*"), punct("&")))(input);
+      let postfix_or_prefix_op = |input| alt((punct("++"), punct("--")))(input);
+
+      not(binary_or_unary_op)(tokens)?;
+
+      if let Ok((operand, _)) = terminated(postfix_or_prefix_op, meta)(tokens) {
+        // A prefix operator must be followed by its operand.
+        peek(Self::parse_term_prec1)(operand)?;
+      }
+    }
+
+    Ok((tokens, ty))
+  }
+
   fn parse_term_prec2<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     alt((
-      map(pair(parenthesized(Type::parse), Self::parse_term_prec2), |(ty, term)| {
+      map(pair(Self::parse_cast_type, Self::parse_term_prec2), |(ty, term)| {
         Self::Cast(Cast { ty, expr: Box::new(term) })
       }),
       map(
-- 
2.43.0


From 92c9f07cdcff12bc562cdfe1d75d9c2dd1b693f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 26/97] fix: generate every compound assignment with its own
 operator and value

---
 src/ast/binary_expr.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e307559..8b86cb7 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -109,6 +109,23 @@ impl BinaryOp {
     }
   }
 
+  /// The operation performed by a compound assignment.
+  pub(crate) const fn compound_op(&self) -> Option<Self> {
+    Some(match self {
+      Self::AddAssign => Self::Add,
+      Self::SubAssign => Self::Sub,
+      Self::MulAssign => Self::Mul,
+      Self::DivAssign => Self::Div,
+      Self::RemAssign => Self::Rem,
+      Self::ShlAssign => Self::Shl,
+      Self::ShrAssign => Self::Shr,
+      Self::BitAndAssign => Self::BitAnd,
+      Self::BitXorAssign => Self::BitXor,
+      Self::BitOrAssign => Self::BitOr,
+      _ => return None,
+    })
+  }
+
   pub(crate) const fn is_assignment(&self) -> bool {
     matches!(
       self,
@@ -309,6 +326,11 @@ impl<'t> BinaryExpr<'t> {
       BinaryOp::Assign
       | BinaryOp::AddAssign
       | BinaryOp::SubAssign
+      | BinaryOp::MulAssign
+      | BinaryOp::DivAssign
+      | BinaryOp::RemAssign
+      | BinaryOp::ShlAssign
+      | BinaryOp::ShrAssign
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
@@ -317,11 +339,16 @@ impl<'t> BinaryExpr<'t> {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
               let lhs_ptr = expr.to_token_stream(ctx);
 
-              let value = if self.op == BinaryOp::Assign {
-                quote! { #rhs }
-              } else {
+              let value = if let Some(op) = self.op.compound_op() {
+                let (prec, _) = op.precedence();
+                if rhs_prec >= prec {
+                  rhs = quote! { (#rhs) };
+                }
+
                 let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #rhs }
+                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+              } else {
+                quote! { #rhs }
               };
 
               let prefix = ctx.trait_prefix().into_iter();
-- 
2.43.0


From 62c12851ee7e69fd185f09a3aebab1e53ad1473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 27/97] fix: generate logical negation as a comparison with
 zero

---
 src/ast/expr.rs       | 6 +++++-
 src/ast/unary_expr.rs | 3 +--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 5451bd8..e9d3ef8 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -559,8 +559,9 @@ impl<'t> Expr<'t> {
               LitFloat::LongDouble(f) => LitFloat::LongDouble(-f),
             }));
           },
-          (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, suffix: None }))) => {
+          (UnaryOp::Not, Self::Literal(Lit::Int(LitInt { value: i, .. }))) => {
             *self = Self::Literal(Lit::Int(LitInt { value: (*i == 0).into(), suffix: None }));
+            return Ok(None)
           },
           (UnaryOp::Not, Self::Literal(Lit::Float(f))) => {
             *self = Self::Literal(Lit::Int(LitInt {
@@ -571,6 +572,7 @@ impl<'t> Expr<'t> {
               } as i128,
               suffix: None,
             }));
+            return Ok(None)
           },
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
@@ -584,6 +586,8 @@ impl<'t> Expr<'t> {
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
+
+            return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 2e81c6c..00a94d1 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -71,7 +71,6 @@ impl<'t> UnaryExpr<'t> {
     let ty = self.expr.finish(ctx)?;
 
     match self.op {
-      UnaryOp::Not => Ok(Some(Type::BuiltIn(BuiltInType::Bool))),
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
         if ctx.is_variable_macro() {
-- 
2.43.0


From 332f6bb33796eec5c6b8ac20dc8075ea74902324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 28/97] fix: drop unary plus, which Rust does not have

---
 src/ast/unary_expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 00a94d1..9c22099 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -208,7 +208,8 @@ impl<'t> UnaryExpr<'t> {
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Plus => format!("+{expr}").parse::<TokenStream>().unwrap(),
+      // Rust does not have a unary plus operator.
+      UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         match &*self.expr {
-- 
2.43.0


From 5aa1eafbe3c507c76850bb301fc7ea3a8b3c1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 29/97] fix: parenthesize the pointer in generated pointer
 arithmetic

---
 src/ast/unary_expr.rs | 59 ++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 9c22099..6d1e0ac 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -93,6 +93,36 @@ impl<'t> UnaryExpr<'t> {
     tokens.append_all(self.to_token_stream(ctx))
   }
 
+  /// Generate a pointer expression such that a method can be called on it.
+  fn pointer_to_token_stream<C: CodegenContext>(expr: &Expr<'t>, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    match expr {
+      Expr::Binary(BinaryExpr { lhs, op: op @ (BinaryOp::Add | BinaryOp::Sub), rhs }) => {
+        let (pointer, offset) = match (&**lhs, op) {
+          // The pointer is on the right side, e.g. `1 + ptr`.
+          (Expr::Literal(_), BinaryOp::Add) => (rhs, lhs),
+          _ => (lhs, rhs),
+        };
+        let pointer = Self::pointer_to_token_stream(pointer, ctx);
+        let offset = offset.to_token_stream(ctx);
+
+        match op {
+          BinaryOp::Add => quote! { #pointer.add(#offset) },
+          _ => quote! { #pointer.sub(#offset) },
+        }
+      },
+      expr => {
+        let raw_expr = expr.to_token_stream(ctx);
+        let (prec, _) = expr.precedence();
+
+        if prec > 1 {
+          quote! { (#raw_expr) }
+        } else {
+          raw_expr
+        }
+      },
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let (prec, _) = self.precedence();
     let (expr_prec, _) = self.expr.precedence();
@@ -219,32 +249,19 @@ impl<'t> UnaryExpr<'t> {
               return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
             }
           },
-          Expr::Binary(BinaryExpr { lhs, op, rhs }) => {
-            let raw_lhs = lhs.to_token_stream(ctx);
-            let raw_rhs = rhs.to_token_stream(ctx);
-
-            let (lhs_prec, _) = lhs.precedence();
-
-            let lhs = if lhs_prec > prec || lhs_prec > 1 {
-              quote! { (#raw_lhs) }
-            } else {
-              raw_lhs
-            };
-
-            match op {
-              BinaryOp::Add => return quote! { *#lhs.add(#raw_rhs) },
-              BinaryOp::Sub => return quote! { *#lhs.sub(#raw_rhs) },
-              _ => (),
-            }
+          Expr::Binary(BinaryExpr { op: BinaryOp::Add | BinaryOp::Sub, .. }) => {
+            let pointer = Self::pointer_to_token_stream(&self.expr, ctx);
+            return quote! { *#pointer }
           },
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
+            let pointer = Self::pointer_to_token_stream(expr, ctx);
 
             match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #raw_expr.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #raw_expr.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #raw_expr.sub(1); prev } },
+              UnaryOp::Inc => return quote! { *{ #raw_expr = #pointer.add(1); #raw_expr } },
+              UnaryOp::Dec => return quote! { *{ #raw_expr = #pointer.sub(1); #raw_expr } },
+              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #pointer.add(1); prev } },
+              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #pointer.sub(1); prev } },
               _ => (),
             }
           },
-- 
2.43.0


From dc704646dc7ce3626b4ed335d0c84c3c2cfd1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 30/97] fix: do not capture variables in temporaries of
 generated code

---
 src/ast/binary_expr.rs |  9 +++++----
 src/ast/unary_expr.rs  | 41 ++++++++++++++++++++++++-----------------
 src/codegen/mod.rs     | 19 +++++++++++++++++++
 3 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 8b86cb7..52724ab 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -3,7 +3,7 @@ use std::fmt::Debug;
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext, MacroArgType};
+use crate::{codegen::fresh_ident, CodegenContext, LocalContext, MacroArgType};
 
 use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
 
@@ -352,11 +352,12 @@ impl<'t> BinaryExpr<'t> {
               };
 
               let prefix = ctx.trait_prefix().into_iter();
+              let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
+                  let #name = #value;
+                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
+                  #name
                 }
               }
             }
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 6d1e0ac..d7b6e9b 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -1,7 +1,7 @@
 use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
-use crate::{CodegenContext, LocalContext};
+use crate::{codegen::fresh_ident, CodegenContext, LocalContext};
 
 use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
 
@@ -148,11 +148,12 @@ impl<'t> UnaryExpr<'t> {
               };
 
               let prefix = ctx.trait_prefix().into_iter();
+              let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
+                  let #name = #value;
+                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
+                  #name
                 }
               }
             }
@@ -173,11 +174,12 @@ impl<'t> UnaryExpr<'t> {
               };
 
               let prefix = ctx.trait_prefix().into_iter();
+              let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value);
-                  value
+                  let #name = #value;
+                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
+                  #name
                 }
               }
             }
@@ -198,18 +200,20 @@ impl<'t> UnaryExpr<'t> {
               };
 
               let prefix = ctx.trait_prefix().into_iter();
+              let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value + 1);
-                  value
+                  let #name = #value;
+                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name + 1);
+                  #name
                 }
               }
             }
           }
         }
 
-        quote! { { let prev = #raw_expr; #raw_expr += 1; prev } }
+        let prev = fresh_ident("prev", &[&raw_expr]);
+        quote! { { let #prev = #raw_expr; #raw_expr += 1; #prev } }
       },
       UnaryOp::PostDec => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
@@ -223,18 +227,20 @@ impl<'t> UnaryExpr<'t> {
               };
 
               let prefix = ctx.trait_prefix().into_iter();
+              let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
-                  let value = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, value - 1);
-                  value
+                  let #name = #value;
+                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name - 1);
+                  #name
                 }
               }
             }
           }
         }
 
-        quote! { { let prev = #raw_expr; #raw_expr -= 1; prev } }
+        let prev = fresh_ident("prev", &[&raw_expr]);
+        quote! { { let #prev = #raw_expr; #raw_expr -= 1; #prev } }
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
@@ -256,12 +262,13 @@ impl<'t> UnaryExpr<'t> {
           Expr::Unary(UnaryExpr { op, expr }) => {
             let raw_expr = expr.to_token_stream(ctx);
             let pointer = Self::pointer_to_token_stream(expr, ctx);
+            let prev = fresh_ident("prev", &[&raw_expr]);
 
             match op {
               UnaryOp::Inc => return quote! { *{ #raw_expr = #pointer.add(1); #raw_expr } },
               UnaryOp::Dec => return quote! { *{ #raw_expr = #pointer.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let prev = #raw_expr; #raw_expr = #pointer.add(1); prev } },
-              UnaryOp::PostDec => return quote! { *{ let prev = #raw_expr; #raw_expr = #pointer.sub(1); prev } },
+              UnaryOp::PostInc => return quote! { *{ let #prev = #raw_expr; #raw_expr = #pointer.add(1); #prev } },
+              UnaryOp::PostDec => return quote! { *{ let #prev = #raw_expr; #raw_expr = #pointer.sub(1); #prev } },
               _ => (),
             }
           },
diff --git a/src/codegen/mod.rs b/src/codegen/mod.rs
index abd96ae..c3875ce 100644
--- a/src/codegen/mod.rs
+++ b/src/codegen/mod.rs
@@ -1,3 +1,4 @@
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::quote;
 
 use crate::{CodegenContext, LocalContext};
@@ -30,3 +31,21 @@ pub(crate) fn quote_c_char_ptr<C: CodegenContext>(
     }
   }
 }
+
+/// Create an identifier for a generated variable which is not used in any of the given tokens.
+pub(crate) fn fresh_ident(name: &str, tokens: &[&TokenStream]) -> Ident {
+  fn contains_ident(tokens: TokenStream, name: &str) -> bool {
+    tokens.into_iter().any(|token| match token {
+      TokenTree::Ident(id) => id == name,
+      TokenTree::Group(group) => contains_ident(group.stream(), name),
+      _ => false,
+    })
+  }
+
+  let mut name = name.to_owned();
+  while tokens.iter().any(|tokens| contains_ident((*tokens).clone(), &name)) {
+    name.push('_');
+  }
+
+  Ident::new(&name, Span::call_site())
+}
-- 
2.43.0


From 5efed139fac255b3508e7409eaeefc3ab59128db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 31/97] fix: evaluate the side effects of an assigned place
 once

---
 src/ast/binary_expr.rs |  6 +++--
 src/ast/expr.rs        | 56 +++++++++++++++++++++++++++++++++++++++++-
 src/ast/unary_expr.rs  | 37 +++++++++++++++++-----------
 3 files changed, 82 insertions(+), 17 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 52724ab..6afba1f 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -337,7 +337,7 @@ impl<'t> BinaryExpr<'t> {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
           if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
+              let (let_ptr, lhs_ptr) = expr.to_pointer(&[&rhs], ctx);
 
               let value = if let Some(op) = self.op.compound_op() {
                 let (prec, _) = op.precedence();
@@ -355,6 +355,7 @@ impl<'t> BinaryExpr<'t> {
               let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
+                  #let_ptr
                   let #name = #value;
                   #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
                   #name
@@ -364,7 +365,8 @@ impl<'t> BinaryExpr<'t> {
           }
         }
 
-        quote! { { #lhs #op #rhs; #lhs } }
+        let (let_place, lhs) = self.lhs.to_place(&[&rhs], ctx);
+        quote! { { #let_place #lhs #op #rhs; #lhs } }
       },
       op => {
         if lhs_parens {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index e9d3ef8..f6f56ac 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -11,7 +11,9 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
-use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroToken};
+use crate::{
+  codegen::{fresh_ident, quote_c_char_ptr},
+  CodegenContext, LocalContext, MacroToken};
 
 /// An expression.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -681,6 +683,58 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if evaluating this expression more than once may be observable.
+  fn has_side_effects(&self) -> bool {
+    match self {
+      Self::Var(_) | Self::Literal(_) | Self::Stringify(_) | Self::ConcatString(_) | Self::SizeOf(_) => false,
+      Self::FunctionCall(_) => true,
+      Self::Cast(cast) => cast.expr.has_side_effects(),
+      Self::Unary(expr) => {
+        matches!(expr.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec)
+          || expr.expr.has_side_effects()
+      },
+      Self::Binary(expr) => {
+        expr.op.is_assignment() || expr.lhs.has_side_effects() || expr.rhs.has_side_effects()
+      },
+      Self::Ternary(expr) => {
+        expr.condition.has_side_effects() || expr.if_branch.has_side_effects() || expr.else_branch.has_side_effects()
+      },
+    }
+  }
+
+  /// Generate this expression such that it can be repeated as a place, after the returned statement, if any.
+  pub(crate) fn to_place<C: CodegenContext>(
+    &self,
+    used: &[&TokenStream],
+    ctx: &mut LocalContext<'_, 't, C>,
+  ) -> (Option<TokenStream>, TokenStream) {
+    let expr = self.to_token_stream(ctx);
+
+    if !self.has_side_effects() {
+      return (None, expr)
+    }
+
+    let place = fresh_ident("place", used);
+    let trait_prefix = ctx.trait_prefix().into_iter();
+    (Some(quote! { let #place = #(#trait_prefix::)*ptr::addr_of_mut!(#expr); }), quote! { *#place })
+  }
+
+  /// Generate this pointer expression such that it can be repeated, after the returned statement, if any.
+  pub(crate) fn to_pointer<C: CodegenContext>(
+    &self,
+    used: &[&TokenStream],
+    ctx: &mut LocalContext<'_, 't, C>,
+  ) -> (Option<TokenStream>, TokenStream) {
+    let expr = self.to_token_stream(ctx);
+
+    if !self.has_side_effects() {
+      return (None, expr)
+    }
+
+    let pointer = fresh_ident("pointer", used);
+    (Some(quote! { let #pointer = #expr; }), quote! { #pointer })
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     match self {
       Self::Cast(cast) => cast.to_tokens(ctx, tokens),
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index d7b6e9b..c02725f 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -140,7 +140,7 @@ impl<'t> UnaryExpr<'t> {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
           if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
+              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
               let value = {
@@ -151,6 +151,7 @@ impl<'t> UnaryExpr<'t> {
               let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
+                  #let_ptr
                   let #name = #value;
                   #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
                   #name
@@ -160,13 +161,14 @@ impl<'t> UnaryExpr<'t> {
           }
         }
 
-        quote! { { #raw_expr += 1; #raw_expr } }
+        let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
+        quote! { { #let_place #raw_expr += 1; #raw_expr } }
       },
       UnaryOp::Dec => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
           if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
+              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
               let value = {
@@ -177,6 +179,7 @@ impl<'t> UnaryExpr<'t> {
               let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
+                  #let_ptr
                   let #name = #value;
                   #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
                   #name
@@ -186,13 +189,14 @@ impl<'t> UnaryExpr<'t> {
           }
         }
 
-        quote! { { #raw_expr -= 1; #raw_expr } }
+        let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
+        quote! { { #let_place #raw_expr -= 1; #raw_expr } }
       },
       UnaryOp::PostInc => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
           if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
+              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
               let value = {
@@ -203,6 +207,7 @@ impl<'t> UnaryExpr<'t> {
               let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
+                  #let_ptr
                   let #name = #value;
                   #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name + 1);
                   #name
@@ -212,14 +217,15 @@ impl<'t> UnaryExpr<'t> {
           }
         }
 
+        let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
         let prev = fresh_ident("prev", &[&raw_expr]);
-        quote! { { let #prev = #raw_expr; #raw_expr += 1; #prev } }
+        quote! { { #let_place let #prev = #raw_expr; #raw_expr += 1; #prev } }
       },
       UnaryOp::PostDec => {
         if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
           if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
             if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let lhs_ptr = expr.to_token_stream(ctx);
+              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
 
               let prefix = ctx.trait_prefix().into_iter();
               let value = {
@@ -230,6 +236,7 @@ impl<'t> UnaryExpr<'t> {
               let name = fresh_ident("value", &[&lhs_ptr]);
               return quote! {
                 {
+                  #let_ptr
                   let #name = #value;
                   #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name - 1);
                   #name
@@ -239,8 +246,9 @@ impl<'t> UnaryExpr<'t> {
           }
         }
 
+        let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
         let prev = fresh_ident("prev", &[&raw_expr]);
-        quote! { { let #prev = #raw_expr; #raw_expr -= 1; #prev } }
+        quote! { { #let_place let #prev = #raw_expr; #raw_expr -= 1; #prev } }
       },
       UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
@@ -260,15 +268,16 @@ impl<'t> UnaryExpr<'t> {
             return quote! { *#pointer }
           },
           Expr::Unary(UnaryExpr { op, expr }) => {
-            let raw_expr = expr.to_token_stream(ctx);
-            let pointer = Self::pointer_to_token_stream(expr, ctx);
+            let (let_place, raw_expr) = expr.to_place(&[], ctx);
+            let pointer =
+              if let_place.is_some() { quote! { (#raw_expr) } } else { Self::pointer_to_token_stream(expr, ctx) };
             let prev = fresh_ident("prev", &[&raw_expr]);
 
             match op {
-              UnaryOp::Inc => return quote! { *{ #raw_expr = #pointer.add(1); #raw_expr } },
-              UnaryOp::Dec => return quote! { *{ #raw_expr = #pointer.sub(1); #raw_expr } },
-              UnaryOp::PostInc => return quote! { *{ let #prev = #raw_expr; #raw_expr = #pointer.add(1); #prev } },
-              UnaryOp::PostDec => return quote! { *{ let #prev = #raw_expr; #raw_expr = #pointer.sub(1); #prev } },
+              UnaryOp::Inc => return quote! { *{ #let_place #raw_expr = #pointer.add(1); #raw_expr } },
+              UnaryOp::Dec => return quote! { *{ #let_place #raw_expr = #pointer.sub(1); #raw_expr } },
+              UnaryOp::PostInc => return quote! { *{ #let_place let #prev = #raw_expr; #raw_expr = #pointer.add(1); #prev } },
+              UnaryOp::PostDec => return quote! { *{ #let_place let #prev = #raw_expr; #raw_expr = #pointer.sub(1); #prev } },
               _ => (),
             }
           },
-- 
2.43.0


From cff0b87726fafe41902ecf26ee0067b655a65107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 32/97] fix: parenthesize an expression starting with a block
 at the start of a statement

---
 src/ast/expr.rs      | 20 +++++++++++++++++++-
 src/ast/statement.rs |  2 +-
 src/fn_macro.rs      |  3 ++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index f6f56ac..122be88 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -7,7 +7,7 @@ use nom::{
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, TokenStreamExt};
 
 use super::{tokens::parenthesized, *};
@@ -778,6 +778,24 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Generate this expression at the start of a statement, where a leading block ends the statement.
+  pub(crate) fn to_statement_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    let tokens = self.to_token_stream(ctx);
+    let mut it = tokens.clone().into_iter();
+
+    let needs_parens = match it.next() {
+      Some(TokenTree::Group(group)) => group.delimiter() == Delimiter::Brace && it.next().is_some(),
+      Some(TokenTree::Ident(id)) => id == "if" && !matches!(self, Self::Ternary(_)),
+      _ => false,
+    };
+
+    if needs_parens {
+      quote! { (#tokens) }
+    } else {
+      tokens
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let mut tokens = TokenStream::new();
     self.to_tokens(ctx, &mut tokens);
diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 902dd28..b963c6b 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -150,7 +150,7 @@ impl<'t> Statement<'t> {
         tokens.append_all(quote! { #asm; })
       },
       Self::Expr(expr) => {
-        let expr = expr.to_token_stream(ctx);
+        let expr = expr.to_statement_token_stream(ctx);
         tokens.append_all(quote! { #expr; })
       },
       Self::FunctionDecl(f) => f.to_tokens(ctx, tokens),
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index b28c118..071d189 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -182,7 +182,8 @@ impl<'t> FnMacro<'t> {
     let mut body = TokenStream::new();
     match &self.body {
       MacroBody::Statement(stmt) => stmt.to_tokens(&mut ctx, &mut body),
-      MacroBody::Expr(expr) => expr.to_tokens(&mut ctx, &mut body),
+      MacroBody::Expr(expr) if ctx.export_as_macro => expr.to_tokens(&mut ctx, &mut body),
+      MacroBody::Expr(expr) => body.append_all(expr.to_statement_token_stream(&mut ctx)),
     }
 
     if ctx.export_as_macro {
-- 
2.43.0


From 27eb0a7d63983feae04314dac50b9c59fae4738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 33/97] fix: parenthesize a trailing cast on the left of << and
 <

---
 src/ast/binary_expr.rs | 6 +++---
 src/ast/expr.rs        | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 6afba1f..92c8acc 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -316,9 +316,9 @@ impl<'t> BinaryExpr<'t> {
       (_, Associativity::Right) => (lhs_prec <= prec, rhs_prec < prec),
     };
 
-    // Ensure that a cast on the left side is quoted when shifting
-    // left to avoid ambiguous type parameter errors.
-    if matches!(&*self.lhs, Expr::Cast(..) | Expr::SizeOf(..)) && matches!(op, BinaryOp::Shl) {
+    // Ensure that a cast at the end of the left side is quoted when shifting left or
+    // comparing with `<` to avoid ambiguous type parameter errors.
+    if matches!(op, BinaryOp::Shl | BinaryOp::Lt) && self.lhs.ends_with_cast() {
       lhs_parens = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 122be88..ca5b9db 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -683,6 +683,15 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if the generated code for this expression ends with the type of a cast.
+  pub(crate) fn ends_with_cast(&self) -> bool {
+    match self {
+      Self::Cast(_) | Self::SizeOf(_) => true,
+      Self::Binary(expr) if !expr.op.is_assignment() => expr.rhs.ends_with_cast(),
+      _ => false,
+    }
+  }
+
   /// Check if evaluating this expression more than once may be observable.
   fn has_side_effects(&self) -> bool {
     match self {
-- 
2.43.0


From 96732e487bf5cbe8502b5ac5a5ac65f75a96d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 34/97] fix: keep a repeated volatile qualifier

---
 src/ast/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 6cf3f7a..ebcd204 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -345,7 +345,7 @@ impl TypeQualifier {
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-      (Self::Volatile, Self::Volatile) => Self::Const,
+      (Self::Volatile, Self::Volatile) => Self::Volatile,
       _ => Self::ConstVolatile,
     }
   }
-- 
2.43.0


From 11036416a5d79fee87d4b9f2b75ea2e0bec93f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 35/97] fix: map the pointee's constness to *const and *mut

---
 src/ast/cast.rs           |  6 ++---
 src/ast/expr.rs           | 11 +++-----
 src/ast/literal/string.rs |  3 +--
 src/ast/stringify.rs      |  7 ++---
 src/ast/ty.rs             | 56 ++++++++++++++++++++++-----------------
 src/ast/unary_expr.rs     |  2 +-
 src/ast/var.rs            |  7 ++---
 7 files changed, 44 insertions(+), 48 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index cada6d2..36cfb39 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -34,10 +34,8 @@ impl<'t> Cast<'t> {
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    tokens.append_all(match (&self.ty, &*self.expr) {
-      (Type::Qualified { ty, qualifier }, Expr::Literal(Lit::Int(LitInt { value: 0, .. })))
-        if matches!(**ty, Type::Ptr { .. }) && qualifier.is_const() =>
-      {
+    tokens.append_all(match (&self.ty.clone().unqualified(), &*self.expr) {
+      (Type::Ptr { ty }, Expr::Literal(Lit::Int(LitInt { value: 0, .. }))) if ty.is_const() => {
         let prefix = ctx.trait_prefix().into_iter();
         quote! { #(#prefix::)*ptr::null() }
       },
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index ca5b9db..a001154 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -457,14 +457,14 @@ impl<'t> Expr<'t> {
 
         // Remove redundant casts from string literals, e.g. `(char*)"adsf"`.
         if matches!(
-          (&*cast.expr, &cast.ty), (Expr::Literal(Lit::String(LitString::Ordinary(_))), Type::Qualified { ty, qualifier })
-          if matches!(&**ty, Type::Ptr { ty, .. } if matches!(**ty, Type::BuiltIn(BuiltInType::Char))) && qualifier.is_const()
+          (&*cast.expr, &cast.ty), (Expr::Literal(Lit::String(LitString::Ordinary(_))), ty @ Type::Qualified { qualifier, .. })
+          if qualifier.is_const() && ty.clone().unqualified() == Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }
         ) {
           *self = (*cast.expr).clone();
           return self.finish(ctx)
         }
 
-        Ok(ty)
+        Ok(ty.map(Type::unqualified))
       },
       Self::Var(var) => var.finish(ctx),
       Self::FunctionCall(call) => call.finish(ctx),
@@ -531,10 +531,7 @@ impl<'t> Expr<'t> {
           self.finish(ctx)
         } else {
           *self = Self::ConcatString(new_names);
-          Ok(Some(Type::Qualified {
-            ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
-            qualifier: TypeQualifier::Const,
-          }))
+          Ok(Some(Type::const_ptr(Type::BuiltIn(BuiltInType::Char))))
         }
       },
       Self::Unary(op) => {
diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index e8f772e..7fdd060 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -20,7 +20,6 @@ use quote::quote;
 
 use crate::{
   codegen::quote_static_ref, BuiltInType, CodegenContext, IdentifierExpr, Lit, LocalContext, MacroToken, Type,
-  TypeQualifier,
 };
 
 use crate::ast::{
@@ -304,7 +303,7 @@ impl<'t> LitString<'t> {
       },
     };
 
-    Ok(Some(Type::Qualified { ty: Box::new(Type::Ptr { ty: Box::new(ty) }), qualifier: TypeQualifier::Const }))
+    Ok(Some(Type::const_ptr(ty)))
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index a140793..26580b5 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -11,7 +11,7 @@ use quote::{quote, TokenStreamExt};
 
 use super::{
   tokens::{macro_arg, macro_id, meta, punct},
-  BuiltInType, Expr, IdentifierExpr, Type, TypeQualifier, Var,
+  BuiltInType, Expr, IdentifierExpr, Type, Var,
 };
 use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType, MacroToken};
 
@@ -54,10 +54,7 @@ impl<'t> Stringify<'t> {
       _ => return Err(crate::CodegenError::UnsupportedExpression("stringification".to_owned())),
     }
 
-    Ok(Some(Type::Qualified {
-      ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
-      qualifier: TypeQualifier::Const,
-    }))
+    Ok(Some(Type::const_ptr(Type::BuiltIn(BuiltInType::Char))))
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>, tokens: &mut TokenStream) {
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ebcd204..af38cb9 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -411,6 +411,24 @@ impl<'t> Type<'t> {
     }
   }
 
+  /// Create a pointer type to a constant value of the given type.
+  pub(crate) fn const_ptr(ty: Self) -> Self {
+    Self::Ptr { ty: Box::new(ty.qualify(TypeQualifier::Const)) }
+  }
+
+  /// Remove the outermost type qualifier, e.g. for the type of a value loaded from a variable.
+  pub(crate) fn unqualified(self) -> Self {
+    match self {
+      Self::Qualified { ty, .. } => *ty,
+      ty => ty,
+    }
+  }
+
+  /// Check if this type is qualified with `const`.
+  pub(crate) fn is_const(&self) -> bool {
+    matches!(self, Self::Qualified { qualifier, .. } if qualifier.is_const())
+  }
+
   /// Check if this type is `void`.
   pub fn is_void(&self) -> bool {
     matches!(self, Self::BuiltIn(BuiltInType::Void))
@@ -460,19 +478,10 @@ impl<'t> Type<'t> {
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
-        let ty = ty.to_token_stream(ctx);
-        tokens.append_all(quote! { *mut #ty })
-      },
-      Self::Qualified { ty, qualifier } => {
-        let ty = match &**ty {
-          Self::Ptr { ty, .. } if qualifier.is_const() => {
-            let ty = ty.to_token_stream(ctx);
-            quote! { *const #ty }
-          },
-          ty => ty.to_token_stream(ctx),
-        };
-        tokens.append_all(ty)
+        let pointee = ty.to_token_stream(ctx);
+        tokens.append_all(if ty.is_const() { quote! { *const #pointee } } else { quote! { *mut #pointee } })
       },
+      Self::Qualified { ty, .. } => ty.to_tokens(ctx, tokens),
     }
   }
 
@@ -485,12 +494,12 @@ impl<'t> Type<'t> {
   pub(crate) fn from_rust_ty(ty: &syn::Type, ffi_prefix: Option<&syn::Path>) -> Result<Self, crate::CodegenError> {
     match ty {
       syn::Type::Ptr(ptr_ty) => {
-        let ty = Self::Ptr { ty: Box::new(Self::from_rust_ty(&ptr_ty.elem, ffi_prefix)?) };
+        let ty = Self::from_rust_ty(&ptr_ty.elem, ffi_prefix)?;
 
         if ptr_ty.mutability.is_some() {
-          Ok(ty)
+          Ok(Self::Ptr { ty: Box::new(ty) })
         } else {
-          Ok(Self::Qualified { ty: Box::new(ty), qualifier: TypeQualifier::Const })
+          Ok(Self::const_ptr(ty))
         }
       },
       syn::Type::Tuple(tuple_ty) if tuple_ty.elems.is_empty() => Ok(Type::BuiltIn(BuiltInType::Void)),
@@ -537,16 +546,15 @@ impl<'t> Type<'t> {
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
       Self::Ptr { ty } => {
-        let ty = ty.to_rust_ty(ctx)?;
-        syn::parse_quote! { *mut #ty }
-      },
-      Self::Qualified { ty, qualifier } => match &**ty {
-        Self::Ptr { ty, .. } if qualifier.is_const() => {
-          let ty = ty.to_rust_ty(ctx)?;
-          syn::parse_quote! { *const #ty }
-        },
-        ty => return ty.to_rust_ty(ctx),
+        let pointee = ty.to_rust_ty(ctx)?;
+
+        if ty.is_const() {
+          syn::parse_quote! { *const #pointee }
+        } else {
+          syn::parse_quote! { *mut #pointee }
+        }
       },
+      Self::Qualified { ty, .. } => return ty.to_rust_ty(ctx),
     })
   }
 
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index c02725f..5aec51e 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -78,7 +78,7 @@ impl<'t> UnaryExpr<'t> {
         }
 
         match ty {
-          Some(Type::Ptr { ty, .. }) => Ok(Some(*ty)),
+          Some(Type::Ptr { ty, .. }) => Ok(Some(ty.unqualified())),
           None => Ok(None),
           // Type can only be either a pointer-type or unknown.
           _ => Err(crate::CodegenError::UnsupportedExpression("dereference of non-pointer".to_owned())),
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 37091ad..73a938e 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::quote_c_char_ptr, CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, IdentifierExpr, Type, TypeQualifier};
+use super::{BuiltInType, IdentifierExpr, Type};
 
 /// A variable.
 ///
@@ -39,10 +39,7 @@ impl<'t> Var<'t> {
           },
           "__FILE__" => {
             ctx.export_as_macro = true;
-            Ok(Some(Type::Qualified {
-              ty: Box::new(Type::Ptr { ty: Box::new(Type::BuiltIn(BuiltInType::Char)) }),
-              qualifier: TypeQualifier::Const,
-            }))
+            Ok(Some(Type::const_ptr(Type::BuiltIn(BuiltInType::Char))))
           },
           "__SCHAR_MAX__" => Ok(Some(Type::BuiltIn(BuiltInType::SChar))),
           "__SHRT_MAX__" => Ok(Some(Type::BuiltIn(BuiltInType::Short))),
-- 
2.43.0


From aee2deabdc30bdc34b0d6719cc78633dcb367c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 36/97] fix: access members and elements through volatile
 pointers volatilely

---
 src/ast/binary_expr.rs |  60 +++++++------
 src/ast/expr.rs        | 106 +++++++++++++++++++++--
 src/ast/unary_expr.rs  | 189 +++++++++++++++--------------------------
 3 files changed, 203 insertions(+), 152 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 92c8acc..7964063 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -323,6 +323,18 @@ impl<'t> BinaryExpr<'t> {
     }
 
     match self.op {
+      BinaryOp::MemberAccess => {
+        if let Some(pointer) = Expr::Binary(self.clone()).volatile_pointer_to_token_stream(ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          return quote! { #(#prefix::)*ptr::read_volatile(#pointer) }
+        }
+
+        if lhs_parens {
+          lhs = quote! { (#lhs) };
+        }
+
+        quote! { #lhs #op #rhs }
+      },
       BinaryOp::Assign
       | BinaryOp::AddAssign
       | BinaryOp::SubAssign
@@ -334,33 +346,27 @@ impl<'t> BinaryExpr<'t> {
       | BinaryOp::BitAndAssign
       | BinaryOp::BitXorAssign
       | BinaryOp::BitOrAssign => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.lhs {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let (let_ptr, lhs_ptr) = expr.to_pointer(&[&rhs], ctx);
-
-              let value = if let Some(op) = self.op.compound_op() {
-                let (prec, _) = op.precedence();
-                if rhs_prec >= prec {
-                  rhs = quote! { (#rhs) };
-                }
-
-                let prefix = ctx.trait_prefix().into_iter();
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
-              } else {
-                quote! { #rhs }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let name = fresh_ident("value", &[&lhs_ptr]);
-              return quote! {
-                {
-                  #let_ptr
-                  let #name = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
-                  #name
-                }
-              }
+        if let Some((let_ptr, lhs_ptr)) = self.lhs.to_volatile_pointer(&[&rhs], ctx) {
+          let value = if let Some(op) = self.op.compound_op() {
+            let (prec, _) = op.precedence();
+            if rhs_prec >= prec {
+              rhs = quote! { (#rhs) };
+            }
+
+            let prefix = ctx.trait_prefix().into_iter();
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) #op #rhs }
+          } else {
+            quote! { #rhs }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let name = fresh_ident("value", &[&lhs_ptr]);
+          return quote! {
+            {
+              #let_ptr
+              let #name = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
+              #name
             }
           }
         }
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index a001154..d788c91 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -725,20 +725,114 @@ impl<'t> Expr<'t> {
     (Some(quote! { let #place = #(#trait_prefix::)*ptr::addr_of_mut!(#expr); }), quote! { *#place })
   }
 
-  /// Generate this pointer expression such that it can be repeated, after the returned statement, if any.
-  pub(crate) fn to_pointer<C: CodegenContext>(
+  /// Check if this expression is a pointer to a volatile type, e.g. `(volatile int*)addr` or `(volatile int*)addr + 1`.
+  pub(crate) fn is_volatile_pointer(&self) -> bool {
+    match self {
+      Self::Cast(Cast { ty, .. }) => {
+        matches!(
+          ty.clone().unqualified(),
+          Type::Ptr { ty } if matches!(*ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile())
+        )
+      },
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, rhs }) => {
+        lhs.is_volatile_pointer() || rhs.is_volatile_pointer()
+      },
+      _ => false,
+    }
+  }
+
+  /// Generate this expression as a place without accessing it if it is volatile.
+  pub(crate) fn volatile_place_to_token_stream<C: CodegenContext>(
+    &self,
+    ctx: &mut LocalContext<'_, 't, C>,
+  ) -> Option<TokenStream> {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if expr.is_volatile_pointer() => {
+        let pointer = expr.receiver_to_token_stream(ctx);
+        Some(quote! { *#pointer })
+      },
+      Self::Binary(BinaryExpr { lhs, op: op @ BinaryOp::MemberAccess, rhs }) => {
+        let mut place = lhs.volatile_place_to_token_stream(ctx)?;
+        let field = rhs.to_token_stream(ctx);
+
+        if matches!(**lhs, Self::Unary(_)) {
+          place = quote! { (#place) };
+        }
+
+        Some(quote! { #place #op #field })
+      },
+      _ => None,
+    }
+  }
+
+  /// Generate the pointer to this place if it is volatile.
+  pub(crate) fn volatile_pointer_to_token_stream<C: CodegenContext>(
+    &self,
+    ctx: &mut LocalContext<'_, 't, C>,
+  ) -> Option<TokenStream> {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if expr.is_volatile_pointer() => {
+        Some(if matches!(**expr, Self::Cast(_)) {
+          expr.to_token_stream(ctx)
+        } else {
+          expr.receiver_to_token_stream(ctx)
+        })
+      },
+      expr => {
+        let place = expr.volatile_place_to_token_stream(ctx)?;
+        let trait_prefix = ctx.trait_prefix().into_iter();
+        Some(quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#place) })
+      },
+    }
+  }
+
+  /// Generate the pointer to this place if it is volatile, such that it can be repeated after the returned
+  /// statement, if any.
+  pub(crate) fn to_volatile_pointer<C: CodegenContext>(
     &self,
     used: &[&TokenStream],
     ctx: &mut LocalContext<'_, 't, C>,
-  ) -> (Option<TokenStream>, TokenStream) {
-    let expr = self.to_token_stream(ctx);
+  ) -> Option<(Option<TokenStream>, TokenStream)> {
+    let expr = self.volatile_pointer_to_token_stream(ctx)?;
 
     if !self.has_side_effects() {
-      return (None, expr)
+      return Some((None, expr))
     }
 
     let pointer = fresh_ident("pointer", used);
-    (Some(quote! { let #pointer = #expr; }), quote! { #pointer })
+    Some((Some(quote! { let #pointer = #expr; }), quote! { #pointer }))
+  }
+
+  /// Generate this pointer expression such that a method can be called on it.
+  pub(crate) fn receiver_to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    match self {
+      Self::Binary(BinaryExpr { lhs, op: op @ (BinaryOp::Add | BinaryOp::Sub), rhs }) => {
+        // The pointer may be on the right side, e.g. `1 + ptr`.
+        let (pointer, offset) =
+          if *op == BinaryOp::Add && (matches!(**lhs, Self::Literal(_)) || rhs.is_volatile_pointer()) {
+            (rhs, lhs)
+          } else {
+            (lhs, rhs)
+          };
+        let pointer = pointer.receiver_to_token_stream(ctx);
+        let offset = offset.to_token_stream(ctx);
+
+        match op {
+          BinaryOp::Add => quote! { #pointer.add(#offset) },
+          _ => quote! { #pointer.sub(#offset) },
+        }
+      },
+      expr => {
+        let raw_expr = expr.to_token_stream(ctx);
+        let (prec, _) = expr.precedence();
+
+        if prec > 1 {
+          quote! { (#raw_expr) }
+        } else {
+          raw_expr
+        }
+      },
+    }
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 5aec51e..ed876df 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::fresh_ident, CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, Cast, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -93,36 +93,6 @@ impl<'t> UnaryExpr<'t> {
     tokens.append_all(self.to_token_stream(ctx))
   }
 
-  /// Generate a pointer expression such that a method can be called on it.
-  fn pointer_to_token_stream<C: CodegenContext>(expr: &Expr<'t>, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    match expr {
-      Expr::Binary(BinaryExpr { lhs, op: op @ (BinaryOp::Add | BinaryOp::Sub), rhs }) => {
-        let (pointer, offset) = match (&**lhs, op) {
-          // The pointer is on the right side, e.g. `1 + ptr`.
-          (Expr::Literal(_), BinaryOp::Add) => (rhs, lhs),
-          _ => (lhs, rhs),
-        };
-        let pointer = Self::pointer_to_token_stream(pointer, ctx);
-        let offset = offset.to_token_stream(ctx);
-
-        match op {
-          BinaryOp::Add => quote! { #pointer.add(#offset) },
-          _ => quote! { #pointer.sub(#offset) },
-        }
-      },
-      expr => {
-        let raw_expr = expr.to_token_stream(ctx);
-        let (prec, _) = expr.precedence();
-
-        if prec > 1 {
-          quote! { (#raw_expr) }
-        } else {
-          raw_expr
-        }
-      },
-    }
-  }
-
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let (prec, _) = self.precedence();
     let (expr_prec, _) = self.expr.precedence();
@@ -137,26 +107,20 @@ impl<'t> UnaryExpr<'t> {
 
     match self.op {
       UnaryOp::Inc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let name = fresh_ident("value", &[&lhs_ptr]);
-              return quote! {
-                {
-                  #let_ptr
-                  let #name = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
-                  #name
-                }
-              }
+        if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let name = fresh_ident("value", &[&lhs_ptr]);
+          return quote! {
+            {
+              #let_ptr
+              let #name = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
+              #name
             }
           }
         }
@@ -165,26 +129,20 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #let_place #raw_expr += 1; #raw_expr } }
       },
       UnaryOp::Dec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let name = fresh_ident("value", &[&lhs_ptr]);
-              return quote! {
-                {
-                  #let_ptr
-                  let #name = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
-                  #name
-                }
-              }
+        if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let name = fresh_ident("value", &[&lhs_ptr]);
+          return quote! {
+            {
+              #let_ptr
+              let #name = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name);
+              #name
             }
           }
         }
@@ -193,26 +151,20 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #let_place #raw_expr -= 1; #raw_expr } }
       },
       UnaryOp::PostInc => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let name = fresh_ident("value", &[&lhs_ptr]);
-              return quote! {
-                {
-                  #let_ptr
-                  let #name = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name + 1);
-                  #name
-                }
-              }
+        if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let name = fresh_ident("value", &[&lhs_ptr]);
+          return quote! {
+            {
+              #let_ptr
+              let #name = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name + 1);
+              #name
             }
           }
         }
@@ -222,26 +174,20 @@ impl<'t> UnaryExpr<'t> {
         quote! { { #let_place let #prev = #raw_expr; #raw_expr += 1; #prev } }
       },
       UnaryOp::PostDec => {
-        if let Expr::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) = &*self.expr {
-          if let Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) = &**expr {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let (let_ptr, lhs_ptr) = expr.to_pointer(&[], ctx);
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let value = {
-                quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
-              };
-
-              let prefix = ctx.trait_prefix().into_iter();
-              let name = fresh_ident("value", &[&lhs_ptr]);
-              return quote! {
-                {
-                  #let_ptr
-                  let #name = #value;
-                  #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name - 1);
-                  #name
-                }
-              }
+        if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
+          let prefix = ctx.trait_prefix().into_iter();
+          let value = {
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) }
+          };
+
+          let prefix = ctx.trait_prefix().into_iter();
+          let name = fresh_ident("value", &[&lhs_ptr]);
+          return quote! {
+            {
+              #let_ptr
+              let #name = #value;
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name - 1);
+              #name
             }
           }
         }
@@ -256,21 +202,25 @@ impl<'t> UnaryExpr<'t> {
       UnaryOp::Plus => expr,
       UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
+        if self.expr.is_volatile_pointer() {
+          let prefix = ctx.trait_prefix().into_iter();
+          let pointer = if matches!(&*self.expr, Expr::Cast(_)) {
+            raw_expr
+          } else {
+            self.expr.receiver_to_token_stream(ctx)
+          };
+          return quote! { #(#prefix::)*ptr::read_volatile(#pointer) }
+        }
+
         match &*self.expr {
-          Expr::Cast(Cast { ty: Type::Ptr { ty }, .. }) => {
-            if matches!(&**ty, Type::Qualified { qualifier, .. } if qualifier.is_volatile()) {
-              let prefix = ctx.trait_prefix().into_iter();
-              return quote! { #(#prefix::)*ptr::read_volatile(#raw_expr) }
-            }
-          },
           Expr::Binary(BinaryExpr { op: BinaryOp::Add | BinaryOp::Sub, .. }) => {
-            let pointer = Self::pointer_to_token_stream(&self.expr, ctx);
+            let pointer = self.expr.receiver_to_token_stream(ctx);
             return quote! { *#pointer }
           },
           Expr::Unary(UnaryExpr { op, expr }) => {
             let (let_place, raw_expr) = expr.to_place(&[], ctx);
             let pointer =
-              if let_place.is_some() { quote! { (#raw_expr) } } else { Self::pointer_to_token_stream(expr, ctx) };
+              if let_place.is_some() { quote! { (#raw_expr) } } else { expr.receiver_to_token_stream(ctx) };
             let prev = fresh_ident("prev", &[&raw_expr]);
 
             match op {
@@ -287,6 +237,7 @@ impl<'t> UnaryExpr<'t> {
         format!("*{expr}").parse::<TokenStream>().unwrap()
       },
       UnaryOp::AddrOf => {
+        let raw_expr = self.expr.volatile_place_to_token_stream(ctx).unwrap_or(raw_expr);
         let trait_prefix = ctx.trait_prefix().into_iter();
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
-- 
2.43.0


From 160c45eb686df391262b4270f608e2401e3495a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 37/97] fix: parenthesize a branch of a conditional starting
 with a block

---
 src/ast/ternary_expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 1976e89..81e20b7 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -39,8 +39,8 @@ impl<'t> TernaryExpr<'t> {
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     let cond = self.condition.to_token_stream(ctx);
-    let if_branch = self.if_branch.to_token_stream(ctx);
-    let else_branch = self.else_branch.to_token_stream(ctx);
+    let if_branch = self.if_branch.to_statement_token_stream(ctx);
+    let else_branch = self.else_branch.to_statement_token_stream(ctx);
 
     tokens.append_all(quote! {
       if #cond {
-- 
2.43.0


From 3396384a5b609d8d9aeee86fdd1267d4c8df6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 38/97] fix: do not fold divisions by zero and oversized shifts

---
 src/ast/expr.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index d788c91..5607103 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -613,11 +613,11 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Float(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Div, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs / *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Rem, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) if rhs.value != 0 => {
             *self = Self::Literal(Lit::Int(*lhs % *rhs));
             self.finish(ctx)
           },
@@ -637,11 +637,15 @@ impl<'t> Expr<'t> {
             *self = Self::Literal(Lit::Int(*lhs - *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Shl, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Shl, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs)))
+            if (0..i128::BITS as i128).contains(&rhs.value) =>
+          {
             *self = Self::Literal(Lit::Int(*lhs << *rhs));
             self.finish(ctx)
           },
-          (BinaryOp::Shr, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs))) => {
+          (BinaryOp::Shr, Self::Literal(Lit::Int(lhs)), Self::Literal(Lit::Int(rhs)))
+            if (0..i128::BITS as i128).contains(&rhs.value) =>
+          {
             *self = Self::Literal(Lit::Int(*lhs >> *rhs));
             self.finish(ctx)
           },
-- 
2.43.0


From 363fddeb63b3e4e5955bcbd473abb60ae35d17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 39/97] fix: a sum with an operand of unknown type may be a
 pointer

---
 src/ast/binary_expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 7964063..c240e09 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -289,6 +289,18 @@ impl<'t> BinaryExpr<'t> {
       return Ok(None)
     }
 
+    // If one side is not a pointer, a side without a type may still be one.
+    if matches!(self.op, BinaryOp::Add | BinaryOp::Sub) {
+      match ((&*self.lhs, &lhs_ty), (&*self.rhs, &rhs_ty)) {
+        ((expr, None), (_, Some(ty))) | ((_, Some(ty)), (expr, None))
+          if !matches!(ty, Type::Ptr { .. }) && !matches!(expr, Expr::Literal(_)) =>
+        {
+          return Ok(None)
+        },
+        _ => (),
+      }
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
-- 
2.43.0


From af74517bfd62f77994f38bb8bf494c17192cb90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 40/97] fix: do not evaluate a place again after assigning to
 it

---
 src/ast/expr.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 5607103..01857fc 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -712,6 +712,30 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this place designates the same object even after assigning to it.
+  fn is_repeatable_place(&self) -> bool {
+    fn is_repeatable_pointer(expr: &Expr<'_>) -> bool {
+      match expr {
+        Expr::Var(_) | Expr::Literal(_) => true,
+        Expr::Cast(cast) => is_repeatable_pointer(&cast.expr),
+        Expr::Unary(UnaryExpr { op: UnaryOp::AddrOf, expr }) => expr.is_repeatable_place(),
+        Expr::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, rhs }) => {
+          matches!((&**lhs, &**rhs), (Expr::Literal(_), _) | (_, Expr::Literal(_)))
+            && is_repeatable_pointer(lhs)
+            && is_repeatable_pointer(rhs)
+        },
+        _ => false,
+      }
+    }
+
+    match self {
+      Self::Var(_) => true,
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => is_repeatable_pointer(expr),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_repeatable_place(),
+      _ => false,
+    }
+  }
+
   /// Generate this expression such that it can be repeated as a place, after the returned statement, if any.
   pub(crate) fn to_place<C: CodegenContext>(
     &self,
@@ -720,7 +744,7 @@ impl<'t> Expr<'t> {
   ) -> (Option<TokenStream>, TokenStream) {
     let expr = self.to_token_stream(ctx);
 
-    if !self.has_side_effects() {
+    if self.is_repeatable_place() {
       return (None, expr)
     }
 
-- 
2.43.0


From 3ddbdeae819bae0645bf7c29d067f832d5929955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 41/97] fix: a volatile operand of an access is read once

---
 src/ast/expr.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 01857fc..1b93719 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -701,6 +701,7 @@ impl<'t> Expr<'t> {
       Self::Cast(cast) => cast.expr.has_side_effects(),
       Self::Unary(expr) => {
         matches!(expr.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec)
+          || (expr.op == UnaryOp::Deref && expr.expr.is_volatile_pointer())
           || expr.expr.has_side_effects()
       },
       Self::Binary(expr) => {
@@ -765,6 +766,16 @@ impl<'t> Expr<'t> {
       Self::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, rhs }) => {
         lhs.is_volatile_pointer() || rhs.is_volatile_pointer()
       },
+      Self::Unary(UnaryExpr { op: UnaryOp::AddrOf, expr }) => expr.is_volatile_place(),
+      _ => false,
+    }
+  }
+
+  /// Check if this expression is a volatile object, or a member of one.
+  fn is_volatile_place(&self) -> bool {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.is_volatile_pointer(),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_volatile_place(),
       _ => false,
     }
   }
@@ -823,7 +834,12 @@ impl<'t> Expr<'t> {
   ) -> Option<(Option<TokenStream>, TokenStream)> {
     let expr = self.volatile_pointer_to_token_stream(ctx)?;
 
-    if !self.has_side_effects() {
+    let mut place = self;
+    while let Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) = place {
+      place = lhs;
+    }
+
+    if !matches!(place, Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) if expr.has_side_effects()) {
       return Some((None, expr))
     }
 
-- 
2.43.0


From 460cb8e8eba5c801cfe1a3455d0a21675a3adc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 42/97] fix: keep variables of a do-while body out of its
 condition

---
 src/ast/statement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index b963c6b..4e736b5 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -180,12 +180,15 @@ impl<'t> Statement<'t> {
         })
       },
       Self::DoWhile { block, condition } => {
+        // Variables declared in the block are not visible in the condition.
+        let has_scope = block.iter().any(|stmt| matches!(stmt, Self::VarDecl(_)));
         let block = block.iter().map(|stmt| stmt.to_token_stream(ctx)).collect::<Vec<_>>();
+        let block = if has_scope { quote! { { #(#block)* } } } else { quote! { #(#block)* } };
         let condition = condition.to_token_stream(ctx);
 
         tokens.append_all(quote! {
           loop {
-            #(#block)*
+            #block
 
             if #condition {
               continue
-- 
2.43.0


From 1bb6556dae51777b89463b4356e7200b3d16c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 43/97] fix: convert literals of mixed types to the type C
 computes with

---
 src/ast/binary_expr.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index c240e09..8f2caf3 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -240,24 +240,36 @@ impl<'t> BinaryExpr<'t> {
 
     // Cast mixed float and int expression.
     match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, suffix: None })), Expr::Literal(Lit::Float(_))) => {
-        let f = if *lhs >= f32::MIN as i128 && *lhs <= f32::MAX as i128 {
-          LitFloat::Float(*lhs as f32)
-        } else {
-          LitFloat::Double(*lhs as f64)
+      (Expr::Literal(Lit::Int(LitInt { value: lhs, .. })), Expr::Literal(Lit::Float(rhs))) => {
+        let f = match rhs {
+          LitFloat::Float(_) => LitFloat::Float(*lhs as f32),
+          LitFloat::Double(_) | LitFloat::LongDouble(_) => LitFloat::Double(*lhs as f64),
         };
         self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
         lhs_ty = self.lhs.finish(ctx)?;
       },
-      (Expr::Literal(Lit::Float(_)), Expr::Literal(Lit::Int(LitInt { value: rhs, suffix: None }))) => {
-        let f = if *rhs >= f32::MIN as i128 && *rhs <= f32::MAX as i128 {
-          LitFloat::Float(*rhs as f32)
-        } else {
-          LitFloat::Double(*rhs as f64)
+      (Expr::Literal(Lit::Float(lhs)), Expr::Literal(Lit::Int(LitInt { value: rhs, .. }))) => {
+        let f = match lhs {
+          LitFloat::Float(_) => LitFloat::Float(*rhs as f32),
+          LitFloat::Double(_) | LitFloat::LongDouble(_) => LitFloat::Double(*rhs as f64),
         };
         self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
         rhs_ty = self.rhs.finish(ctx)?;
       },
+      (
+        Expr::Literal(Lit::Float(LitFloat::Float(lhs))),
+        Expr::Literal(Lit::Float(LitFloat::Double(_) | LitFloat::LongDouble(_))),
+      ) => {
+        self.lhs = Box::new(Expr::Literal(Lit::Float(LitFloat::Double(*lhs as f64))));
+        lhs_ty = self.lhs.finish(ctx)?;
+      },
+      (
+        Expr::Literal(Lit::Float(LitFloat::Double(_) | LitFloat::LongDouble(_))),
+        Expr::Literal(Lit::Float(LitFloat::Float(rhs))),
+      ) => {
+        self.rhs = Box::new(Expr::Literal(Lit::Float(LitFloat::Double(*rhs as f64))));
+        rhs_ty = self.rhs.finish(ctx)?;
+      },
       (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
         if let Some(lhs_ty2) = max_ty_cast(lhs) {
           self.lhs = Box::new(Expr::Cast(Cast { ty: lhs_ty2.clone(), expr: Box::new(lhs.clone()) }));
-- 
2.43.0


From 68196e72a4773a74ca985aaaa36e54d8433b880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 44/97] fix: keep the value of a floating literal which is cast

---
 src/ast/cast.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index 36cfb39..ae60141 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{CodegenContext, LocalContext};
 
-use super::{Associativity, Expr, Lit, LitInt, Type};
+use super::{Associativity, BuiltInType, Expr, Lit, LitFloat, LitInt, Type};
 
 /// A cast expression.
 ///
@@ -81,6 +81,22 @@ impl<'t> Cast<'t> {
 
               quote! { #expr }
             },
+            // The type of the literal is inferred from the type of the cast.
+            Expr::Literal(Lit::Float(f)) => {
+              let f = match *f {
+                LitFloat::Float(f) => f as f64,
+                LitFloat::Double(f) | LitFloat::LongDouble(f) => f,
+              };
+
+              let f = match ty {
+                Type::BuiltIn(BuiltInType::Float) => LitFloat::Float(f as f32),
+                _ => LitFloat::Double(f),
+              };
+
+              let mut tokens = TokenStream::new();
+              f.to_tokens(ctx, &mut tokens);
+              tokens
+            },
             _ => {
               let mut expr = expr.to_token_stream(ctx);
               if expr_prec > prec {
-- 
2.43.0


From 2a76098b1c83b4fdade910f3623ce9ed84d0aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 45/97] fix: parse type specifiers and qualifiers in any order

---
 src/ast/ty.rs | 196 ++++++++++++++++++++------------------------------
 1 file changed, 78 insertions(+), 118 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index af38cb9..3db07c4 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -4,7 +4,7 @@ use nom::{
   branch::{alt, permutation},
   combinator::{map, opt, value},
   multi::fold_many0,
-  sequence::{pair, preceded, terminated, tuple},
+  sequence::{pair, preceded, tuple},
   IResult,
 };
 use proc_macro2::{Ident, Span, TokenStream};
@@ -78,6 +78,37 @@ impl BuiltInType {
     }
   }
 
+  fn from_specifiers(mut specifiers: Vec<&'static str>) -> Option<Self> {
+    specifiers.sort_unstable();
+
+    let unsigned = match specifiers.iter().filter(|s| matches!(**s, "signed" | "unsigned")).count() {
+      0 => None,
+      1 => Some(specifiers.contains(&"unsigned")),
+      _ => return None,
+    };
+    specifiers.retain(|s| !matches!(*s, "signed" | "unsigned"));
+
+    Some(match (unsigned, specifiers.as_slice()) {
+      (None, ["void"]) => Self::Void,
+      (None, ["bool"]) => Self::Bool,
+      (None, ["float"]) => Self::Float,
+      (None, ["double"]) => Self::Double,
+      (None, ["double", "long"]) => Self::LongDouble,
+      (None, ["char"]) => Self::Char,
+      (Some(false), ["char"]) => Self::SChar,
+      (Some(true), ["char"]) => Self::UChar,
+      (Some(true), ["short"] | ["int", "short"]) => Self::UShort,
+      (_, ["short"] | ["int", "short"]) => Self::Short,
+      (Some(true), ["int"] | []) => Self::UInt,
+      (_, ["int"]) | (Some(false), []) => Self::Int,
+      (Some(true), ["long"] | ["int", "long"]) => Self::ULong,
+      (_, ["long"] | ["int", "long"]) => Self::Long,
+      (Some(true), ["long", "long"] | ["int", "long", "long"]) => Self::ULongLong,
+      (_, ["long", "long"] | ["int", "long", "long"]) => Self::LongLong,
+      _ => return None,
+    })
+  }
+
   fn from_rust_ty(ty: &syn::TypePath, ffi_prefix: Option<&syn::Path>) -> Option<Self> {
     match ty {
       syn::TypePath { qself: None, path: syn::Path { leading_colon, segments } } => {
@@ -196,127 +227,49 @@ impl BuiltInType {
   }
 }
 
-fn int_ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
-  fn int_signedness<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
-    alt((keyword("unsigned"), keyword("signed")))(input)
-  }
-
-  fn int_length<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
-    alt((keyword("short"), keyword("long")))(input)
-  }
-
-  alt((
-    // [const] [(unsigned | signed)] long long [int]
-    map(
-      permutation((
-        opt(const_volatile_qualifier),
-        opt(int_signedness),
-        keyword("long"),
-        keyword("long"),
-        opt(keyword("int")),
-      )),
-      |(qualifier, s, _, _, _)| {
-        let ty = if matches!(s, Some("unsigned")) { BuiltInType::ULongLong } else { BuiltInType::LongLong };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    // [const] [(unsigned | signed)] (long | short) [int]
-    map(
-      permutation((opt(const_volatile_qualifier), opt(int_signedness), int_length, opt(keyword("int")))),
-      |(qualifier, s, i, _)| {
-        let ty = match (s, i) {
-          (Some("unsigned"), "short") => BuiltInType::UShort,
-          (_, "short") => BuiltInType::Short,
-          (Some("unsigned"), "long") => BuiltInType::ULong,
-          (_, "long") => BuiltInType::Long,
-          _ => unreachable!(),
-        };
-        let ty = Type::BuiltIn(ty);
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    // [const] [(unsigned | signed)] (char | int)
-    map(
-      permutation((opt(const_volatile_qualifier), opt(int_signedness), alt((keyword("char"), keyword("int"))))),
-      |(qualifier, s, i)| {
-        let ty = match (s, i) {
-          (Some("unsigned"), "int") => BuiltInType::UInt,
-          (_, "int") => BuiltInType::Int,
-          (Some("unsigned"), "char") => BuiltInType::UChar,
-          (Some("signed"), "char") => BuiltInType::SChar,
-          (_, "char") => BuiltInType::Char,
-          _ => unreachable!(),
-        };
-        let ty = Type::BuiltIn(ty);
+/// A list of type specifiers and type qualifiers, which may be in any order.
+fn ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
+  let (input, (mut qualifier, specifiers)) = fold_many0(
+    alt((
+      map(const_volatile_qualifier, |qualifier| (Some(qualifier), None)),
+      map(type_specifier, |specifier| (None, Some(specifier))),
+    )),
+    || (None, Vec::new()),
+    |(qualifier, mut specifiers): (Option<TypeQualifier>, Vec<_>), (q, s)| {
+      specifiers.extend(s);
+      (TypeQualifier::merge(qualifier, q), specifiers)
+    },
+  )(input)?;
+
+  let (input, ty) = if specifiers.is_empty() {
+    // [const] [struct] <identifier> [const]
+    let (input, (s, name, q)) =
+      tuple((opt(keyword("struct")), IdentifierExpr::parse_concat_ident, opt(const_volatile_qualifier)))(input)?;
+    qualifier = TypeQualifier::merge(qualifier, q);
+    (input, Type::Identifier { name, is_struct: s.is_some() })
+  } else {
+    match BuiltInType::from_specifiers(specifiers) {
+      Some(ty) => (input, Type::BuiltIn(ty)),
+      None => return Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::Verify))),
+    }
+  };
 
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-  ))(input)
+  Ok((input, if let Some(qualifier) = qualifier { ty.qualify(qualifier) } else { ty }))
 }
 
-fn ty<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Type<'t>> {
+fn type_specifier<'i, 't>(input: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], &'static str> {
   alt((
-    // [const] (float | [long] double | bool | void)
-    map(
-      pair(
-        opt(const_volatile_qualifier),
-        alt((
-          map(keyword("void"), |_| Type::BuiltIn(BuiltInType::Void)),
-          map(keyword("bool"), |_| Type::BuiltIn(BuiltInType::Bool)),
-          map(keyword("float"), |_| Type::BuiltIn(BuiltInType::Float)),
-          map(
-            terminated(pair(opt(keyword("long")), opt(const_volatile_qualifier)), keyword("double")),
-            |(long, qualifier)| {
-              let ty = if long.is_some() { BuiltInType::LongDouble } else { BuiltInType::Double };
-              let ty = Type::BuiltIn(ty);
-
-              if let Some(qualifier) = qualifier {
-                ty.qualify(qualifier)
-              } else {
-                ty
-              }
-            },
-          ),
-        )),
-      ),
-      |(qualifier, ty)| {
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
-    int_ty,
-    // [const] <identifier>
-    map(
-      tuple((opt(const_volatile_qualifier), opt(keyword("struct")), IdentifierExpr::parse_concat_ident)),
-      |(qualifier, s, id)| {
-        let ty = Type::Identifier { name: id, is_struct: s.is_some() };
-
-        if let Some(qualifier) = qualifier {
-          ty.qualify(qualifier)
-        } else {
-          ty
-        }
-      },
-    ),
+    keyword("void"),
+    keyword("bool"),
+    value("bool", keyword("_Bool")),
+    keyword("char"),
+    keyword("short"),
+    keyword("int"),
+    keyword("long"),
+    keyword("float"),
+    keyword("double"),
+    keyword("signed"),
+    keyword("unsigned"),
   ))(input)
 }
 
@@ -342,6 +295,13 @@ impl TypeQualifier {
     matches!(self, Self::Volatile | Self::ConstVolatile)
   }
 
+  fn merge(q1: Option<Self>, q2: Option<Self>) -> Option<Self> {
+    match (q1, q2) {
+      (Some(q1), Some(q2)) => Some(q1.or(q2)),
+      (q1, q2) => q1.or(q2),
+    }
+  }
+
   const fn or(self, other: Self) -> Self {
     match (self, other) {
       (Self::Const, Self::Const) => Self::Const,
-- 
2.43.0


From 74ac6d5adc3b8afd62262f33c988876d700c453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 46/97] fix: compare floating and pointer conditions with zero
 of their type

---
 src/ast/binary_expr.rs |  2 +-
 src/ast/expr.rs        | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 8f2caf3..19398dc 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -5,7 +5,7 @@ use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{codegen::fresh_ident, CodegenContext, LocalContext, MacroArgType};
 
-use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, UnaryExpr, UnaryOp, Var};
+use super::{BuiltInType, Cast, Expr, IdentifierExpr, Lit, LitFloat, LitInt, Type, Var};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) enum Associativity {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 1b93719..90f2c44 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -369,17 +369,31 @@ impl<'t> Expr<'t> {
   where
     C: CodegenContext,
   {
-    let ty = Some(Type::BuiltIn(BuiltInType::Bool));
+    let bool_ty = Some(Type::BuiltIn(BuiltInType::Bool));
+    let ty = self.finish(ctx)?;
 
-    if self.finish(ctx)? != ty {
+    if ty != bool_ty {
       *self = Expr::Binary(BinaryExpr {
         lhs: Box::new(self.clone()),
         op: BinaryOp::Neq,
-        rhs: Box::new(Expr::Literal(Lit::Int(LitInt { value: 0, suffix: None }))),
+        rhs: Box::new(Self::zero(ty)),
       });
     }
 
-    Ok(ty)
+    Ok(bool_ty)
+  }
+
+  /// The value of the given type which is false as a condition.
+  fn zero(ty: Option<Type<'t>>) -> Self {
+    let zero = Self::Literal(Lit::Int(LitInt { value: 0, suffix: None }));
+
+    match ty.map(Type::unqualified) {
+      Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
+      Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
+      Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
+      Some(ty @ Type::Ptr { .. }) => Self::Cast(Cast { ty, expr: Box::new(zero) }),
+      _ => zero,
+    }
   }
 
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
@@ -576,12 +590,7 @@ impl<'t> Expr<'t> {
           (UnaryOp::Not, expr) => {
             if ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
               let lhs = expr.clone();
-              let rhs = match ty {
-                Some(Type::BuiltIn(BuiltInType::Float)) => Self::Literal(Lit::Float(LitFloat::Float(0.0))),
-                Some(Type::BuiltIn(BuiltInType::Double)) => Self::Literal(Lit::Float(LitFloat::Double(0.0))),
-                Some(Type::BuiltIn(BuiltInType::LongDouble)) => Self::Literal(Lit::Float(LitFloat::LongDouble(0.0))),
-                _ => Self::Literal(Lit::Int(LitInt { value: 0, suffix: None })),
-              };
+              let rhs = Self::zero(ty);
 
               *self = Self::Binary(BinaryExpr { lhs: Box::new(lhs), op: BinaryOp::Eq, rhs: Box::new(rhs) })
             }
-- 
2.43.0


From 7937c7d5d1d92cef27204e969fab994a72c88033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 47/97] fix: generate casts to bool as a comparison with zero

---
 src/ast/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 90f2c44..59110b5 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -478,6 +478,12 @@ impl<'t> Expr<'t> {
           return self.finish(ctx)
         }
 
+        // Rust cannot cast a number to a `bool`.
+        if cast.ty.clone().unqualified() == Type::BuiltIn(BuiltInType::Bool) {
+          *self = (*cast.expr).clone();
+          return self.finish_condition(ctx)
+        }
+
         Ok(ty.map(Type::unqualified))
       },
       Self::Var(var) => var.finish(ctx),
-- 
2.43.0


From fe7c36c53be97cb6559527ec1c9256af1d064366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 48/97] fix: fold the complement of a signed literal, convert
 integer literals to floating operands

---
 src/ast/binary_expr.rs | 30 ++++++++++++++++--------------
 src/ast/expr.rs        |  6 ++++++
 src/ast/ty.rs          |  8 ++++++++
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 19398dc..b358c90 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -238,24 +238,26 @@ impl<'t> BinaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
-    // Cast mixed float and int expression.
-    match (&*self.lhs, &*self.rhs) {
-      (Expr::Literal(Lit::Int(LitInt { value: lhs, .. })), Expr::Literal(Lit::Float(rhs))) => {
-        let f = match rhs {
-          LitFloat::Float(_) => LitFloat::Float(*lhs as f32),
-          LitFloat::Double(_) | LitFloat::LongDouble(_) => LitFloat::Double(*lhs as f64),
-        };
+    // An integer literal is converted to the type of a floating-point operand.
+    let float_literal = |value: i128, ty: &Option<Type<'t>>| match ty {
+      Some(Type::BuiltIn(BuiltInType::Float)) => Some(LitFloat::Float(value as f32)),
+      Some(Type::BuiltIn(BuiltInType::Double | BuiltInType::LongDouble)) => Some(LitFloat::Double(value as f64)),
+      _ => None,
+    };
+    if let Expr::Literal(Lit::Int(LitInt { value, .. })) = &*self.lhs {
+      if let Some(f) = float_literal(*value, &rhs_ty) {
         self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
         lhs_ty = self.lhs.finish(ctx)?;
-      },
-      (Expr::Literal(Lit::Float(lhs)), Expr::Literal(Lit::Int(LitInt { value: rhs, .. }))) => {
-        let f = match lhs {
-          LitFloat::Float(_) => LitFloat::Float(*rhs as f32),
-          LitFloat::Double(_) | LitFloat::LongDouble(_) => LitFloat::Double(*rhs as f64),
-        };
+      }
+    } else if let Expr::Literal(Lit::Int(LitInt { value, .. })) = &*self.rhs {
+      if let Some(f) = float_literal(*value, &lhs_ty) {
         self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
         rhs_ty = self.rhs.finish(ctx)?;
-      },
+      }
+    }
+
+    // Cast mixed float and double expression.
+    match (&*self.lhs, &*self.rhs) {
       (
         Expr::Literal(Lit::Float(LitFloat::Float(lhs))),
         Expr::Literal(Lit::Float(LitFloat::Double(_) | LitFloat::LongDouble(_))),
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 59110b5..6a02785 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -603,6 +603,12 @@ impl<'t> Expr<'t> {
 
             return Ok(Some(Type::BuiltIn(BuiltInType::Bool)))
           },
+          // The complement of an unsigned literal depends on the width of its type.
+          (UnaryOp::Comp, Self::Literal(Lit::Int(LitInt { value: i, suffix })))
+            if *i <= i32::MAX as i128 && !suffix.as_ref().is_some_and(BuiltInType::is_unsigned) =>
+          {
+            *self = Self::Literal(Lit::Int(LitInt { value: !*i, suffix: *suffix }));
+          },
           (UnaryOp::Comp, Self::Literal(Lit::Float(_) | Lit::String(_))) => {
             return Err(crate::CodegenError::UnsupportedExpression("complement of float or string".to_owned()))
           },
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 3db07c4..7493d55 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -62,6 +62,14 @@ pub enum BuiltInType {
 }
 
 impl BuiltInType {
+  /// Check if this is an unsigned integer type.
+  pub(crate) const fn is_unsigned(&self) -> bool {
+    matches!(
+      self,
+      Self::UChar | Self::UShort | Self::UInt | Self::ULong | Self::ULongLong | Self::SizeT
+    )
+  }
+
   /// Return the suffix used for literals of this type.
   pub fn suffix(&self) -> Option<&'static str> {
     match self {
-- 
2.43.0


From 5fb1391feb5eb6e3d1066a088f4ab9abe706e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 49/97] fix: convert the value of a condition to an integer
 where it is used as one

---
 src/ast/binary_expr.rs  | 47 +++++++++++++++++++++++++++++++++++++++++
 src/ast/cast.rs         |  8 ++++++-
 src/ast/expr.rs         | 29 ++++++++++++++++++++++++-
 src/ast/ternary_expr.rs | 10 +++++++--
 src/ast/unary_expr.rs   |  6 +++++-
 5 files changed, 95 insertions(+), 5 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b358c90..9ef55d1 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -238,6 +238,48 @@ impl<'t> BinaryExpr<'t> {
       ctx.export_as_macro = true;
     }
 
+    // The value of a condition is an integer.
+    match self.op {
+      BinaryOp::Mul | BinaryOp::Div | BinaryOp::Rem | BinaryOp::Add | BinaryOp::Sub => {
+        self.lhs.convert_bool(&mut lhs_ty, &rhs_ty);
+        self.rhs.convert_bool(&mut rhs_ty, &lhs_ty);
+      },
+      BinaryOp::Shl | BinaryOp::Shr => {
+        self.lhs.convert_bool(&mut lhs_ty, &None);
+        self.rhs.convert_bool(&mut rhs_ty, &None);
+      },
+      BinaryOp::BitAnd
+      | BinaryOp::BitOr
+      | BinaryOp::BitXor
+      | BinaryOp::Eq
+      | BinaryOp::Neq
+      | BinaryOp::Lt
+      | BinaryOp::Lte
+      | BinaryOp::Gt
+      | BinaryOp::Gte
+      | BinaryOp::Assign
+      | BinaryOp::AddAssign
+      | BinaryOp::SubAssign
+      | BinaryOp::MulAssign
+      | BinaryOp::DivAssign
+      | BinaryOp::RemAssign
+      | BinaryOp::ShlAssign
+      | BinaryOp::ShrAssign
+      | BinaryOp::BitAndAssign
+      | BinaryOp::BitXorAssign
+      | BinaryOp::BitOrAssign => {
+        let is_integer = |expr: &Expr, ty: &Option<Type>| {
+          matches!(expr, Expr::Literal(_)) || ty.as_ref().is_some_and(|ty| *ty != Type::BuiltIn(BuiltInType::Bool))
+        };
+        if is_integer(&self.lhs, &lhs_ty) {
+          self.rhs.convert_bool(&mut rhs_ty, &lhs_ty);
+        } else if is_integer(&self.rhs, &rhs_ty) && !self.op.is_assignment() {
+          self.lhs.convert_bool(&mut lhs_ty, &rhs_ty);
+        }
+      },
+      _ => (),
+    }
+
     // An integer literal is converted to the type of a floating-point operand.
     let float_literal = |value: i128, ty: &Option<Type<'t>>| match ty {
       Some(Type::BuiltIn(BuiltInType::Float)) => Some(LitFloat::Float(value as f32)),
@@ -315,6 +357,11 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    // The type of a shift or an assignment is that of the left side.
+    if (matches!(self.op, BinaryOp::Shl | BinaryOp::Shr) || self.op.is_assignment()) && lhs_ty.is_some() {
+      return Ok(lhs_ty)
+    }
+
     // Type can only be inferred if both sides have the same type or if only one side has a type.
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index ae60141..95d0fd5 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -29,7 +29,13 @@ impl<'t> Cast<'t> {
     C: CodegenContext,
   {
     self.ty.finish(ctx)?;
-    self.expr.finish(ctx)?;
+    let mut expr_ty = self.expr.finish(ctx)?;
+
+    // A `bool` cannot be cast directly to a floating-point type.
+    if matches!(self.ty, Type::BuiltIn(BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble)) {
+      self.expr.convert_bool(&mut expr_ty, &None);
+    }
+
     Ok(Some(self.ty.clone()))
   }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 6a02785..ceb94d6 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -396,6 +396,29 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Convert an expression of boolean type to the integer or floating-point type it is used as.
+  pub(crate) fn convert_bool(&mut self, ty: &mut Option<Type<'t>>, target: &Option<Type<'t>>) {
+    if *ty != Some(Type::BuiltIn(BuiltInType::Bool)) {
+      return
+    }
+
+    let target = match target {
+      Some(Type::BuiltIn(target)) if !matches!(target, BuiltInType::Bool | BuiltInType::Void) => *target,
+      _ => BuiltInType::Int,
+    };
+
+    let mut cast = Cast { ty: Type::BuiltIn(BuiltInType::Int), expr: Box::new(self.clone()) };
+    if target != BuiltInType::Int {
+      if matches!(target, BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble) {
+        cast = Cast { ty: Type::BuiltIn(target), expr: Box::new(Self::Cast(cast)) };
+      } else {
+        cast.ty = Type::BuiltIn(target);
+      }
+    }
+    *ty = Some(cast.ty.clone());
+    *self = Self::Cast(cast);
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
@@ -605,7 +628,11 @@ impl<'t> Expr<'t> {
           },
           // The complement of an unsigned literal depends on the width of its type.
           (UnaryOp::Comp, Self::Literal(Lit::Int(LitInt { value: i, suffix })))
-            if *i <= i32::MAX as i128 && !suffix.as_ref().is_some_and(BuiltInType::is_unsigned) =>
+            if match suffix {
+              Some(suffix) => !suffix.is_unsigned(),
+              // A hexadecimal literal may be unsigned without having a suffix.
+              None => *i <= i32::MAX as i128 || (u32::MAX as i128 + 1..=i64::MAX as i128).contains(i),
+            } =>
           {
             *self = Self::Literal(Lit::Int(LitInt { value: !*i, suffix: *suffix }));
           },
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 81e20b7..9bd4ab9 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -27,8 +27,14 @@ impl<'t> TernaryExpr<'t> {
   {
     self.condition.finish_condition(ctx)?;
 
-    let lhs_ty = self.if_branch.finish(ctx)?;
-    let rhs_ty = self.else_branch.finish(ctx)?;
+    let mut lhs_ty = self.if_branch.finish(ctx)?;
+    let mut rhs_ty = self.else_branch.finish(ctx)?;
+
+    // The value of a condition is an integer.
+    if lhs_ty != rhs_ty {
+      self.if_branch.convert_bool(&mut lhs_ty, &rhs_ty);
+      self.else_branch.convert_bool(&mut rhs_ty, &lhs_ty);
+    }
 
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index ed876df..adca148 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -68,7 +68,7 @@ impl<'t> UnaryExpr<'t> {
   where
     C: CodegenContext,
   {
-    let ty = self.expr.finish(ctx)?;
+    let mut ty = self.expr.finish(ctx)?;
 
     match self.op {
       UnaryOp::Deref => {
@@ -84,6 +84,10 @@ impl<'t> UnaryExpr<'t> {
           _ => Err(crate::CodegenError::UnsupportedExpression("dereference of non-pointer".to_owned())),
         }
       },
+      UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp => {
+        self.expr.convert_bool(&mut ty, &None);
+        Ok(ty)
+      },
       UnaryOp::AddrOf => Ok(ty.map(|ty| Type::Ptr { ty: Box::new(ty) })),
       _ => Ok(ty),
     }
-- 
2.43.0


From b5c1abc47d2937eea9aabe5f90b80485edb0e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 50/97] fix: suffix of the result of integer operations

---
 src/ast/literal/int.rs | 70 +++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/src/ast/literal/int.rs b/src/ast/literal/int.rs
index ffedf6e..f64d6fc 100644
--- a/src/ast/literal/int.rs
+++ b/src/ast/literal/int.rs
@@ -85,6 +85,24 @@ impl LitInt {
     }
   }
 
+  /// The suffix of the type which both literals are converted to by an arithmetic operation.
+  fn common_suffix(&self, other: &Self) -> Option<BuiltInType> {
+    use BuiltInType::*;
+
+    match (self.suffix, other.suffix) {
+      (Some(s1), Some(s2)) => {
+        const RANKS: [(BuiltInType, BuiltInType); 4] = [(Int, UInt), (SSizeT, SizeT), (Long, ULong), (LongLong, ULongLong)];
+        let rank = |s: BuiltInType| RANKS.iter().position(|(signed, unsigned)| s == *signed || s == *unsigned);
+
+        match (rank(s1)?, rank(s2)?) {
+          (r1, r2) if r1 == r2 => Some(if s1 == s2 { s1 } else { RANKS[r1].1 }),
+          (r1, r2) => Some(if r1 > r2 { s1 } else { s2 }),
+        }
+      },
+      (s1, s2) => s1.or(s2),
+    }
+  }
+
   fn parse_suffix<I, C>(input: I) -> IResult<I, (Option<LitIntUnsignedSuffix>, Option<LitIntSizeSuffix>)>
   where
     I: Debug
@@ -169,10 +187,7 @@ impl Add for LitInt {
 
   fn add(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_add(other.value);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -182,10 +197,7 @@ impl Sub for LitInt {
 
   fn sub(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_sub(other.value);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -195,10 +207,7 @@ impl Mul for LitInt {
 
   fn mul(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_mul(other.value);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -208,10 +217,7 @@ impl Div for LitInt {
 
   fn div(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_div(other.value);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -221,10 +227,7 @@ impl Rem for LitInt {
 
   fn rem(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_rem(other.value);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -234,11 +237,7 @@ impl Shl<LitInt> for LitInt {
 
   fn shl(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_shl(other.value.min(u32::MAX as i128) as u32);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
-    Self { value, suffix }
+    Self { value, suffix: self.suffix }
   }
 }
 
@@ -247,11 +246,7 @@ impl Shr<LitInt> for LitInt {
 
   fn shr(self, other: Self) -> Self::Output {
     let value = self.value.wrapping_shr(other.value.min(u32::MAX as i128) as u32);
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
-    Self { value, suffix }
+    Self { value, suffix: self.suffix }
   }
 }
 
@@ -260,10 +255,7 @@ impl BitAnd for LitInt {
 
   fn bitand(self, other: Self) -> Self::Output {
     let value = self.value & other.value;
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -273,10 +265,7 @@ impl BitOr for LitInt {
 
   fn bitor(self, other: Self) -> Self::Output {
     let value = self.value | other.value;
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
@@ -286,10 +275,7 @@ impl BitXor for LitInt {
 
   fn bitxor(self, other: Self) -> Self::Output {
     let value = self.value ^ other.value;
-    let suffix = match (self.suffix, other.suffix) {
-      (Some(s1), Some(s2)) if s1 == s2 => Some(s1),
-      (s1, s2) => s1.xor(s2),
-    };
+    let suffix = self.common_suffix(&other);
     Self { value, suffix }
   }
 }
-- 
2.43.0


From 563b7cc6e719c7b7ce200516a0386bf3e548b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 51/97] fix: compare integer literals which do not fit i32

---
 src/ast/binary_expr.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 9ef55d1..ad0ce6b 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -1,6 +1,6 @@
 use std::fmt::Debug;
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Literal, TokenStream};
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use crate::{codegen::fresh_ident, CodegenContext, LocalContext, MacroArgType};
@@ -448,6 +448,25 @@ impl<'t> BinaryExpr<'t> {
         quote! { { #let_place #lhs #op #rhs; #lhs } }
       },
       op => {
+        // Without a type, literals which are compared would be inferred as `i32`.
+        if matches!(
+          op,
+          BinaryOp::Eq | BinaryOp::Neq | BinaryOp::Lt | BinaryOp::Lte | BinaryOp::Gt | BinaryOp::Gte
+        ) {
+          if let (
+            Expr::Literal(Lit::Int(LitInt { value: lhs_value, .. })),
+            Expr::Literal(Lit::Int(LitInt { value: rhs_value, .. })),
+          ) = (&*self.lhs, &*self.rhs)
+          {
+            if i32::try_from(*lhs_value).is_err() || i32::try_from(*rhs_value).is_err() {
+              lhs = match (i64::try_from(*lhs_value), i64::try_from(*rhs_value)) {
+                (Ok(value), Ok(_)) => Literal::i64_suffixed(value).to_token_stream(),
+                _ => Literal::i128_suffixed(*lhs_value).to_token_stream(),
+              };
+            }
+          }
+        }
+
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
-- 
2.43.0


From 488ace516d2ae5430af4a688dc9f35cff4f00b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 52/97] fix: 'static lifetime of prefixed string constants for
 old targets

---
 src/ast/literal/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index 7fdd060..a1905ae 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -370,7 +370,7 @@ impl<'t> LitString<'t> {
 
         let byte_count = proc_macro2::Literal::usize_unsuffixed(bytes.len());
         let byte_string = proc_macro2::Literal::byte_string(&bytes);
-        let array_ty = quote! { &[u8; #byte_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u8; #byte_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, quote! { #byte_string }),
@@ -390,7 +390,7 @@ impl<'t> LitString<'t> {
 
         let word_count = proc_macro2::Literal::usize_unsuffixed(words.len());
         let word_array = quote! { &[#(#words),*] };
-        let array_ty = quote! { &[u16; #word_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u16; #word_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, word_array),
@@ -410,7 +410,7 @@ impl<'t> LitString<'t> {
 
         let dword_count = proc_macro2::Literal::usize_unsuffixed(dwords.len());
         let dword_array = quote! { &[#(#dwords),*] };
-        let array_ty = quote! { &[u32; #dword_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [u32; #dword_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, dword_array),
@@ -445,7 +445,7 @@ impl<'t> LitString<'t> {
 
         let wchar_count = proc_macro2::Literal::usize_unsuffixed(wchars.len());
         let wchar_array = quote! { &[#(#wchars as #wchar_ty),*] };
-        let array_ty = quote! { &[#wchar_ty; #wchar_count] };
+        let array_ty = quote_static_ref(ctx, quote! { [#wchar_ty; #wchar_count] });
 
         match method {
           GenerationMethod::Array => (array_ty, wchar_array),
-- 
2.43.0


From a46348702f82aca15fe4f14f5cb93845c9c046bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 53/97] fix: Rust target without a patch version, targets in
 function-like macros

---
 src/context.rs   | 12 ++++++++++--
 src/var_macro.rs | 19 -------------------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 06d43ec..eff8c05 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,3 +1,5 @@
+use semver::Version;
+
 use super::*;
 
 /// Type of a macro argument.
@@ -34,13 +36,19 @@ where
   C: CodegenContext,
 {
   pub fn new(cx: &'g C) -> Self {
+    // The target may be given without a patch version.
+    let rust_target = cx
+      .rust_target()
+      .and_then(|v| Version::parse(&v).or_else(|_| Version::parse(&format!("{v}.0"))).ok())
+      .map(|version| (version.major, version.minor));
+
     Self {
       arg_names: Default::default(),
       arg_types: Default::default(),
       export_as_macro: false,
       global_context: cx,
-      generate_cstr: true,
-      static_lifetime_elision: true,
+      generate_cstr: rust_target.map(|version| version >= (1, 59)).unwrap_or(true),
+      static_lifetime_elision: rust_target.map(|version| version >= (1, 17)).unwrap_or(true),
       is_variable_macro: false,
     }
   }
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 8a3c150..9048887 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -2,7 +2,6 @@ use std::{fmt::Debug, str};
 
 use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
-use semver::{Version, VersionReq};
 
 use crate::{ast::Lit, is_identifier, CodegenContext, Expr, LocalContext, MacroBody, MacroToken};
 
@@ -54,24 +53,6 @@ impl<'t> VarMacro<'t> {
     let mut ctx = LocalContext::new(&cx);
     ctx.is_variable_macro = true;
 
-    ctx.static_lifetime_elision = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.17").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
-    ctx.generate_cstr = ctx
-      .rust_target()
-      .and_then(|v| {
-        let version = Version::parse(&v).ok()?;
-        let req = VersionReq::parse(">=1.59").unwrap();
-        Some(req.matches(&version))
-      })
-      .unwrap_or(true);
-
     let mut tokens = TokenStream::new();
 
     // Cannot generate non-expression variable-like macros.
-- 
2.43.0


From 99425a5c6b02c80901e1d8b92e57b658eec7a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 54/97] fix: refuse assignments in variable-like macros

---
 src/ast/binary_expr.rs | 5 +++++
 src/ast/unary_expr.rs  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index ad0ce6b..14948e6 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -233,6 +233,11 @@ impl<'t> BinaryExpr<'t> {
       }
     }
 
+    // Cannot assign in variable macros, i.e. constants.
+    if self.op.is_assignment() && ctx.is_variable_macro() {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
+    }
+
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
       ctx.export_as_macro = true;
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index adca148..a7c16d6 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -84,6 +84,10 @@ impl<'t> UnaryExpr<'t> {
           _ => Err(crate::CodegenError::UnsupportedExpression("dereference of non-pointer".to_owned())),
         }
       },
+      // Cannot assign in variable macros, i.e. constants.
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec if ctx.is_variable_macro() => {
+        Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
+      },
       UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp => {
         self.expr.convert_bool(&mut ty, &None);
         Ok(ty)
-- 
2.43.0


From 0565d3872a8a0b75e2cd10e2448ad5c3914e2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 55/97] fix: refuse duplicate parameters and references to
 parameters a macro does not have

---
 src/fn_macro.rs   |  6 +++++-
 src/macro_body.rs | 10 ++++++++++
 src/var_macro.rs  |  5 +----
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 071d189..d65d5e9 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -140,7 +140,11 @@ impl<'t> FnMacro<'t> {
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
-    let (_, body) = MacroBody::parse(body).map_err(|_err| crate::ParserError::InvalidMacroBody)?;
+    if args.iter().enumerate().any(|(index, arg)| args[..index].contains(arg)) {
+      return Err(crate::ParserError::InvalidMacroArgs)
+    }
+
+    let body = MacroBody::parse_all(body, args.len()).ok_or(crate::ParserError::InvalidMacroBody)?;
 
     Ok(Self { name, args, body })
   }
diff --git a/src/macro_body.rs b/src/macro_body.rs
index 0b92656..7219d24 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -37,6 +37,16 @@ pub enum MacroBody<'t> {
 }
 
 impl<'t> MacroBody<'t> {
+  /// Parse a complete macro body which may refer to the given number of macro arguments.
+  pub(crate) fn parse_all(tokens: &[MacroToken<'t>], arg_count: usize) -> Option<Self> {
+    if tokens.iter().any(|token| matches!(token, MacroToken::Arg(arg) if arg.index() >= arg_count)) {
+      return None
+    }
+
+    let (_, body) = Self::parse(tokens).ok()?;
+    Some(body)
+  }
+
   pub(crate) fn parse<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, _) = meta(tokens)?;
 
diff --git a/src/var_macro.rs b/src/var_macro.rs
index 9048887..925ba6d 100644
--- a/src/var_macro.rs
+++ b/src/var_macro.rs
@@ -37,10 +37,7 @@ impl<'t> VarMacro<'t> {
   pub fn parse(name: &str, value: &[MacroToken<'t>]) -> Result<Self, crate::ParserError> {
     let name = if is_identifier(name) { name.to_owned() } else { return Err(crate::ParserError::InvalidMacroName) };
 
-    let body = match MacroBody::parse(value) {
-      Ok((_, body)) => body,
-      Err(_) => return Err(crate::ParserError::InvalidMacroBody),
-    };
+    let body = MacroBody::parse_all(value, 0).ok_or(crate::ParserError::InvalidMacroBody)?;
 
     Ok(Self { name, body })
   }
-- 
2.43.0


From 3fa886da6dca0ef4faa3a004b5c85223c457d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 56/97] fix: accept comments between any two tokens of a macro
 body

---
 src/macro_body.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macro_body.rs b/src/macro_body.rs
index 7219d24..655fe27 100644
--- a/src/macro_body.rs
+++ b/src/macro_body.rs
@@ -43,7 +43,11 @@ impl<'t> MacroBody<'t> {
       return None
     }
 
-    let (_, body) = Self::parse(tokens).ok()?;
+    // Comments may be between any two tokens.
+    let tokens =
+      tokens.iter().filter(|token| !matches!(token, MacroToken::Comment(_))).cloned().collect::<Vec<_>>();
+
+    let (_, body) = Self::parse(&tokens).ok()?;
     Some(body)
   }
 
-- 
2.43.0


From 0833056a504fad9b0826f719098abfa36293aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 57/97] fix: generate raw identifiers for names which are
 keywords in Rust

---
 src/ast/identifier.rs      | 20 +++++++++++++++++++-
 src/ast/identifier_expr.rs |  5 +++--
 src/ast/macro_arg.rs       |  5 +++--
 src/ast/stringify.rs       |  5 +++--
 src/ast/ty.rs              |  8 ++++----
 src/fn_macro.rs            | 16 ++++++++++------
 6 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index d65611e..9f1aa7e 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -29,6 +29,24 @@ pub(crate) fn is_identifier(s: &str) -> bool {
   false
 }
 
+/// Create an identifier, which is a raw identifier if it is a keyword in Rust but not in C.
+pub(crate) fn rust_ident(id: &str) -> Ident {
+  match id {
+    "abstract" | "as" | "async" | "await" | "become" | "box" | "dyn" | "final" | "fn" | "impl" | "in" | "let" | "loop"
+    | "macro" | "match" | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "trait" | "try" | "type"
+    | "unsafe" | "unsized" | "use" | "virtual" | "where" | "yield" => Ident::new_raw(id, Span::call_site()),
+    id => match id.strip_prefix("r#") {
+      Some(id) => Ident::new_raw(id, Span::call_site()),
+      None => Ident::new(id, Span::call_site()),
+    },
+  }
+}
+
+/// Check if this identifier cannot be used as the name of an item in Rust.
+pub(crate) fn is_reserved_identifier(id: &str) -> bool {
+  matches!(id, "_" | "crate" | "self" | "super" | "Self")
+}
+
 /// An identifier.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Identifier<'t> {
@@ -76,7 +94,7 @@ impl<'t> Identifier<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, _ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let id = Ident::new(&self.id, Span::call_site());
+    let id = rust_ident(&self.id);
     quote! { #id }
   }
 
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 9bc7e4e..e2f0865 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -8,7 +8,7 @@ use nom::{
   sequence::{delimited, preceded},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use super::{
@@ -160,7 +160,8 @@ impl<'t> IdentifierContinuationExpr<'t> {
 
     match self {
       Self::Arg(arg) => arg.to_tokens(ctx, &mut tokens),
-      Self::Plain(id) => id.to_tokens(ctx, &mut tokens),
+      // Keywords are allowed here since these are only parts of an identifier.
+      Self::Plain(id) => tokens.append(Ident::new(id.as_str(), Span::call_site())),
       Self::Int(int) => int.to_tokens(ctx, &mut tokens),
     }
     tokens
diff --git a/src/ast/macro_arg.rs b/src/ast/macro_arg.rs
index 11f7418..422e599 100644
--- a/src/ast/macro_arg.rs
+++ b/src/ast/macro_arg.rs
@@ -1,6 +1,7 @@
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
+use super::identifier::rust_ident;
 use crate::{CodegenContext, LocalContext};
 
 /// A macro argument.
@@ -25,7 +26,7 @@ impl MacroArg {
     tokens.append_all(match ctx.arg_name(self.index()) {
       "..." => quote! { $($__VA_ARGS__),* },
       name => {
-        let name = Ident::new(name, Span::call_site());
+        let name = rust_ident(name);
 
         if ctx.export_as_macro {
           quote! { $#name }
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index 26580b5..21eee31 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -6,10 +6,11 @@ use nom::{
   sequence::{preceded, terminated},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::{
+  identifier::rust_ident,
   tokens::{macro_arg, macro_id, meta, punct},
   BuiltInType, Expr, IdentifierExpr, Type, Var,
 };
@@ -64,7 +65,7 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = Ident::new(ctx.arg_name(arg.index()), Span::call_site());
+        let id = rust_ident(ctx.arg_name(arg.index()));
         Some(quote! { $#id })
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 7493d55..06463e4 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -7,7 +7,7 @@ use nom::{
   sequence::{pair, preceded, tuple},
   IResult,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
@@ -442,7 +442,7 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => name.to_tokens(ctx, tokens),
       Self::Path { segments, leading_colon } => {
         let leading_colon = if *leading_colon { Some(quote! { :: }) } else { None };
-        let ids = segments.iter().map(|id| Ident::new(id.as_str(), Span::call_site()));
+        let ids = segments.iter().map(|id| rust_ident(id.as_str()));
         tokens.append_all(quote! { #leading_colon #(#ids)::* })
       },
       Self::Ptr { ty } => {
@@ -500,7 +500,7 @@ impl<'t> Type<'t> {
       Self::BuiltIn(ty) => ty.to_rust_ty(ctx),
       Self::Identifier { name, .. } => {
         if let IdentifierExpr::Plain(name) = name {
-          let name = Ident::new(name.as_str(), Span::call_site());
+          let name = rust_ident(name.as_str());
           syn::parse_quote! { #name }
         } else {
           return None
@@ -509,7 +509,7 @@ impl<'t> Type<'t> {
       Self::Path { leading_colon, segments } => {
         let colon = if *leading_colon { Some(quote! { :: }) } else { None }.into_iter();
 
-        let segments = segments.iter().map(|s| Ident::new(s.as_str(), Span::call_site()));
+        let segments = segments.iter().map(|s| rust_ident(s.as_str()));
 
         syn::parse_quote! { #(#colon)* #(#segments)::*  }
       },
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index d65d5e9..793871e 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -12,7 +12,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{
   ast::{macro_id, meta, punct},
-  is_identifier, CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
+  is_identifier, is_reserved_identifier, rust_ident, CodegenContext, LocalContext, MacroArgType, MacroBody, MacroToken, Type,
 };
 
 /// A function-like macro.
@@ -136,11 +136,15 @@ impl<'t> FnMacro<'t> {
 
   /// Parse a function-like macro from a name, arguments and body tokens.
   pub fn parse(name: &str, args: &[MacroToken<'t>], body: &[MacroToken<'t>]) -> Result<Self, crate::ParserError> {
-    let name = if is_identifier(name) { name.to_owned() } else { return Err(crate::ParserError::InvalidMacroName) };
+    let name = if is_identifier(name) && !is_reserved_identifier(name) {
+      name.to_owned()
+    } else {
+      return Err(crate::ParserError::InvalidMacroName)
+    };
 
     let (_, args) = Self::parse_args(args).map_err(|_| crate::ParserError::InvalidMacroArgs)?;
 
-    if args.iter().enumerate().any(|(index, arg)| args[..index].contains(arg)) {
+    if args.iter().enumerate().any(|(index, arg)| args[..index].contains(arg) || is_reserved_identifier(arg)) {
       return Err(crate::ParserError::InvalidMacroArgs)
     }
 
@@ -181,7 +185,7 @@ impl<'t> FnMacro<'t> {
       || !ctx.arg_types.iter().all(|ty| matches!(*ty, MacroArgType::Known(_)))
       || ret_ty.is_none();
 
-    let name = Ident::new(&self.name, Span::call_site());
+    let name = rust_ident(&self.name);
 
     let mut body = TokenStream::new();
     match &self.body {
@@ -199,7 +203,7 @@ impl<'t> FnMacro<'t> {
           if arg == "..." {
             quote! { $($__VA_ARGS__:expr),* }
           } else {
-            let id = Ident::new(arg, Span::call_site());
+            let id = rust_ident(arg);
             let ty = ctx.arg_type(index);
 
             match ty {
@@ -232,7 +236,7 @@ impl<'t> FnMacro<'t> {
         .enumerate()
         .map(|(index, name)| {
           if let MacroArgType::Known(ty) = ctx.arg_type(index).clone() {
-            let id = Ident::new(name, Span::call_site());
+            let id = rust_ident(name);
             let ty = ty.to_token_stream(&mut ctx);
             quote! { #id: #ty }
           } else {
-- 
2.43.0


From 982f1fcd8d7e0757807a81954ee0da64fc202b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 58/97] fix: refuse C keywords as identifiers

---
 src/ast/identifier.rs      | 42 ++++++++++++++++++++++++++++++++++++++
 src/ast/identifier_expr.rs |  6 +++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index 9f1aa7e..4f1b90d 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -42,6 +42,48 @@ pub(crate) fn rust_ident(id: &str) -> Ident {
   }
 }
 
+/// Check if this is a keyword in C which cannot be used as the name of e.g. a variable.
+///
+/// `break` and `continue` are the same in Rust.
+pub(crate) fn is_c_keyword(id: &str) -> bool {
+  matches!(
+    id,
+    "auto"
+      | "case"
+      | "char"
+      | "const"
+      | "default"
+      | "do"
+      | "double"
+      | "else"
+      | "enum"
+      | "extern"
+      | "float"
+      | "for"
+      | "goto"
+      | "if"
+      | "inline"
+      | "int"
+      | "long"
+      | "register"
+      | "restrict"
+      | "return"
+      | "short"
+      | "signed"
+      | "sizeof"
+      | "static"
+      | "struct"
+      | "switch"
+      | "typedef"
+      | "union"
+      | "unsigned"
+      | "void"
+      | "volatile"
+      | "while"
+      | "_Bool"
+  )
+}
+
 /// Check if this identifier cannot be used as the name of an item in Rust.
 pub(crate) fn is_reserved_identifier(id: &str) -> bool {
   matches!(id, "_" | "crate" | "self" | "super" | "Self")
diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index e2f0865..45f14c4 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, fmt::Debug};
 use nom::{
   branch::alt,
   character::complete::char,
-  combinator::{map, map_opt, value},
+  combinator::{map, map_opt, value, verify},
   multi::{fold_many0, many1},
   sequence::{delimited, preceded},
   IResult,
@@ -32,6 +32,10 @@ pub enum IdentifierExpr<'t> {
 impl<'t> IdentifierExpr<'t> {
   /// Parse identifier concatenation, e.g. `arg ## 2`.
   pub(crate) fn parse_concat_ident<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    verify(Self::parse_concat, |id| !matches!(id, Self::Plain(id) if is_c_keyword(id.as_str())))(tokens)
+  }
+
+  fn parse_concat<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     let (tokens, id) = alt((map(macro_arg, Self::Arg), map(macro_id, Self::Plain)))(tokens)?;
 
     fold_many0(
-- 
2.43.0


From bda816534660ee26622f9dc48a1f6439b17b27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 59/97] fix: do not panic when stringifying variadic arguments

---
 src/ast/stringify.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index 21eee31..413dcaa 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -65,8 +65,13 @@ impl<'t> Stringify<'t> {
   pub(crate) fn to_token_stream_inner<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, '_, C>) -> TokenStream {
     let expr = match &*self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
-        let id = rust_ident(ctx.arg_name(arg.index()));
-        Some(quote! { $#id })
+        Some(match ctx.arg_name(arg.index()) {
+          "..." => quote! { $($__VA_ARGS__),* },
+          name => {
+            let id = rust_ident(name);
+            quote! { $#id }
+          },
+        })
       },
       Expr::Var(Var { name: IdentifierExpr::Plain(name) }) => match name.as_str() {
         "__LINE__" => {
-- 
2.43.0


From af3dc1c4ae05834174fa749098b1f248ffe80ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 60/97] fix: do not panic when wchar_t is resolved to an
 unsupported type

---
 src/ast/literal/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/literal/string.rs b/src/ast/literal/string.rs
index a1905ae..24f9adf 100644
--- a/src/ast/literal/string.rs
+++ b/src/ast/literal/string.rs
@@ -438,7 +438,7 @@ impl<'t> LitString<'t> {
           .collect::<Vec<_>>();
 
         let wchar_ty = if let Some(ty) = ctx.resolve_ty("wchar_t") {
-          Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref()).unwrap().to_token_stream(ctx)
+          quote! { #ty }
         } else {
           quote! { wchar_t }
         };
-- 
2.43.0


From 7f70995dd2cde9885f135ee7cd290ff74ac325f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 61/97] fix: refuse generic types instead of dropping their
 arguments, parse verbatim types

---
 src/ast/ty.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 06463e4..ce333e5 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -471,10 +471,16 @@ impl<'t> Type<'t> {
         }
       },
       syn::Type::Tuple(tuple_ty) if tuple_ty.elems.is_empty() => Ok(Type::BuiltIn(BuiltInType::Void)),
-      syn::Type::Verbatim(ty) => {
-        Ok(Self::Identifier { name: IdentifierExpr::Plain(Identifier { id: ty.to_string().into() }), is_struct: false })
+      syn::Type::Verbatim(tokens) => match syn::parse2(tokens.clone()) {
+        Ok(path_ty) => Self::from_rust_ty(&syn::Type::Path(path_ty), ffi_prefix),
+        Err(_) => Err(crate::CodegenError::UnsupportedType(tokens.to_string())),
       },
       syn::Type::Path(path_ty) => {
+        // Generic types and associated types cannot be represented.
+        if path_ty.qself.is_some() || path_ty.path.segments.iter().any(|s| !s.arguments.is_none()) {
+          return Err(crate::CodegenError::UnsupportedType(ty.into_token_stream().to_string()))
+        }
+
         if let Some(ty) = BuiltInType::from_rust_ty(path_ty, ffi_prefix) {
           return Ok(Self::BuiltIn(ty))
         }
-- 
2.43.0


From faf85461fc606743a6fae84da725f20dae66d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 62/97] fix: refuse trailing tokens when parsing a type from a
 string

---
 src/ast/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index ce333e5..c66145b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -2,7 +2,7 @@ use std::{fmt::Debug, str::FromStr};
 
 use nom::{
   branch::{alt, permutation},
-  combinator::{map, opt, value},
+  combinator::{all_consuming, map, opt, value},
   multi::fold_many0,
   sequence::{pair, preceded, tuple},
   IResult,
@@ -573,7 +573,7 @@ impl FromStr for Type<'static> {
         }
       })
       .collect::<Result<Vec<_>, _>>()?;
-    let (_, ty) = Type::parse(&tokens).map_err(|_| crate::CodegenError::UnsupportedType(s.to_owned()))?;
+    let (_, ty) = all_consuming(Type::parse)(&tokens).map_err(|_: nom::Err<nom::error::Error<&[MacroToken]>>| crate::CodegenError::UnsupportedType(s.to_owned()))?;
 
     match ty.to_static() {
       Some(ty) => Ok(ty),
-- 
2.43.0


From b596b240313339d12c9bddcb15c4be21d5cfa706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 63/97] fix: refuse pasting of variadic arguments

---
 src/ast/identifier_expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index 45f14c4..c4d3674 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -108,6 +108,9 @@ impl<'t> IdentifierExpr<'t> {
       Self::Concat(ids) => {
         for id in ids {
           match id {
+            IdentifierContinuationExpr::Arg(arg) if ctx.arg_name(arg.index()) == "..." => {
+              return Err(crate::CodegenError::UnsupportedExpression("concatenation of variadic arguments".to_owned()))
+            },
             IdentifierContinuationExpr::Arg(arg) => {
               // `concat_idents!` arguments must be `ident`.
               *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
-- 
2.43.0


From f6f49f706a009143d1a381e7484bc34b71e0abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 64/97] fix: escape all braces in inline assembly templates

---
 src/ast/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 49cb1ba..ccf9202 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -91,7 +91,7 @@ impl<'t> Asm<'t> {
           ),
           // Escape Rust format string.
           map(alt((char('{'), char('}'))), |c| format!("{0}{0}", c)),
-          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%"), String::new, |mut acc, c| {
+          fold_many1(none_of::<_, _, nom::error::Error<&str>>("%{}"), String::new, |mut acc, c| {
             acc.push(c);
             acc
           }),
-- 
2.43.0


From 17159a3f748c0752aa5ca8a557e139565c274b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 65/97] fix: bind inline assembly inputs tied to an output
 correctly

---
 src/ast/asm.rs | 97 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 77 insertions(+), 20 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index ccf9202..bd4f07c 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -199,7 +199,24 @@ impl<'t> Asm<'t> {
   where
     C: CodegenContext,
   {
-    for (_, _, output) in self.outputs.iter_mut() {
+    let unsupported = || crate::CodegenError::UnsupportedExpression("inline assembly operand".to_owned());
+
+    // Every output can be tied to at most one input.
+    let mut tied_outputs = BTreeSet::new();
+    for (constraint, _) in self.inputs.iter() {
+      if let RegConstraint::Digit(d) = constraint {
+        match self.outputs.get(*d as usize) {
+          Some((Dir::Out, _, _)) if tied_outputs.insert(*d) => (),
+          _ => return Err(unsupported()),
+        }
+      }
+    }
+
+    for (_, constraint, output) in self.outputs.iter_mut() {
+      if matches!(constraint, RegConstraint::Digit(_)) {
+        return Err(unsupported())
+      }
+
       output.finish(ctx)?;
     }
 
@@ -234,36 +251,76 @@ impl<'t> Asm<'t> {
       .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
-  pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let template = &self.template;
+  /// Replace the number of every operand, e.g. `{2}`, in a line of the template.
+  fn renumber_operands(line: &str, operands: &[usize]) -> String {
+    let mut renumbered = String::new();
+    let mut rest = line;
 
-    let mut outputs = self.outputs.clone();
-    let mut inputs = self.inputs.clone();
+    while let Some(c) = rest.chars().next() {
+      rest = &rest[c.len_utf8()..];
+      renumbered.push(c);
 
-    for (constraint, _) in self.inputs.iter() {
-      if let RegConstraint::Digit(d) = constraint {
-        if let Some((ref mut dir, _, _)) = outputs.get_mut(*d as usize) {
-          inputs.remove(*d as usize);
-          *dir = Dir::InOut;
+      if c != '{' {
+        continue
+      }
+
+      if let Some(after_brace) = rest.strip_prefix('{') {
+        // Escaped brace.
+        renumbered.push('{');
+        rest = after_brace;
+      } else if let Some((operand, after_operand)) = rest.split_once('}') {
+        rest = after_operand;
+        match operand.parse::<usize>().ok().and_then(|n| operands.get(n)) {
+          Some(n) => renumbered.push_str(&n.to_string()),
+          None => renumbered.push_str(operand),
         }
+        renumbered.push('}');
       }
     }
 
-    let outputs = outputs
-      .iter()
-      .map(|(dir, reg, var)| {
+    renumbered
+  }
+
+  pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
+    // Inputs which are tied to an output are merged into that output.
+    let mut tied_inputs = vec![None; self.outputs.len()];
+    let mut operands = (0..self.outputs.len()).collect::<Vec<_>>();
+    let mut inputs = Vec::new();
+
+    for (reg, var) in self.inputs.iter() {
+      if let RegConstraint::Digit(d) = reg {
+        tied_inputs[*d as usize] = Some(var);
+        operands.push(*d as usize);
+      } else {
+        operands.push(self.outputs.len() + inputs.len());
         let var = var.to_token_stream(ctx);
-        quote! { #dir(#reg) #var }
-      })
-      .collect::<Vec<_>>();
-    let inputs = inputs
+        inputs.push(quote! { in(#reg) #var });
+      }
+    }
+
+    let outputs = self
+      .outputs
       .iter()
-      .map(|(reg, var)| {
-        let var = var.to_token_stream(ctx);
-        quote! { in(#reg) #var }
+      .zip(tied_inputs)
+      .map(|((dir, reg, var), tied_input)| {
+        let output = var.to_token_stream(ctx);
+        match tied_input {
+          Some(input) if input == var => {
+            let dir = Dir::InOut;
+            quote! { #dir(#reg) #output }
+          },
+          Some(input) => {
+            let dir = Dir::InOut;
+            let input = input.to_token_stream(ctx);
+            quote! { #dir(#reg) #input => #output }
+          },
+          None => quote! { #dir(#reg) #output },
+        }
       })
       .collect::<Vec<_>>();
 
+    let template = self.template.iter().map(|line| Self::renumber_operands(line, &operands)).collect::<Vec<_>>();
+
     let mut clobbers: BTreeSet<_> = self.clobbers.iter().cloned().collect();
 
     let mut options = Vec::new();
-- 
2.43.0


From c00dce9f37d47922315b494b8614d232842768a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 66/97] fix: do not generate clobber_abi for inline assembly
 with outputs

---
 src/ast/asm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index bd4f07c..021c3e6 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -342,7 +342,8 @@ impl<'t> Asm<'t> {
         options.push(quote! { preserves_flags });
       }
 
-      let clobber_abi = if clobbers.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
+      // Outputs must be explicit registers in order to use `clobber_abi`.
+      let clobber_abi = if clobbers.is_empty() || !outputs.is_empty() { None } else { Some(quote! { clobber_abi("C"), }) };
 
       (quote! { asm! }, clobber_abi)
     };
-- 
2.43.0


From 419d20425f69e943d2f4027164e6d3d6ee00143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 67/97] fix: do not generate global_asm for inline assembly
 with operands

---
 src/ast/asm.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 021c3e6..8914eea 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -245,10 +245,11 @@ impl<'t> Asm<'t> {
   }
 
   fn is_global(&self) -> bool {
-    self
-      .template
-      .iter()
-      .any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
+    // Only inline assembly without operands can be outside of a function.
+    self.outputs.is_empty()
+      && self.inputs.is_empty()
+      && self.clobbers.is_empty()
+      && self.template.iter().any(|line| line.starts_with(".globl") || line.starts_with(".global") || line.starts_with(".section"))
   }
 
   /// Replace the number of every operand, e.g. `{2}`, in a line of the template.
-- 
2.43.0


From d99e2d0ca8ddffadce6b4eda4010e44009a53e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 68/97] fix: refuse operand modifiers in inline assembly
 templates

---
 src/ast/asm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 8914eea..cffb550 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -187,6 +187,12 @@ impl<'t> Asm<'t> {
       ))),
     )(tokens)?;
 
+    // With operands, `%` followed by letters is an operand modifier instead of a register.
+    let has_operands = outputs.is_some() || inputs.is_some() || clobbers.is_some();
+    if has_operands && template.iter().any(|line| line.contains('%')) {
+      return Err(nom::Err::Error(nom::error::Error::new(tokens, nom::error::ErrorKind::Verify)))
+    }
+
     let outputs = outputs.unwrap_or_default();
     let inputs = inputs.unwrap_or_default();
     let clobbers = clobbers.unwrap_or_default();
-- 
2.43.0


From 62d6fd2fc09c65808e2152172e1c1cc2b1d5a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 69/97] fix: keep the generated code for ternaries with an
 untyped literal branch

---
 src/ast/ternary_expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 9bd4ab9..3b9005f 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -31,7 +31,11 @@ impl<'t> TernaryExpr<'t> {
     let mut rhs_ty = self.else_branch.finish(ctx)?;
 
     // The value of a condition is an integer.
-    if lhs_ty != rhs_ty {
+    let is_untyped_literal = |expr: &Expr<'t>, ty: &Option<Type<'t>>| ty.is_none() && matches!(expr, Expr::Literal(_));
+    if lhs_ty != rhs_ty
+      && !is_untyped_literal(&self.if_branch, &lhs_ty)
+      && !is_untyped_literal(&self.else_branch, &rhs_ty)
+    {
       self.if_branch.convert_bool(&mut lhs_ty, &rhs_ty);
       self.else_branch.convert_bool(&mut rhs_ty, &lhs_ty);
     }
-- 
2.43.0


From 0b89e2de5d4c5c737ee29742afcc4b762a0d8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 70/97] fix: accept types as macro arguments where they are
 used as types

---
 src/ast/expr.rs          |  9 ++++++++-
 src/ast/function_call.rs |  6 +++---
 src/ast/function_decl.rs | 17 ++++++++++++-----
 src/ast/macro_arg.rs     |  6 +++---
 src/ast/stringify.rs     |  5 ++---
 src/ast/ty.rs            | 13 ++++++++++++-
 src/ast/var.rs           | 13 +++++++++----
 src/ast/var_decl.rs      | 12 +++++++++++-
 src/context.rs           |  2 ++
 src/fn_macro.rs          |  2 +-
 10 files changed, 63 insertions(+), 22 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index ceb94d6..4f4dc46 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -13,7 +13,7 @@ use quote::{quote, TokenStreamExt};
 use super::{tokens::parenthesized, *};
 use crate::{
   codegen::{fresh_ident, quote_c_char_ptr},
-  CodegenContext, LocalContext, MacroToken};
+  CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// An expression.
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -726,6 +726,13 @@ impl<'t> Expr<'t> {
       },
       Self::Ternary(expr) => expr.finish(ctx),
       Self::SizeOf(ty) => {
+        // The size of an argument with a known type is the size of that type.
+        if let Type::Identifier { name: IdentifierExpr::Arg(arg), .. } = ty {
+          if let MacroArgType::Known(arg_ty) = ctx.arg_type(arg.index()) {
+            *ty = arg_ty.clone();
+          }
+        }
+
         ty.finish(ctx)?;
         Ok(Some(Type::BuiltIn(BuiltInType::SizeT)))
       },
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 2dd4532..64efdb4 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -48,7 +48,7 @@ impl<'t> FunctionCall<'t> {
             // we can infer the type of the macro argument.
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = arg {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
                 *arg_type = MacroArgType::Known(Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?);
               }
             }
@@ -61,14 +61,14 @@ impl<'t> FunctionCall<'t> {
           "__builtin_offsetof" if self.args.len() == 2 => {
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[0] {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
                 *arg_type = MacroArgType::Ty;
               }
             }
 
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[1] {
               let arg_type = ctx.arg_type_mut(arg.index());
-              if *arg_type == MacroArgType::Unknown {
+              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
                 *arg_type = MacroArgType::Tt;
               }
             }
diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 5fea3ce..c34ed8a 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -1,4 +1,4 @@
-use std::fmt::Debug;
+use std::{fmt::Debug, iter};
 
 use nom::{
   branch::permutation,
@@ -46,12 +46,19 @@ impl<'t> FunctionDecl<'t> {
   {
     self.ret_ty.finish(ctx)?;
 
-    if let IdentifierExpr::Arg(arg) = &self.name {
-      *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+    for (ty, _name) in self.args.iter_mut() {
+      ty.finish(ctx)?;
     }
 
-    for (ty, _arg) in self.args.iter_mut() {
-      ty.finish(ctx)?;
+    for name in iter::once(&self.name).chain(self.args.iter().map(|(_ty, name)| name)) {
+      match name {
+        IdentifierExpr::Arg(arg) => *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident,
+        IdentifierExpr::Plain(_) => (),
+        // A macro cannot be used as the name of a function or an argument.
+        IdentifierExpr::Concat(_) => {
+          return Err(crate::CodegenError::UnsupportedExpression("concatenation in declaration".to_owned()))
+        },
+      }
     }
 
     // A declaration has no type.
diff --git a/src/ast/macro_arg.rs b/src/ast/macro_arg.rs
index 422e599..0f7b6d3 100644
--- a/src/ast/macro_arg.rs
+++ b/src/ast/macro_arg.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use super::identifier::rust_ident;
@@ -26,11 +26,11 @@ impl MacroArg {
     tokens.append_all(match ctx.arg_name(self.index()) {
       "..." => quote! { $($__VA_ARGS__),* },
       name => {
-        let name = rust_ident(name);
-
         if ctx.export_as_macro {
+          let name = Ident::new(name, Span::call_site());
           quote! { $#name }
         } else {
+          let name = rust_ident(name);
           quote! { #name }
         }
       },
diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index 413dcaa..32ac33a 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -6,11 +6,10 @@ use nom::{
   sequence::{preceded, terminated},
   IResult,
 };
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, TokenStreamExt};
 
 use super::{
-  identifier::rust_ident,
   tokens::{macro_arg, macro_id, meta, punct},
   BuiltInType, Expr, IdentifierExpr, Type, Var,
 };
@@ -68,7 +67,7 @@ impl<'t> Stringify<'t> {
         Some(match ctx.arg_name(arg.index()) {
           "..." => quote! { $($__VA_ARGS__),* },
           name => {
-            let id = rust_ident(name);
+            let id = Ident::new(name, Span::call_site());
             quote! { $#id }
           },
         })
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index c66145b..bd2f347 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -11,7 +11,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, ToTokens, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A built-in type.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -420,6 +420,17 @@ impl<'t> Type<'t> {
       Self::Identifier { name, .. } => {
         name.finish(ctx)?;
 
+        if let IdentifierExpr::Arg(arg) = name {
+          let arg_ty = ctx.arg_type_mut(arg.index());
+          match arg_ty {
+            MacroArgType::Unknown => *arg_ty = MacroArgType::Ty,
+            MacroArgType::Known(_) | MacroArgType::Value | MacroArgType::Expr => {
+              return Err(crate::CodegenError::UnsupportedType("value used as a type".to_owned()))
+            },
+            _ => (),
+          }
+        }
+
         if let IdentifierExpr::Plain(ref id) = name {
           if let Some(ty) = ctx.resolve_ty(id.as_str()) {
             *self = Self::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?;
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 73a938e..7267a8a 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -24,10 +24,15 @@ impl<'t> Var<'t> {
 
     match &self.name {
       IdentifierExpr::Arg(arg) => {
-        if let MacroArgType::Known(arg_ty) = ctx.arg_type_mut(arg.index()) {
-          Ok(Some(arg_ty.clone()))
-        } else {
-          Ok(None)
+        let arg_ty = ctx.arg_type_mut(arg.index());
+        match arg_ty {
+          MacroArgType::Known(arg_ty) => Ok(Some(arg_ty.clone())),
+          MacroArgType::Ty => Err(crate::CodegenError::UnsupportedExpression("type used as a value".to_owned())),
+          MacroArgType::Unknown => {
+            *arg_ty = MacroArgType::Value;
+            Ok(None)
+          },
+          _ => Ok(None),
         }
       },
       IdentifierExpr::Plain(id) => {
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index f1615ad..cda0f21 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -5,7 +5,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, TokenStreamExt};
 
 use super::*;
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{CodegenContext, LocalContext, MacroArgType, MacroToken};
 
 /// A variable declaration.
 ///
@@ -40,6 +40,16 @@ impl<'t> VarDecl<'t> {
   {
     self.ty.finish(ctx)?;
     self.name.finish(ctx)?;
+
+    match &self.name {
+      IdentifierExpr::Arg(arg) => *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident,
+      IdentifierExpr::Plain(_) => (),
+      // A macro cannot be used as the name of a variable.
+      IdentifierExpr::Concat(_) => {
+        return Err(crate::CodegenError::UnsupportedExpression("concatenation in declaration".to_owned()))
+      },
+    }
+
     self.rhs.finish(ctx)?;
 
     Ok(None)
diff --git a/src/context.rs b/src/context.rs
index eff8c05..f4ae84f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -15,6 +15,8 @@ pub(crate) enum MacroArgType<'t> {
   Tt,
   /// known type
   Known(Type<'t>),
+  /// unknown type, used as a value
+  Value,
   /// unknown type
   Unknown,
 }
diff --git a/src/fn_macro.rs b/src/fn_macro.rs
index 793871e..4ba12da 100644
--- a/src/fn_macro.rs
+++ b/src/fn_macro.rs
@@ -203,7 +203,7 @@ impl<'t> FnMacro<'t> {
           if arg == "..." {
             quote! { $($__VA_ARGS__:expr),* }
           } else {
-            let id = rust_ident(arg);
+            let id = Ident::new(arg, Span::call_site());
             let ty = ctx.arg_type(index);
 
             match ty {
-- 
2.43.0


From 464c226b41c228e526fb2fe25f4f5d69d4a040b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 71/97] fix: parenthesise the line number where a cast has to
 be

---
 src/ast/expr.rs | 4 +++-
 src/ast/var.rs  | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 4f4dc46..6fb4d9e 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -32,8 +32,9 @@ pub enum Expr<'t> {
 }
 
 impl<'t> Expr<'t> {
-  pub(crate) const fn precedence(&self) -> (u8, Associativity) {
+  pub(crate) fn precedence(&self) -> (u8, Associativity) {
     match self {
+      Self::Var(var) if var.is_line() => (3, Associativity::Left), // Same as `Cast`.
       Self::Literal(_) | Self::Var(_) => (0, Associativity::None),
       Self::FunctionCall(_) => (1, Associativity::Left),
       Self::Stringify(_) | Self::ConcatString(_) => (3, Associativity::Left),
@@ -743,6 +744,7 @@ impl<'t> Expr<'t> {
   pub(crate) fn ends_with_cast(&self) -> bool {
     match self {
       Self::Cast(_) | Self::SizeOf(_) => true,
+      Self::Var(var) => var.is_line(),
       Self::Binary(expr) if !expr.op.is_assignment() => expr.rhs.ends_with_cast(),
       _ => false,
     }
diff --git a/src/ast/var.rs b/src/ast/var.rs
index 7267a8a..d55503b 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -16,6 +16,11 @@ pub struct Var<'t> {
 }
 
 impl<'t> Var<'t> {
+  /// Check if this is `__LINE__`, for which a cast is generated.
+  pub(crate) fn is_line(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__LINE__")
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From 5b89c45d1504aebf8831e6dcc0d99abda8ce34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 72/97] fix: refuse variadic arguments as types and names of
 declarations

---
 src/ast/function_decl.rs | 3 +++
 src/ast/ty.rs            | 4 ++++
 src/ast/var_decl.rs      | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index c34ed8a..4929e10 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -52,6 +52,9 @@ impl<'t> FunctionDecl<'t> {
 
     for name in iter::once(&self.name).chain(self.args.iter().map(|(_ty, name)| name)) {
       match name {
+        IdentifierExpr::Arg(arg) if ctx.arg_name(arg.index()) == "..." => {
+          return Err(crate::CodegenError::UnsupportedExpression("variadic arguments in declaration".to_owned()))
+        },
         IdentifierExpr::Arg(arg) => *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident,
         IdentifierExpr::Plain(_) => (),
         // A macro cannot be used as the name of a function or an argument.
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index bd2f347..e924624 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -421,6 +421,10 @@ impl<'t> Type<'t> {
         name.finish(ctx)?;
 
         if let IdentifierExpr::Arg(arg) = name {
+          if ctx.arg_name(arg.index()) == "..." {
+            return Err(crate::CodegenError::UnsupportedType("variadic arguments used as a type".to_owned()))
+          }
+
           let arg_ty = ctx.arg_type_mut(arg.index());
           match arg_ty {
             MacroArgType::Unknown => *arg_ty = MacroArgType::Ty,
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index cda0f21..233e89a 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -42,6 +42,9 @@ impl<'t> VarDecl<'t> {
     self.name.finish(ctx)?;
 
     match &self.name {
+      IdentifierExpr::Arg(arg) if ctx.arg_name(arg.index()) == "..." => {
+        return Err(crate::CodegenError::UnsupportedExpression("variadic arguments in declaration".to_owned()))
+      },
       IdentifierExpr::Arg(arg) => *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident,
       IdentifierExpr::Plain(_) => (),
       // A macro cannot be used as the name of a variable.
-- 
2.43.0


From 23b0bc815023920ca2590c911da77ece3cf3107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 73/97] fix: refuse assignments to values

---
 src/ast/binary_expr.rs |  4 ++++
 src/ast/expr.rs        | 12 ++++++++++++
 src/ast/unary_expr.rs  |  3 +++
 src/ast/var.rs         | 11 +++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 14948e6..8461379 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -238,6 +238,10 @@ impl<'t> BinaryExpr<'t> {
       return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
     }
 
+    if self.op.is_assignment() && !self.lhs.is_place() {
+      return Err(crate::CodegenError::UnsupportedExpression("assignment to a value".to_owned()))
+    }
+
     // Must export as a macro in order to be able to assign to a macro argument.
     if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
       ctx.export_as_macro = true;
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 6fb4d9e..ab89429 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -770,6 +770,18 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this expression may designate an object, i.e. may be assigned to.
+  pub(crate) fn is_place(&self) -> bool {
+    match self {
+      Self::Var(var) => !var.is_predefined(),
+      // This may be an undefined macro.
+      Self::FunctionCall(_) => true,
+      Self::Unary(expr) => expr.op == UnaryOp::Deref,
+      Self::Binary(expr) => expr.op == BinaryOp::MemberAccess,
+      _ => false,
+    }
+  }
+
   /// Check if this place designates the same object even after assigning to it.
   fn is_repeatable_place(&self) -> bool {
     fn is_repeatable_pointer(expr: &Expr<'_>) -> bool {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index a7c16d6..573b15b 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -88,6 +88,9 @@ impl<'t> UnaryExpr<'t> {
       UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec if ctx.is_variable_macro() => {
         Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
       },
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec if !self.expr.is_place() => {
+        Err(crate::CodegenError::UnsupportedExpression("assignment to a value".to_owned()))
+      },
       UnaryOp::Plus | UnaryOp::Minus | UnaryOp::Comp => {
         self.expr.convert_bool(&mut ty, &None);
         Ok(ty)
diff --git a/src/ast/var.rs b/src/ast/var.rs
index d55503b..c0ceac7 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -21,6 +21,17 @@ impl<'t> Var<'t> {
     matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__LINE__")
   }
 
+  /// Check if this is a predefined macro.
+  pub(crate) fn is_predefined(&self) -> bool {
+    matches!(
+      &self.name,
+      IdentifierExpr::Plain(name) if matches!(
+        name.as_str(),
+        "__LINE__" | "__FILE__" | "__SCHAR_MAX__" | "__SHRT_MAX__" | "__INT_MAX__" | "__LONG_MAX__" | "__LONG_LONG_MAX__"
+      )
+    )
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
-- 
2.43.0


From 7bfb862b09d5d976f2b0a2c1d9d478cea4763ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 74/97] fix: accept types for stringified macro arguments which
 are used as types

---
 src/ast/stringify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/stringify.rs b/src/ast/stringify.rs
index 32ac33a..baa50a8 100644
--- a/src/ast/stringify.rs
+++ b/src/ast/stringify.rs
@@ -44,7 +44,7 @@ impl<'t> Stringify<'t> {
     match &mut *self.arg {
       Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
         let arg_ty = ctx.arg_type_mut(arg.index());
-        if *arg_ty != MacroArgType::Ident {
+        if !matches!(arg_ty, MacroArgType::Ident | MacroArgType::Ty | MacroArgType::Tt) {
           *arg_ty = MacroArgType::Expr;
         }
       },
-- 
2.43.0


From 58bc8854e6bd0dcd354d6fb139669bc6a2cc64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 75/97] fix: do not resolve the names of fields as variables

---
 src/ast/binary_expr.rs | 68 ++++++++++++++++++++++++++++--------------
 src/ast/expr.rs        |  8 ++---
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 8461379..e5a7850 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -224,15 +224,13 @@ impl<'t> BinaryExpr<'t> {
     };
 
     let mut lhs_ty = self.lhs.finish(ctx)?;
-    let mut rhs_ty = self.rhs.finish(ctx)?;
 
-    // Arg must be an identifier for use as a member name.
     if self.op == BinaryOp::MemberAccess {
-      if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &*self.rhs {
-        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
-      }
+      return self.finish_member_access(lhs_ty, ctx)
     }
 
+    let mut rhs_ty = self.rhs.finish(ctx)?;
+
     // Cannot assign in variable macros, i.e. constants.
     if self.op.is_assignment() && ctx.is_variable_macro() {
       return Err(crate::CodegenError::UnsupportedExpression("assignment in variable-like macro".to_owned()))
@@ -338,22 +336,6 @@ impl<'t> BinaryExpr<'t> {
       _ => (),
     }
 
-    if self.op == BinaryOp::MemberAccess {
-      if let Some(Type::Identifier { name: IdentifierExpr::Plain(ty_name), .. }) = lhs_ty {
-        let ty = ty_name.as_str();
-
-        if let Expr::Var(Var { name: IdentifierExpr::Plain(field_name) }) = &*self.rhs {
-          let field = field_name.as_str();
-
-          if let Some(ty) = ctx.resolve_field_ty(ty, field) {
-            return Ok(Some(Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?))
-          }
-        }
-      };
-
-      return Ok(None)
-    }
-
     // If one side is not a pointer, a side without a type may still be one.
     if matches!(self.op, BinaryOp::Add | BinaryOp::Sub) {
       match ((&*self.lhs, &lhs_ty), (&*self.rhs, &rhs_ty)) {
@@ -379,14 +361,56 @@ impl<'t> BinaryExpr<'t> {
     }
   }
 
+  fn finish_member_access<C>(
+    &mut self,
+    lhs_ty: Option<Type<'t>>,
+    ctx: &mut LocalContext<'_, 't, C>,
+  ) -> Result<Option<Type<'t>>, crate::CodegenError>
+  where
+    C: CodegenContext,
+  {
+    // A field is not a variable, even if there is a variable or an enum variant with the same name.
+    ctx.export_as_macro = true;
+
+    match &*self.rhs {
+      // Arg must be an identifier for use as a member name.
+      Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) if ctx.arg_name(arg.index()) != "..." => {
+        *ctx.arg_type_mut(arg.index()) = MacroArgType::Ident;
+        Ok(None)
+      },
+      Expr::Var(Var { name: IdentifierExpr::Plain(field) }) => {
+        if let Some(Type::Identifier { name: IdentifierExpr::Plain(ty), .. }) = lhs_ty {
+          if let Some(ty) = ctx.resolve_field_ty(ty.as_str(), field.as_str()) {
+            return Ok(Some(Type::from_rust_ty(&ty, ctx.ffi_prefix().as_ref())?))
+          }
+        }
+
+        Ok(None)
+      },
+      _ => Err(crate::CodegenError::UnsupportedExpression("member access".to_owned())),
+    }
+  }
+
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
     tokens.append_all(self.to_token_stream(ctx))
   }
 
+  /// Generate the name of the accessed member.
+  pub(crate) fn field_to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
+    match &*self.rhs {
+      Expr::Var(Var { name }) => name.to_token_stream(ctx),
+      rhs => rhs.to_token_stream(ctx),
+    }
+  }
+
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
     let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
-    let mut rhs = self.rhs.to_token_stream(ctx);
+    let mut rhs = if op == BinaryOp::MemberAccess {
+      self.field_to_token_stream(ctx)
+    } else {
+      self.rhs.to_token_stream(ctx)
+    };
 
     let (lhs_prec, _) = self.lhs.precedence();
     let (prec, assoc) = self.precedence();
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index ab89429..aff9181 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -859,11 +859,11 @@ impl<'t> Expr<'t> {
         let pointer = expr.receiver_to_token_stream(ctx);
         Some(quote! { *#pointer })
       },
-      Self::Binary(BinaryExpr { lhs, op: op @ BinaryOp::MemberAccess, rhs }) => {
-        let mut place = lhs.volatile_place_to_token_stream(ctx)?;
-        let field = rhs.to_token_stream(ctx);
+      Self::Binary(expr @ BinaryExpr { op: op @ BinaryOp::MemberAccess, .. }) => {
+        let mut place = expr.lhs.volatile_place_to_token_stream(ctx)?;
+        let field = expr.field_to_token_stream(ctx);
 
-        if matches!(**lhs, Self::Unary(_)) {
+        if matches!(*expr.lhs, Self::Unary(_)) {
           place = quote! { (#place) };
         }
 
-- 
2.43.0


From b3675483922a750155de1a6aed58902d95117426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 76/97] fix: accept break and continue as statements only

---
 src/ast/expr.rs       | 18 ++++++++++++++++--
 src/ast/identifier.rs |  4 ++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index aff9181..fbc07a3 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -2,7 +2,7 @@ use std::{borrow::Cow, fmt::Debug};
 
 use nom::{
   branch::alt,
-  combinator::{map, map_res, not, peek, value},
+  combinator::{eof, map, map_res, not, peek, value, verify},
   multi::{fold_many0, separated_list0},
   sequence::{delimited, pair, preceded, terminated, tuple},
   IResult,
@@ -10,7 +10,10 @@ use nom::{
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
 use quote::{quote, TokenStreamExt};
 
-use super::{tokens::parenthesized, *};
+use super::{
+  tokens::{macro_id, parenthesized},
+  *,
+};
 use crate::{
   codegen::{fresh_ident, quote_c_char_ptr},
   CodegenContext, LocalContext, MacroArgType, MacroToken};
@@ -68,10 +71,21 @@ impl<'t> Expr<'t> {
     )(tokens)
   }
 
+  /// Parse a `break` or `continue` statement, which is the same in Rust.
+  fn parse_jump<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
+    terminated(
+      map(verify(macro_id, |id| matches!(id.as_str(), "break" | "continue")), |id| {
+        Self::Var(Var { name: IdentifierExpr::Plain(id) })
+      }),
+      peek(preceded(meta, alt((value((), eof), value((), punct(";")))))),
+    )(tokens)
+  }
+
   fn parse_factor<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
     alt((
       map(preceded(keyword("sizeof"), parenthesized(Type::parse)), Self::SizeOf),
       map(LitChar::parse, |c| Self::Literal(Lit::Char(c))),
+      Self::parse_jump,
       Self::parse_concat_string,
       map(Lit::parse, Self::Literal),
       parenthesized(Self::parse),
diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index 4f1b90d..ec29d80 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -43,15 +43,15 @@ pub(crate) fn rust_ident(id: &str) -> Ident {
 }
 
 /// Check if this is a keyword in C which cannot be used as the name of e.g. a variable.
-///
-/// `break` and `continue` are the same in Rust.
 pub(crate) fn is_c_keyword(id: &str) -> bool {
   matches!(
     id,
     "auto"
+      | "break"
       | "case"
       | "char"
       | "const"
+      | "continue"
       | "default"
       | "do"
       | "double"
-- 
2.43.0


From 2de784985be38d74cf9cc49b443f203b560e4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 77/97] fix: refuse identifiers which cannot be identifiers in
 Rust

---
 src/ast/identifier_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/identifier_expr.rs b/src/ast/identifier_expr.rs
index c4d3674..c4ae4ab 100644
--- a/src/ast/identifier_expr.rs
+++ b/src/ast/identifier_expr.rs
@@ -32,7 +32,10 @@ pub enum IdentifierExpr<'t> {
 impl<'t> IdentifierExpr<'t> {
   /// Parse identifier concatenation, e.g. `arg ## 2`.
   pub(crate) fn parse_concat_ident<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-    verify(Self::parse_concat, |id| !matches!(id, Self::Plain(id) if is_c_keyword(id.as_str())))(tokens)
+    verify(
+      Self::parse_concat,
+      |id| !matches!(id, Self::Plain(id) if is_c_keyword(id.as_str()) || is_reserved_identifier(id.as_str())),
+    )(tokens)
   }
 
   fn parse_concat<'i>(tokens: &'i [MacroToken<'t>]) -> IResult<&'i [MacroToken<'t>], Self> {
-- 
2.43.0


From 30f9ee7bfe32a6fcff20216d3d8081e4817f6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 78/97] fix: refuse offsetof of anything but a type and a
 member

---
 src/ast/function_call.rs | 79 ++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 64efdb4..91616cf 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -20,6 +20,36 @@ pub struct FunctionCall<'t> {
 }
 
 impl<'t> FunctionCall<'t> {
+  fn is_offsetof(&self) -> bool {
+    matches!(&self.name, IdentifierExpr::Plain(name) if name.as_str() == "__builtin_offsetof") && self.args.len() == 2
+  }
+
+  fn finish_offsetof<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
+  where
+    C: CodegenContext,
+  {
+    ctx.export_as_macro = true;
+
+    for (arg, expected_ty) in self.args.iter().zip([MacroArgType::Ty, MacroArgType::Tt]) {
+      match arg {
+        Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) if ctx.arg_name(arg.index()) != "..." => {
+          let arg_ty = ctx.arg_type_mut(arg.index());
+          match arg_ty {
+            MacroArgType::Unknown | MacroArgType::Value => *arg_ty = expected_ty,
+            MacroArgType::Ident => (),
+            arg_ty if *arg_ty == expected_ty => (),
+            _ => return Err(crate::CodegenError::UnsupportedExpression("`offsetof` of a value".to_owned())),
+          }
+        },
+        // This is neither a variable nor an enum variant.
+        Expr::Var(Var { name: IdentifierExpr::Plain(_) }) => (),
+        _ => return Err(crate::CodegenError::UnsupportedExpression("`offsetof` of an expression".to_owned())),
+      }
+    }
+
+    Ok(None)
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
@@ -30,6 +60,11 @@ impl<'t> FunctionCall<'t> {
     }
 
     self.name.finish(ctx)?;
+
+    if self.is_offsetof() {
+      return self.finish_offsetof(ctx)
+    }
+
     for arg in self.args.iter_mut() {
       arg.finish(ctx)?;
     }
@@ -56,25 +91,6 @@ impl<'t> FunctionCall<'t> {
         }
       } else {
         ctx.export_as_macro = true;
-
-        match name.as_str() {
-          "__builtin_offsetof" if self.args.len() == 2 => {
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[0] {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
-                *arg_type = MacroArgType::Ty;
-              }
-            }
-
-            if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = &mut self.args[1] {
-              let arg_type = ctx.arg_type_mut(arg.index());
-              if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
-                *arg_type = MacroArgType::Tt;
-              }
-            }
-          },
-          _ => (),
-        }
       }
     }
 
@@ -82,13 +98,18 @@ impl<'t> FunctionCall<'t> {
   }
 
   pub(crate) fn to_tokens<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>, tokens: &mut TokenStream) {
-    let (name, args_into) = match &self.name {
-      IdentifierExpr::Plain(ref name) if name.as_str() == "__builtin_offsetof" && self.args.len() == 2 => {
-        let prefix = ctx.trait_prefix().into_iter();
-        (quote! { #(#prefix::)*mem::offsetof! }, false)
-      },
-      name => (name.to_token_stream(ctx), true),
-    };
+    if self.is_offsetof() {
+      let prefix = ctx.trait_prefix().into_iter();
+      let args = self.args.iter().map(|arg| match arg {
+        Expr::Var(Var { name }) => name.to_token_stream(ctx),
+        arg => arg.to_token_stream(ctx),
+      });
+
+      tokens.append_all(quote! { #(#prefix::)*mem::offsetof!(#(#args),*) });
+      return
+    }
+
+    let name = self.name.to_token_stream(ctx);
 
     let args = self.args.iter().map(|arg| match arg {
       // Calling `.into()` on a null-pointer doesn't work.
@@ -112,13 +133,9 @@ impl<'t> FunctionCall<'t> {
         let arg = arg.to_token_stream(ctx);
         quote! { #arg }
       },
-      arg if args_into => {
-        let arg = arg.to_token_stream(ctx);
-        quote! { (#arg).into() }
-      },
       arg => {
         let arg = arg.to_token_stream(ctx);
-        quote! { #arg }
+        quote! { (#arg).into() }
       },
     });
 
-- 
2.43.0


From 1ed20670c2e079f527000aba88f694b137af79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 79/97] fix: refuse offsetof of a value

---
 src/ast/function_call.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 91616cf..70238fe 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -35,7 +35,8 @@ impl<'t> FunctionCall<'t> {
         Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) if ctx.arg_name(arg.index()) != "..." => {
           let arg_ty = ctx.arg_type_mut(arg.index());
           match arg_ty {
-            MacroArgType::Unknown | MacroArgType::Value => *arg_ty = expected_ty,
+            MacroArgType::Unknown => *arg_ty = expected_ty,
+            MacroArgType::Value if expected_ty == MacroArgType::Tt => *arg_ty = expected_ty,
             MacroArgType::Ident => (),
             arg_ty if *arg_ty == expected_ty => (),
             _ => return Err(crate::CodegenError::UnsupportedExpression("`offsetof` of a value".to_owned())),
-- 
2.43.0


From ff4d8a34e8f4d2caf8b0bd349cd93eed9bab32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 80/97] fix: exponential time for nested dereferences and
 assignments

---
 src/ast/binary_expr.rs |  4 +++-
 src/ast/unary_expr.rs  | 36 +++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index e5a7850..5f55c0a 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -404,7 +404,6 @@ impl<'t> BinaryExpr<'t> {
   }
 
   pub(crate) fn to_token_stream<C: CodegenContext>(&self, ctx: &mut LocalContext<'_, 't, C>) -> TokenStream {
-    let mut lhs = self.lhs.to_token_stream(ctx);
     let op = self.op;
     let mut rhs = if op == BinaryOp::MemberAccess {
       self.field_to_token_stream(ctx)
@@ -435,6 +434,7 @@ impl<'t> BinaryExpr<'t> {
           return quote! { #(#prefix::)*ptr::read_volatile(#pointer) }
         }
 
+        let mut lhs = self.lhs.to_token_stream(ctx);
         if lhs_parens {
           lhs = quote! { (#lhs) };
         }
@@ -481,6 +481,8 @@ impl<'t> BinaryExpr<'t> {
         quote! { { #let_place #lhs #op #rhs; #lhs } }
       },
       op => {
+        let mut lhs = self.lhs.to_token_stream(ctx);
+
         // Without a type, literals which are compared would be inferred as `i32`.
         if matches!(
           op,
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 573b15b..24681ef 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -108,12 +108,16 @@ impl<'t> UnaryExpr<'t> {
     let (prec, _) = self.precedence();
     let (expr_prec, _) = self.expr.precedence();
 
-    let raw_expr = self.expr.to_token_stream(ctx);
+    // Only generate the operand where it is needed, since the time needed for nested operands
+    // would be exponential otherwise.
+    let operand = |ctx: &mut LocalContext<'_, 't, C>| {
+      let raw_expr = self.expr.to_token_stream(ctx);
 
-    let expr = if expr_prec > prec {
-      quote! { (#raw_expr) }
-    } else {
-      quote! { #raw_expr }
+      if expr_prec > prec {
+        quote! { (#raw_expr) }
+      } else {
+        raw_expr
+      }
     };
 
     match self.op {
@@ -207,16 +211,16 @@ impl<'t> UnaryExpr<'t> {
         let prev = fresh_ident("prev", &[&raw_expr]);
         quote! { { #let_place let #prev = #raw_expr; #raw_expr -= 1; #prev } }
       },
-      UnaryOp::Not => format!("!{expr}").parse::<TokenStream>().unwrap(),
-      UnaryOp::Comp => format!("!{expr}").parse::<TokenStream>().unwrap(),
+      UnaryOp::Not => format!("!{}", operand(ctx)).parse::<TokenStream>().unwrap(),
+      UnaryOp::Comp => format!("!{}", operand(ctx)).parse::<TokenStream>().unwrap(),
       // Rust does not have a unary plus operator.
-      UnaryOp::Plus => expr,
-      UnaryOp::Minus => format!("-{expr}").parse::<TokenStream>().unwrap(),
+      UnaryOp::Plus => operand(ctx),
+      UnaryOp::Minus => format!("-{}", operand(ctx)).parse::<TokenStream>().unwrap(),
       UnaryOp::Deref => {
         if self.expr.is_volatile_pointer() {
           let prefix = ctx.trait_prefix().into_iter();
           let pointer = if matches!(&*self.expr, Expr::Cast(_)) {
-            raw_expr
+            self.expr.to_token_stream(ctx)
           } else {
             self.expr.receiver_to_token_stream(ctx)
           };
@@ -228,7 +232,10 @@ impl<'t> UnaryExpr<'t> {
             let pointer = self.expr.receiver_to_token_stream(ctx);
             return quote! { *#pointer }
           },
-          Expr::Unary(UnaryExpr { op, expr }) => {
+          Expr::Unary(UnaryExpr {
+            op: op @ (UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec),
+            expr,
+          }) => {
             let (let_place, raw_expr) = expr.to_place(&[], ctx);
             let pointer =
               if let_place.is_some() { quote! { (#raw_expr) } } else { expr.receiver_to_token_stream(ctx) };
@@ -245,10 +252,13 @@ impl<'t> UnaryExpr<'t> {
           _ => (),
         }
 
-        format!("*{expr}").parse::<TokenStream>().unwrap()
+        format!("*{}", operand(ctx)).parse::<TokenStream>().unwrap()
       },
       UnaryOp::AddrOf => {
-        let raw_expr = self.expr.volatile_place_to_token_stream(ctx).unwrap_or(raw_expr);
+        let raw_expr = match self.expr.volatile_place_to_token_stream(ctx) {
+          Some(place) => place,
+          None => self.expr.to_token_stream(ctx),
+        };
         let trait_prefix = ctx.trait_prefix().into_iter();
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
-- 
2.43.0


From 3d87f0b3190b308d95c899b175e0a45f4f74a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 81/97] fix: recognise primitive types when an FFI prefix is
 configured

---
 src/ast/ty.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index e924624..854dba6 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -122,6 +122,13 @@ impl BuiltInType {
       syn::TypePath { qself: None, path: syn::Path { leading_colon, segments } } => {
         let mut it = segments.iter();
 
+        // Primitive types are not prefixed.
+        let ffi_prefix = ffi_prefix.filter(|_| {
+          leading_colon.is_some()
+            || segments.len() != 1
+            || !["bool", "f32", "f64", "f128", "u8", "u16", "u32"].iter().any(|ty| segments[0].ident == ty)
+        });
+
         if let Some(ffi_prefix) = ffi_prefix {
           if leading_colon.is_some() != ffi_prefix.leading_colon.is_some() {
             return None
-- 
2.43.0


From 337acb09187a6368327eb26db1a42ae4d88c34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 82/97] fix: treat consecutive concatenations separated by
 comments as one

---
 src/macro_set/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro_set/mod.rs b/src/macro_set/mod.rs
index 51cacde..b660fd1 100644
--- a/src/macro_set/mod.rs
+++ b/src/macro_set/mod.rs
@@ -821,7 +821,7 @@ impl MacroSet {
   }
 
   fn expand_concat(tokens: Vec<Token<'_>>) -> Result<Vec<Token<'_>>, ExpansionError> {
-    let mut it = tokens.into_iter().peekable();
+    let mut it = tokens.into_iter();
     let mut tokens: Vec<Token<'_>> = vec![];
 
     let is_comment = |t: &Token<'_>| matches!(t, Token::Comment(_));
@@ -848,7 +848,7 @@ impl MacroSet {
 
           // Ignore whitespace between the last non-whitespace token and this `##`.
           let lhs = until_no_whitespace!(tokens.pop(), ConcatBegin);
-          let rhs = if it.peek() == Some(&Token::Punctuation(Punctuation { punctuation: "##" })) {
+          let rhs = if it.clone().find(|t| !is_comment(t)) == Some(Token::Punctuation(Punctuation { punctuation: "##" })) {
             // Treat consecutive `##` as one.
             Token::Placemarker
           } else {
-- 
2.43.0


From 83b42209fafea18706ff2fbc60220397d0699a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 83/97] fix: parse inline assembly without semicolon

---
 src/ast/identifier.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/identifier.rs b/src/ast/identifier.rs
index ec29d80..df66b95 100644
--- a/src/ast/identifier.rs
+++ b/src/ast/identifier.rs
@@ -46,7 +46,10 @@ pub(crate) fn rust_ident(id: &str) -> Ident {
 pub(crate) fn is_c_keyword(id: &str) -> bool {
   matches!(
     id,
-    "auto"
+    "__asm"
+      | "__asm__"
+      | "asm"
+      | "auto"
       | "break"
       | "case"
       | "char"
-- 
2.43.0


From 1bee6f78d2ec9c86e39de038ff6b0d1a018ac514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 84/97] fix: register prefix in clobbers of inline assembly

---
 src/ast/asm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index cffb550..63ba9b1 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -328,7 +328,8 @@ impl<'t> Asm<'t> {
 
     let template = self.template.iter().map(|line| Self::renumber_operands(line, &operands)).collect::<Vec<_>>();
 
-    let mut clobbers: BTreeSet<_> = self.clobbers.iter().cloned().collect();
+    // The name of a register can be prefixed with `%`.
+    let mut clobbers: BTreeSet<_> = self.clobbers.iter().map(|c| c.strip_prefix('%').unwrap_or(c).to_owned()).collect();
 
     let mut options = Vec::new();
 
-- 
2.43.0


From 9def55dd6790cc47414d7a7ac281dac60306ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 85/97] fix: declaration of function without return value

---
 src/ast/function_decl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast/function_decl.rs b/src/ast/function_decl.rs
index 4929e10..f5d8c17 100644
--- a/src/ast/function_decl.rs
+++ b/src/ast/function_decl.rs
@@ -79,11 +79,16 @@ impl<'t> FunctionDecl<'t> {
         quote! { #arg: #ty }
       })
       .collect::<Vec<_>>();
-    let ret_ty = self.ret_ty.to_token_stream(ctx);
+    let ret_ty = if self.ret_ty.clone().unqualified().is_void() {
+      None
+    } else {
+      let ret_ty = self.ret_ty.to_token_stream(ctx);
+      Some(quote! { -> #ret_ty })
+    };
 
     tokens.append_all(quote! {
       extern "C" {
-        pub fn #name(#(#args),*) -> #ret_ty;
+        pub fn #name(#(#args),*) #ret_ty;
       }
     })
   }
-- 
2.43.0


From 7228c5e0008dc5f7458a32187ff6ddae63f3cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 86/97] fix: modified macro arguments need a macro

---
 src/ast/asm.rs         | 5 +++++
 src/ast/binary_expr.rs | 2 +-
 src/ast/expr.rs        | 5 +++++
 src/ast/unary_expr.rs  | 7 +++++++
 4 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ast/asm.rs b/src/ast/asm.rs
index 63ba9b1..f1b2945 100644
--- a/src/ast/asm.rs
+++ b/src/ast/asm.rs
@@ -224,6 +224,11 @@ impl<'t> Asm<'t> {
       }
 
       output.finish(ctx)?;
+
+      // Must export as a macro in order to be able to modify a macro argument.
+      if output.is_arg() {
+        ctx.export_as_macro = true;
+      }
     }
 
     for (_, input) in self.inputs.iter_mut() {
diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index 5f55c0a..ddacc8e 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -241,7 +241,7 @@ impl<'t> BinaryExpr<'t> {
     }
 
     // Must export as a macro in order to be able to assign to a macro argument.
-    if self.op.is_assignment() && matches!(&*self.lhs, Expr::Var(Var { name: IdentifierExpr::Arg(_) })) {
+    if self.op.is_assignment() && self.lhs.is_arg() {
       ctx.export_as_macro = true;
     }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index fbc07a3..10ec3a2 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -796,6 +796,11 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this is a macro argument.
+  pub(crate) fn is_arg(&self) -> bool {
+    matches!(self, Self::Var(Var { name: IdentifierExpr::Arg(_) }))
+  }
+
   /// Check if this place designates the same object even after assigning to it.
   fn is_repeatable_place(&self) -> bool {
     fn is_repeatable_pointer(expr: &Expr<'_>) -> bool {
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 24681ef..64a3d00 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -70,6 +70,13 @@ impl<'t> UnaryExpr<'t> {
   {
     let mut ty = self.expr.finish(ctx)?;
 
+    // Must export as a macro in order to be able to modify or take the address of a macro argument.
+    if matches!(self.op, UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec | UnaryOp::AddrOf)
+      && self.expr.is_arg()
+    {
+      ctx.export_as_macro = true;
+    }
+
     match self.op {
       UnaryOp::Deref => {
         // Cannot dereference pointers in variable macros, i.e. constants.
-- 
2.43.0


From ed848f89b3f3d11f663e254963369e078960df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 87/97] fix: enum variants as operands

---
 src/ast/var.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast/var.rs b/src/ast/var.rs
index c0ceac7..a52a8a9 100644
--- a/src/ast/var.rs
+++ b/src/ast/var.rs
@@ -107,7 +107,15 @@ impl<'t> Var<'t> {
         "__LONG_LONG_MAX__" => quote! { #(#ffi_prefix::)*c_longlong::MAX },
         name => {
           if let Some((_, enum_variant)) = ctx.resolve_enum_variant(name) {
-            quote! { #enum_variant }
+            match enum_variant {
+              // This may be an operand.
+              syn::Expr::Binary(_)
+              | syn::Expr::Cast(_)
+              | syn::Expr::Range(_)
+              | syn::Expr::Reference(_)
+              | syn::Expr::Unary(_) => quote! { (#enum_variant) },
+              _ => quote! { #enum_variant },
+            }
           } else {
             self.name.to_token_stream(ctx)
           }
-- 
2.43.0


From d657f3912d1733381766af8b4421738a9c368975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 88/97] fix: do-while statement followed by semicolon

---
 src/ast/statement.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index 4e736b5..f761c89 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -70,9 +70,14 @@ impl<'t> Statement<'t> {
           else_branch: else_branch.unwrap_or_default(),
         },
       ),
-      map(preceded(terminated(id("do"), meta), pair(block, preceded(id("while"), condition))), |(block, condition)| {
-        Self::DoWhile { block, condition }
-      }),
+      map(
+        delimited(
+          terminated(id("do"), meta),
+          pair(block, preceded(id("while"), condition)),
+          opt(preceded(meta, punct(";"))),
+        ),
+        |(block, condition)| Self::DoWhile { block, condition },
+      ),
       map(
         delimited(
           terminated(punct("{"), meta),
-- 
2.43.0


From a840599bbedd7298b4d1e9dfba72b8435dc06a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 89/97] fix: `continue` in a do-while statement evaluates the
 condition

---
 src/ast/statement.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/ast/statement.rs b/src/ast/statement.rs
index f761c89..e7ce8f9 100644
--- a/src/ast/statement.rs
+++ b/src/ast/statement.rs
@@ -14,7 +14,7 @@ use super::{
   tokens::{parenthesized, punct},
   *,
 };
-use crate::{CodegenContext, LocalContext, MacroToken};
+use crate::{codegen::fresh_ident, CodegenContext, LocalContext, MacroToken};
 
 /// A statement.
 ///
@@ -185,12 +185,33 @@ impl<'t> Statement<'t> {
         })
       },
       Self::DoWhile { block, condition } => {
+        let has_continue = block.iter().any(Self::has_continue);
+
         // Variables declared in the block are not visible in the condition.
         let has_scope = block.iter().any(|stmt| matches!(stmt, Self::VarDecl(_)));
         let block = block.iter().map(|stmt| stmt.to_token_stream(ctx)).collect::<Vec<_>>();
         let block = if has_scope { quote! { { #(#block)* } } } else { quote! { #(#block)* } };
         let condition = condition.to_token_stream(ctx);
 
+        // `continue` has to evaluate the condition before the next iteration.
+        if has_continue {
+          let first = fresh_ident("first", &[&block, &condition]);
+
+          tokens.append_all(quote! {
+            {
+              let mut #first = true;
+
+              while #first || (#condition) {
+                #first = false;
+
+                #block
+              }
+            }
+          });
+
+          return
+        }
+
         tokens.append_all(quote! {
           loop {
             #block
@@ -211,6 +232,16 @@ impl<'t> Statement<'t> {
     self.to_tokens(ctx, &mut tokens);
     tokens
   }
+
+  /// Check if this statement contains a `continue` for the enclosing loop.
+  fn has_continue(&self) -> bool {
+    match self {
+      Self::Expr(Expr::Var(Var { name: IdentifierExpr::Plain(name) })) => name.as_str() == "continue",
+      Self::Block(block) => block.iter().any(Self::has_continue),
+      Self::If { if_branch, else_branch, .. } => if_branch.iter().chain(else_branch).any(Self::has_continue),
+      _ => false,
+    }
+  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8e286f7999ac801b1e40c66ae792a8325ef72077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 90/97] fix: string literals in a concatenation with a macro
 argument

---
 src/ast/expr.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 10ec3a2..8528f43 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -1,4 +1,4 @@
-use std::{borrow::Cow, fmt::Debug};
+use std::{borrow::Cow, fmt::Debug, str};
 
 use nom::{
   branch::alt,
@@ -588,6 +588,15 @@ impl<'t> Expr<'t> {
           *self = new_names.remove(0);
           self.finish(ctx)
         } else {
+          // Only valid UTF-8 can be passed to `concat!`.
+          let is_utf8 = new_names.iter().all(|name| match name {
+            Self::Literal(Lit::String(lit)) => lit.as_bytes().is_some_and(|bytes| str::from_utf8(bytes).is_ok()),
+            _ => true,
+          });
+          if !is_utf8 {
+            return Err(crate::CodegenError::UnsupportedExpression("concatenation of non-UTF-8 strings".to_owned()))
+          }
+
           *self = Self::ConcatString(new_names);
           Ok(Some(Type::const_ptr(Type::BuiltIn(BuiltInType::Char))))
         }
@@ -986,6 +995,10 @@ impl<'t> Expr<'t> {
               let trait_prefix = ctx.trait_prefix().into_iter();
               quote! { #(#trait_prefix::)*file!() }
             },
+            Self::Literal(Lit::String(lit)) => {
+              let lit = lit.as_bytes().and_then(|bytes| str::from_utf8(bytes).ok());
+              quote! { #lit }
+            },
             Self::Stringify(stringify) => stringify.to_token_stream_inner(ctx),
             e => e.to_token_stream(ctx),
           })
-- 
2.43.0


From 5e5af126b65f1664b04c6dc6de8cfb3149dc6351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 91/97] fix: index of a string literal

---
 src/ast/expr.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 8528f43..5ad71a5 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -949,12 +949,13 @@ impl<'t> Expr<'t> {
     match self {
       Self::Binary(BinaryExpr { lhs, op: op @ (BinaryOp::Add | BinaryOp::Sub), rhs }) => {
         // The pointer may be on the right side, e.g. `1 + ptr`.
-        let (pointer, offset) =
-          if *op == BinaryOp::Add && (matches!(**lhs, Self::Literal(_)) || rhs.is_volatile_pointer()) {
-            (rhs, lhs)
-          } else {
-            (lhs, rhs)
-          };
+        let is_offset = |expr: &Self| matches!(expr, Self::Literal(lit) if !matches!(lit, Lit::String(_)));
+        let is_pointer = |expr: &Self| matches!(expr, Self::Literal(Lit::String(_))) || expr.is_volatile_pointer();
+        let (pointer, offset) = if *op == BinaryOp::Add && (is_offset(lhs) || is_pointer(rhs)) {
+          (rhs, lhs)
+        } else {
+          (lhs, rhs)
+        };
         let pointer = pointer.receiver_to_token_stream(ctx);
         let offset = offset.to_token_stream(ctx);
 
-- 
2.43.0


From 4ad04e3645ca23f7d7551de44a094c4631a29532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 92/97] fix: index of pointers with integers of other types

---
 src/ast/expr.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 5ad71a5..84d0063 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -957,6 +957,19 @@ impl<'t> Expr<'t> {
           (lhs, rhs)
         };
         let pointer = pointer.receiver_to_token_stream(ctx);
+
+        // Only non-negative literals can be passed as `usize`.
+        if !matches!(**offset, Self::Literal(Lit::Int(LitInt { value: 0.., .. }))) {
+          let (prec, _) = offset.precedence();
+          let offset = offset.to_token_stream(ctx);
+          let offset = if prec > 3 { quote! { (#offset) } } else { offset };
+
+          return match op {
+            BinaryOp::Add => quote! { #pointer.offset(#offset as isize) },
+            _ => quote! { #pointer.offset(-(#offset as isize)) },
+          }
+        }
+
         let offset = offset.to_token_stream(ctx);
 
         match op {
-- 
2.43.0


From 1b2077e84ad061c27d95bf5bcd56fcc9b11683c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:34 +0000
Subject: [PATCH 93/97] fix: address of const objects

---
 src/ast/expr.rs       | 33 ++++++++++++++++++++++++++++++++-
 src/ast/unary_expr.rs |  6 ++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 84d0063..65bc402 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -877,6 +877,33 @@ impl<'t> Expr<'t> {
     }
   }
 
+  /// Check if this expression is a pointer to a `const` type.
+  fn is_const_pointer<C: CodegenContext>(&self, ctx: &LocalContext<'_, 't, C>) -> bool {
+    let is_const = |ty: Type<'t>| matches!(ty.unqualified(), Type::Ptr { ty } if ty.is_const());
+
+    match self {
+      Self::Cast(Cast { ty, .. }) => is_const(ty.clone()),
+      Self::Var(Var { name: IdentifierExpr::Arg(arg) }) => {
+        matches!(ctx.arg_type(arg.index()), MacroArgType::Known(ty) if is_const(ty.clone()))
+      },
+      Self::Literal(Lit::String(_)) => true,
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::Add | BinaryOp::Sub, rhs }) => {
+        lhs.is_const_pointer(ctx) || rhs.is_const_pointer(ctx)
+      },
+      Self::Unary(UnaryExpr { op: UnaryOp::AddrOf, expr }) => expr.is_const_place(ctx),
+      _ => false,
+    }
+  }
+
+  /// Check if this expression is a `const` object, or a member of one.
+  pub(crate) fn is_const_place<C: CodegenContext>(&self, ctx: &LocalContext<'_, 't, C>) -> bool {
+    match self {
+      Self::Unary(UnaryExpr { op: UnaryOp::Deref, expr }) => expr.is_const_pointer(ctx),
+      Self::Binary(BinaryExpr { lhs, op: BinaryOp::MemberAccess, .. }) => lhs.is_const_place(ctx),
+      _ => false,
+    }
+  }
+
   /// Generate this expression as a place without accessing it if it is volatile.
   pub(crate) fn volatile_place_to_token_stream<C: CodegenContext>(
     &self,
@@ -917,7 +944,11 @@ impl<'t> Expr<'t> {
       expr => {
         let place = expr.volatile_place_to_token_stream(ctx)?;
         let trait_prefix = ctx.trait_prefix().into_iter();
-        Some(quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#place) })
+        Some(if expr.is_const_place(ctx) {
+          quote! { #(#trait_prefix::)*ptr::addr_of!(#place) }
+        } else {
+          quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#place) }
+        })
       },
     }
   }
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 64a3d00..8138f75 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -267,6 +267,12 @@ impl<'t> UnaryExpr<'t> {
           None => self.expr.to_token_stream(ctx),
         };
         let trait_prefix = ctx.trait_prefix().into_iter();
+
+        // A mutable pointer cannot be created through a `*const` pointer.
+        if self.expr.is_const_place(ctx) {
+          return quote! { #(#trait_prefix::)*ptr::addr_of!(#raw_expr) }
+        }
+
         quote! { #(#trait_prefix::)*ptr::addr_of_mut!(#raw_expr) }
       },
     }
-- 
2.43.0


From 909af5f811fc5ed6d23e17053b00849432a40656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:32 +0000
Subject: [PATCH 94/97] fix: literals in floating-point branches, declarations
 and arguments

---
 src/ast/expr.rs          | 32 ++++++++++++++++++++++++++++++++
 src/ast/function_call.rs |  8 ++++++--
 src/ast/ternary_expr.rs  |  4 ++++
 src/ast/var_decl.rs      |  3 ++-
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 65bc402..5646256 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -434,6 +434,38 @@ impl<'t> Expr<'t> {
     *self = Self::Cast(cast);
   }
 
+  /// Convert a number literal to the floating-point type `target`, which it is implicitly converted to.
+  pub(crate) fn convert_literal(&mut self, ty: &mut Option<Type<'t>>, target: &Option<Type<'t>>) {
+    let literal = match (&mut *self, target) {
+      (Self::Literal(Lit::Int(LitInt { value, .. })), Some(Type::BuiltIn(BuiltInType::Float))) => {
+        LitFloat::Float(*value as f32)
+      },
+      (
+        Self::Literal(Lit::Int(LitInt { value, .. })),
+        Some(Type::BuiltIn(BuiltInType::Double | BuiltInType::LongDouble)),
+      ) => LitFloat::Double(*value as f64),
+      (
+        Self::Literal(Lit::Float(LitFloat::Float(value))),
+        Some(Type::BuiltIn(BuiltInType::Double | BuiltInType::LongDouble)),
+      ) => LitFloat::Double(*value as f64),
+      (Self::Ternary(expr), Some(Type::BuiltIn(BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble)))
+        if ty.is_none() =>
+      {
+        let mut else_ty = None;
+        expr.if_branch.convert_literal(ty, target);
+        expr.else_branch.convert_literal(&mut else_ty, target);
+        return
+      },
+      _ => return,
+    };
+
+    *ty = Some(Type::BuiltIn(match literal {
+      LitFloat::Float(_) => BuiltInType::Float,
+      _ => BuiltInType::Double,
+    }));
+    *self = Self::Literal(Lit::Float(literal));
+  }
+
   pub(crate) fn finish<C>(&mut self, ctx: &mut LocalContext<'_, 't, C>) -> Result<Option<Type<'t>>, crate::CodegenError>
   where
     C: CodegenContext,
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 70238fe..cf33944 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -66,8 +66,9 @@ impl<'t> FunctionCall<'t> {
       return self.finish_offsetof(ctx)
     }
 
+    let mut arg_types = Vec::with_capacity(self.args.len());
     for arg in self.args.iter_mut() {
-      arg.finish(ctx)?;
+      arg_types.push(arg.finish(ctx)?);
     }
 
     let mut ty = None;
@@ -79,7 +80,7 @@ impl<'t> FunctionCall<'t> {
 
           ty = Some(Type::from_rust_ty(&known_ret_ty, ffi_prefix.as_ref())?);
 
-          for (arg, known_arg_type) in self.args.iter_mut().zip(known_args.iter()) {
+          for ((arg, arg_ty), known_arg_type) in self.args.iter_mut().zip(arg_types.iter_mut()).zip(known_args.iter()) {
             // If the current argument to this function is a macro argument,
             // we can infer the type of the macro argument.
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = arg {
@@ -87,6 +88,9 @@ impl<'t> FunctionCall<'t> {
               if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
                 *arg_type = MacroArgType::Known(Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?);
               }
+            } else if matches!(arg, Expr::Literal(_) | Expr::Ternary(_)) {
+              let known_arg_type = Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref()).ok();
+              arg.convert_literal(arg_ty, &known_arg_type);
             }
           }
         }
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 3b9005f..84ded49 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -40,6 +40,10 @@ impl<'t> TernaryExpr<'t> {
       self.else_branch.convert_bool(&mut rhs_ty, &lhs_ty);
     }
 
+    // A literal is converted to the type of the other branch.
+    self.if_branch.convert_literal(&mut lhs_ty, &rhs_ty);
+    self.else_branch.convert_literal(&mut rhs_ty, &lhs_ty);
+
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
     } else {
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index 233e89a..255c2a2 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -53,7 +53,8 @@ impl<'t> VarDecl<'t> {
       },
     }
 
-    self.rhs.finish(ctx)?;
+    let mut rhs_ty = self.rhs.finish(ctx)?;
+    self.rhs.convert_literal(&mut rhs_ty, &Some(self.ty.clone()));
 
     Ok(None)
   }
-- 
2.43.0


From 0f655f1c1b48348dc7650e2bd37c707b750679c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:07 +0000
Subject: [PATCH 95/97] fix: literals mixed with floating-point operands

---
 src/ast/binary_expr.rs   | 35 +++--------------------------------
 src/ast/function_call.rs | 10 ++++++----
 2 files changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index ddacc8e..b31dac8 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -287,40 +287,11 @@ impl<'t> BinaryExpr<'t> {
       _ => (),
     }
 
-    // An integer literal is converted to the type of a floating-point operand.
-    let float_literal = |value: i128, ty: &Option<Type<'t>>| match ty {
-      Some(Type::BuiltIn(BuiltInType::Float)) => Some(LitFloat::Float(value as f32)),
-      Some(Type::BuiltIn(BuiltInType::Double | BuiltInType::LongDouble)) => Some(LitFloat::Double(value as f64)),
-      _ => None,
-    };
-    if let Expr::Literal(Lit::Int(LitInt { value, .. })) = &*self.lhs {
-      if let Some(f) = float_literal(*value, &rhs_ty) {
-        self.lhs = Box::new(Expr::Literal(Lit::Float(f)));
-        lhs_ty = self.lhs.finish(ctx)?;
-      }
-    } else if let Expr::Literal(Lit::Int(LitInt { value, .. })) = &*self.rhs {
-      if let Some(f) = float_literal(*value, &lhs_ty) {
-        self.rhs = Box::new(Expr::Literal(Lit::Float(f)));
-        rhs_ty = self.rhs.finish(ctx)?;
-      }
-    }
+    // A literal is converted to the type of a floating-point operand.
+    self.lhs.convert_literal(&mut lhs_ty, &rhs_ty);
+    self.rhs.convert_literal(&mut rhs_ty, &lhs_ty);
 
-    // Cast mixed float and double expression.
     match (&*self.lhs, &*self.rhs) {
-      (
-        Expr::Literal(Lit::Float(LitFloat::Float(lhs))),
-        Expr::Literal(Lit::Float(LitFloat::Double(_) | LitFloat::LongDouble(_))),
-      ) => {
-        self.lhs = Box::new(Expr::Literal(Lit::Float(LitFloat::Double(*lhs as f64))));
-        lhs_ty = self.lhs.finish(ctx)?;
-      },
-      (
-        Expr::Literal(Lit::Float(LitFloat::Double(_) | LitFloat::LongDouble(_))),
-        Expr::Literal(Lit::Float(LitFloat::Float(rhs))),
-      ) => {
-        self.rhs = Box::new(Expr::Literal(Lit::Float(LitFloat::Double(*rhs as f64))));
-        rhs_ty = self.rhs.finish(ctx)?;
-      },
       (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
         if let Some(lhs_ty2) = max_ty_cast(lhs) {
           self.lhs = Box::new(Expr::Cast(Cast { ty: lhs_ty2.clone(), expr: Box::new(lhs.clone()) }));
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index cf33944..3e61f85 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -80,7 +80,7 @@ impl<'t> FunctionCall<'t> {
 
           ty = Some(Type::from_rust_ty(&known_ret_ty, ffi_prefix.as_ref())?);
 
-          for ((arg, arg_ty), known_arg_type) in self.args.iter_mut().zip(arg_types.iter_mut()).zip(known_args.iter()) {
+          for (arg, known_arg_type) in self.args.iter_mut().zip(known_args.iter()) {
             // If the current argument to this function is a macro argument,
             // we can infer the type of the macro argument.
             if let Expr::Var(Var { name: IdentifierExpr::Arg(arg) }) = arg {
@@ -88,11 +88,13 @@ impl<'t> FunctionCall<'t> {
               if matches!(arg_type, MacroArgType::Unknown | MacroArgType::Value) {
                 *arg_type = MacroArgType::Known(Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref())?);
               }
-            } else if matches!(arg, Expr::Literal(_) | Expr::Ternary(_)) {
-              let known_arg_type = Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref()).ok();
-              arg.convert_literal(arg_ty, &known_arg_type);
             }
           }
+
+          // A literal is converted to the type of the parameter.
+          for ((arg, mut arg_ty), known_arg_type) in self.args.iter_mut().zip(arg_types).zip(known_args.iter()) {
+            arg.convert_literal(&mut arg_ty, &Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref()).ok());
+          }
         }
       } else {
         ctx.export_as_macro = true;
-- 
2.43.0


From f2fdcf3828b11e5d642bf4c066fd19e1e5108918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:40 +0000
Subject: [PATCH 96/97] fix: operands mixed with floating-point operands

---
 src/ast/binary_expr.rs   |  8 +++++---
 src/ast/expr.rs          | 21 +++++++++++++++++----
 src/ast/function_call.rs |  4 ++--
 src/ast/ternary_expr.rs  |  6 +++---
 src/ast/var_decl.rs      |  2 +-
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/ast/binary_expr.rs b/src/ast/binary_expr.rs
index b31dac8..656ba84 100644
--- a/src/ast/binary_expr.rs
+++ b/src/ast/binary_expr.rs
@@ -287,9 +287,11 @@ impl<'t> BinaryExpr<'t> {
       _ => (),
     }
 
-    // A literal is converted to the type of a floating-point operand.
-    self.lhs.convert_literal(&mut lhs_ty, &rhs_ty);
-    self.rhs.convert_literal(&mut rhs_ty, &lhs_ty);
+    // An operand is converted to the type of the other, floating-point operand.
+    if !self.op.is_assignment() {
+      self.lhs.convert_float(&mut lhs_ty, &rhs_ty);
+    }
+    self.rhs.convert_float(&mut rhs_ty, &lhs_ty);
 
     match (&*self.lhs, &*self.rhs) {
       (lhs, Expr::Literal(Lit::Int(_))) if matches!(self.op, BinaryOp::Mul | BinaryOp::Add) => {
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 5646256..7e6c916 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -434,8 +434,8 @@ impl<'t> Expr<'t> {
     *self = Self::Cast(cast);
   }
 
-  /// Convert a number literal to the floating-point type `target`, which it is implicitly converted to.
-  pub(crate) fn convert_literal(&mut self, ty: &mut Option<Type<'t>>, target: &Option<Type<'t>>) {
+  /// Convert an expression to the floating-point type `target`, if it is implicitly converted to it.
+  pub(crate) fn convert_float(&mut self, ty: &mut Option<Type<'t>>, target: &Option<Type<'t>>) {
     let literal = match (&mut *self, target) {
       (Self::Literal(Lit::Int(LitInt { value, .. })), Some(Type::BuiltIn(BuiltInType::Float))) => {
         LitFloat::Float(*value as f32)
@@ -452,8 +452,21 @@ impl<'t> Expr<'t> {
         if ty.is_none() =>
       {
         let mut else_ty = None;
-        expr.if_branch.convert_literal(ty, target);
-        expr.else_branch.convert_literal(&mut else_ty, target);
+        expr.if_branch.convert_float(ty, target);
+        expr.else_branch.convert_float(&mut else_ty, target);
+        return
+      },
+      (_, Some(Type::BuiltIn(target @ (BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble)))) => {
+        if let Some(Type::BuiltIn(built_in)) = ty {
+          if match built_in {
+            BuiltInType::Void | BuiltInType::Bool | BuiltInType::Double | BuiltInType::LongDouble => false,
+            BuiltInType::Float => *target != BuiltInType::Float,
+            _ => true,
+          } {
+            *ty = Some(Type::BuiltIn(*target));
+            *self = Self::Cast(Cast { ty: Type::BuiltIn(*target), expr: Box::new(self.clone()) });
+          }
+        }
         return
       },
       _ => return,
diff --git a/src/ast/function_call.rs b/src/ast/function_call.rs
index 3e61f85..cf12ed6 100644
--- a/src/ast/function_call.rs
+++ b/src/ast/function_call.rs
@@ -91,9 +91,9 @@ impl<'t> FunctionCall<'t> {
             }
           }
 
-          // A literal is converted to the type of the parameter.
+          // An argument is converted to the floating-point type of the parameter.
           for ((arg, mut arg_ty), known_arg_type) in self.args.iter_mut().zip(arg_types).zip(known_args.iter()) {
-            arg.convert_literal(&mut arg_ty, &Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref()).ok());
+            arg.convert_float(&mut arg_ty, &Type::from_rust_ty(known_arg_type, ffi_prefix.as_ref()).ok());
           }
         }
       } else {
diff --git a/src/ast/ternary_expr.rs b/src/ast/ternary_expr.rs
index 84ded49..41b99c2 100644
--- a/src/ast/ternary_expr.rs
+++ b/src/ast/ternary_expr.rs
@@ -40,9 +40,9 @@ impl<'t> TernaryExpr<'t> {
       self.else_branch.convert_bool(&mut rhs_ty, &lhs_ty);
     }
 
-    // A literal is converted to the type of the other branch.
-    self.if_branch.convert_literal(&mut lhs_ty, &rhs_ty);
-    self.else_branch.convert_literal(&mut rhs_ty, &lhs_ty);
+    // A branch is converted to the floating-point type of the other branch.
+    self.if_branch.convert_float(&mut lhs_ty, &rhs_ty);
+    self.else_branch.convert_float(&mut rhs_ty, &lhs_ty);
 
     if lhs_ty == rhs_ty {
       Ok(lhs_ty)
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index 255c2a2..6f90df0 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -54,7 +54,7 @@ impl<'t> VarDecl<'t> {
     }
 
     let mut rhs_ty = self.rhs.finish(ctx)?;
-    self.rhs.convert_literal(&mut rhs_ty, &Some(self.ty.clone()));
+    self.rhs.convert_float(&mut rhs_ty, &Some(self.ty.clone()));
 
     Ok(None)
   }
-- 
2.43.0


From aeb9872c97b2369e1fd69c9e1a702e6394cf4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:10 +0000
Subject: [PATCH 97/97] fix: untyped float operands, increments and
 declarations of floating-point variables

---
 src/ast/cast.rs       |  4 ++++
 src/ast/expr.rs       | 30 ++++++++++++++++++++++++++++++
 src/ast/unary_expr.rs | 27 ++++++++++++++++++---------
 src/ast/var_decl.rs   |  6 +++++-
 4 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/src/ast/cast.rs b/src/ast/cast.rs
index 95d0fd5..f9ae9be 100644
--- a/src/ast/cast.rs
+++ b/src/ast/cast.rs
@@ -36,6 +36,10 @@ impl<'t> Cast<'t> {
       self.expr.convert_bool(&mut expr_ty, &None);
     }
 
+    if expr_ty == Some(Type::BuiltIn(BuiltInType::Float)) && !matches!(*self.expr, Expr::Literal(_)) {
+      self.expr.convert_untyped_float();
+    }
+
     Ok(Some(self.ty.clone()))
   }
 
diff --git a/src/ast/expr.rs b/src/ast/expr.rs
index 7e6c916..0115c9f 100644
--- a/src/ast/expr.rs
+++ b/src/ast/expr.rs
@@ -434,6 +434,33 @@ impl<'t> Expr<'t> {
     *self = Self::Cast(cast);
   }
 
+  /// Whether the type of an expression is only known from floating-point literals.
+  fn is_untyped_float(&self) -> bool {
+    match self {
+      Self::Literal(Lit::Float(_)) => true,
+      Self::Unary(expr) => expr.expr.is_untyped_float(),
+      Self::Ternary(expr) => expr.if_branch.is_untyped_float() && expr.else_branch.is_untyped_float(),
+      Self::Binary(expr) => expr.lhs.is_untyped_float() && expr.rhs.is_untyped_float(),
+      _ => false,
+    }
+  }
+
+  /// Give a `float` expression its type explicitly, if it is only known from literals.
+  pub(crate) fn convert_untyped_float(&mut self) {
+    if !self.is_untyped_float() {
+      return
+    }
+
+    match self {
+      Self::Unary(expr) => expr.expr.convert_untyped_float(),
+      Self::Ternary(expr) => expr.if_branch.convert_untyped_float(),
+      Self::Binary(expr) => expr.lhs.convert_untyped_float(),
+      _ => {
+        *self = Self::Cast(Cast { ty: Type::BuiltIn(BuiltInType::Float), expr: Box::new(self.clone()) });
+      },
+    }
+  }
+
   /// Convert an expression to the floating-point type `target`, if it is implicitly converted to it.
   pub(crate) fn convert_float(&mut self, ty: &mut Option<Type<'t>>, target: &Option<Type<'t>>) {
     let literal = match (&mut *self, target) {
@@ -463,6 +490,9 @@ impl<'t> Expr<'t> {
             BuiltInType::Float => *target != BuiltInType::Float,
             _ => true,
           } {
+            if *built_in == BuiltInType::Float {
+              self.convert_untyped_float();
+            }
             *ty = Some(Type::BuiltIn(*target));
             *self = Self::Cast(Cast { ty: Type::BuiltIn(*target), expr: Box::new(self.clone()) });
           }
diff --git a/src/ast/unary_expr.rs b/src/ast/unary_expr.rs
index 8138f75..a89bfa1 100644
--- a/src/ast/unary_expr.rs
+++ b/src/ast/unary_expr.rs
@@ -3,7 +3,7 @@ use quote::{quote, TokenStreamExt};
 
 use crate::{codegen::fresh_ident, CodegenContext, LocalContext};
 
-use super::{Associativity, BinaryExpr, BinaryOp, Expr, Type};
+use super::{Associativity, BinaryExpr, BinaryOp, BuiltInType, Expr, Type};
 
 /// A unary expression operator.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -127,12 +127,21 @@ impl<'t> UnaryExpr<'t> {
       }
     };
 
+    // A floating-point value is incremented by a floating-point literal.
+    let one = match self.op {
+      UnaryOp::Inc | UnaryOp::Dec | UnaryOp::PostInc | UnaryOp::PostDec => match self.expr.clone().finish(ctx) {
+        Ok(Some(Type::BuiltIn(BuiltInType::Float | BuiltInType::Double | BuiltInType::LongDouble))) => quote! { 1.0 },
+        _ => quote! { 1 },
+      },
+      _ => quote! { 1 },
+    };
+
     match self.op {
       UnaryOp::Inc => {
         if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
           let prefix = ctx.trait_prefix().into_iter();
           let value = {
-            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + 1 }
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) + #one }
           };
 
           let prefix = ctx.trait_prefix().into_iter();
@@ -148,13 +157,13 @@ impl<'t> UnaryExpr<'t> {
         }
 
         let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
-        quote! { { #let_place #raw_expr += 1; #raw_expr } }
+        quote! { { #let_place #raw_expr += #one; #raw_expr } }
       },
       UnaryOp::Dec => {
         if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
           let prefix = ctx.trait_prefix().into_iter();
           let value = {
-            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - 1 }
+            quote! { #(#prefix::)*ptr::read_volatile(#lhs_ptr) - #one }
           };
 
           let prefix = ctx.trait_prefix().into_iter();
@@ -170,7 +179,7 @@ impl<'t> UnaryExpr<'t> {
         }
 
         let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
-        quote! { { #let_place #raw_expr -= 1; #raw_expr } }
+        quote! { { #let_place #raw_expr -= #one; #raw_expr } }
       },
       UnaryOp::PostInc => {
         if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
@@ -185,7 +194,7 @@ impl<'t> UnaryExpr<'t> {
             {
               #let_ptr
               let #name = #value;
-              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name + 1);
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name + #one);
               #name
             }
           }
@@ -193,7 +202,7 @@ impl<'t> UnaryExpr<'t> {
 
         let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
         let prev = fresh_ident("prev", &[&raw_expr]);
-        quote! { { #let_place let #prev = #raw_expr; #raw_expr += 1; #prev } }
+        quote! { { #let_place let #prev = #raw_expr; #raw_expr += #one; #prev } }
       },
       UnaryOp::PostDec => {
         if let Some((let_ptr, lhs_ptr)) = self.expr.to_volatile_pointer(&[], ctx) {
@@ -208,7 +217,7 @@ impl<'t> UnaryExpr<'t> {
             {
               #let_ptr
               let #name = #value;
-              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name - 1);
+              #(#prefix::)*ptr::write_volatile(#lhs_ptr, #name - #one);
               #name
             }
           }
@@ -216,7 +225,7 @@ impl<'t> UnaryExpr<'t> {
 
         let (let_place, raw_expr) = self.expr.to_place(&[], ctx);
         let prev = fresh_ident("prev", &[&raw_expr]);
-        quote! { { #let_place let #prev = #raw_expr; #raw_expr -= 1; #prev } }
+        quote! { { #let_place let #prev = #raw_expr; #raw_expr -= #one; #prev } }
       },
       UnaryOp::Not => format!("!{}", operand(ctx)).parse::<TokenStream>().unwrap(),
       UnaryOp::Comp => format!("!{}", operand(ctx)).parse::<TokenStream>().unwrap(),
diff --git a/src/ast/var_decl.rs b/src/ast/var_decl.rs
index 6f90df0..990a5d5 100644
--- a/src/ast/var_decl.rs
+++ b/src/ast/var_decl.rs
@@ -54,7 +54,11 @@ impl<'t> VarDecl<'t> {
     }
 
     let mut rhs_ty = self.rhs.finish(ctx)?;
-    self.rhs.convert_float(&mut rhs_ty, &Some(self.ty.clone()));
+    let ty = self.ty.clone().unqualified();
+    if matches!(ty, Type::BuiltIn(ty) if ty != BuiltInType::Bool) {
+      self.rhs.convert_bool(&mut rhs_ty, &Some(ty.clone()));
+    }
+    self.rhs.convert_float(&mut rhs_ty, &Some(ty));
 
     Ok(None)
   }
-- 
2.43.0

