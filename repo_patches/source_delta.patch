From a60d28b9900ecdb7c81d606b8b4e4982fd433721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 01/90] fix: do not lex past the end of source after a trailing
 string escape

---
 libnixf/src/Parse/Lexer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..364fe05 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,10 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    consume();
+    // The source may end right after the backslash.
+    if (!eof())
+      consume();
     Tok = tok_string_escape;
     break;
   case '$':
@@ -439,8 +442,9 @@ Token Lexer::lexIndString() {
     if (consumePrefix("$") || consumePrefix("'")) {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
-      // ''\ escapes any character
-      consume();
+      // ''\ escapes any character (if there is one)
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From 9d0143d413c28ea1aa5f2e24760deda7cb310ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 02/90] fix: parse adjacent and trailing interpolations in
 paths

---
 libnixf/src/Parse/ParseStrings.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..3780846 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,21 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    // path_fragments and interpolations, in any order and number.
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      if (Current.kind() == tok_path_fragment) {
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+      } else if (Current.kind() == tok_dollar_curly) {
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
-        continue;
+      } else {
+        break; // path_end
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+      assert(LastToken && "LastToken should be set after consume()");
+      End = LastToken->rCur();
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From eecc4cfd2f99c854cef0e39d8f4a15749b74c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 03/90] fix: continue after `assert` without condition at its
 semicolon

---
 libnixf/src/Parse/ParseExpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 88062b1..74ed61e 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -225,7 +225,7 @@ std::shared_ptr<ExprAssert> Parser::parseExprAssert() {
     D.fix("remove `assert` keyword")
         .edit(TextEdit::mkRemoval(TokAssert.range()));
 
-    if (peek().kind() != tok_colon)
+    if (peek().kind() != tok_semi_colon)
       return std::make_shared<ExprAssert>(
           LexerCursorRange{LCur, LastToken->rCur()}, std::move(Cond),
           /*Value=*/nullptr);
-- 
2.43.0


From 9c8343078b25cd603fd8cab6f77d8785f03a1d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 04/90] fix: quoted and dynamic names in `inherit` without
 source

---
 libnixf/src/Sema/SemaActions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..82ddc04 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -337,9 +337,17 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // Dynamic names are rejected in lowerInheritName.
+    if (!Name->isStatic())
+      return {nullptr, Attribute::AttributeKind::Inherit};
+    // The name may be quoted: inherit "a";
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From 1f09b685cd1bb869a96eb4c90d85ca10be7dc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 05/90] fix: the attribute set of a legacy let starts at its
 brace

---
 libnixf/src/Parse/ParseExpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 74ed61e..3affa2d 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -359,7 +359,7 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
   }
 
   auto Attrs =
-      Act.onExprAttrs(LexerCursorRange{TokLet.lCur(), LastToken->rCur()},
+      Act.onExprAttrs(LexerCursorRange{LCurly.lCur(), LastToken->rCur()},
                       std::move(Binds), KwLet);
 
   LexerCursorRange FullRange{LCur, LastToken->rCur()};
-- 
2.43.0


From 2b77528159dfb68414873ed32cadabd23165e4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 06/90] fix: give / the precedence and associativity of *

tok_op_div fell through to the binding power of ++, so a / b / c was
parsed as a / (b / c), and a * b / c as a * (b / c).
---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..cab54d1 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,8 +57,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
   // % op_negate
-- 
2.43.0


From 1b4370745b17f6fc611883b14fbdd7bee129a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 07/90] fix: ! binds tighter than //

In Nix, !a // b is (!a) // b.
---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index cab54d1..ea1d0c5 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -70,7 +70,7 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not:
-    return 11;
+    return 13;
   case tok_op_negate:
     return 100;
   default:
-- 
2.43.0


From ee3c269364e48be11236417383a1938e9b154db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 08/90] fix: unary minus binds tighter than ?

In Nix, -a ? b is (-a) ? b.
---
 libnixf/src/Parse/ParseOp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index ea1d0c5..e06b8d7 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -78,6 +78,9 @@ unsigned getUnaryBP(TokenKind Kind) {
   }
 }
 
+/// Binding power of '?', it is above all binary operators, and below NEGATE.
+constexpr unsigned HasAttrBP = 20;
+
 } // namespace
 
 std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
@@ -140,6 +143,8 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > HasAttrBP)
+        return Prefix;
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 67598fb487acbe936e904bd0d28b5442bc225a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 09/90] fix: recognise the interpolation in "$$${a}"

Nix takes $$ as a pair, so the interpolation of $$${a} starts at the
third $. It was missed, in quoted and indented strings.
---
 libnixf/src/Parse/Lexer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 364fe05..9d96376 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -419,9 +419,9 @@ Token Lexer::lexString() {
         break;
       if (peekUnwrap() == '"')
         break;
-      // double-$, or \$, escapes ${.
-      // We will handle escaping on Sema
-      if (consumePrefix("$${"))
+      // "$$" is a part of the string, and the second $ does not start an
+      // interpolation: $${ is not one, but $$${ is "$$" followed by one.
+      if (consumePrefix("$$"))
         continue;
       // Encountered a string interpolation, stop here
       if (peekPrefix("${"))
@@ -461,9 +461,9 @@ Token Lexer::lexIndString() {
   for (; !eof();) {
     if (peekPrefix("''"))
       break;
-    // double-$, or \$, escapes ${.
-    // We will handle escaping on Sema
-    if (consumePrefix("$${"))
+    // "$$" is a part of the string, and the second $ does not start an
+    // interpolation: $${ is not one, but $$${ is "$$" followed by one.
+    if (consumePrefix("$$"))
       continue;
     // Encountered a string interpolation, stop here
     if (peekPrefix("${"))
-- 
2.43.0


From 2ffcf8ef5cb4faa812f024ea3b8c183db5c5bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 10/90] fix: unescape indented strings

The escapes of indented strings (''$, ''' and ''\n) were decoded as if
they were those of quoted strings, so ''$ became ', and ''\n became '.
---
 libnixf/src/Parse/ParseStrings.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 3780846..2a441c3 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -76,6 +76,14 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
       // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
+      if (EscapeSeq == "''$" || EscapeSeq == "'''") {
+        // Indented string: ''$ is "$", and ''' is "''"
+        Unescaped = EscapeSeq == "''$" ? "$" : "''";
+        EscapeSeq = {};
+      } else if (EscapeSeq.starts_with("''")) {
+        // Indented string: ''\ escapes one character, just like \ in "string".
+        EscapeSeq.remove_prefix(2);
+      }
       if (EscapeSeq.size() >= 2) {
         char Escaped = EscapeSeq[1];
         switch (Escaped) {
-- 
2.43.0


From 62c068cfb6049c4402f503e3f8d9fa288cd0cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 11/90] fix: read float literals with double precision

NixFloat is a double, but its value was read by strtof.
---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index c5ceebf..a7fbf57 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_float: {
     consume();
     // libc++ doesn't support std::from_chars for floating point numbers.
-    NixFloat N = std::strtof(std::string(Tok.view()).c_str(), nullptr);
+    NixFloat N = std::strtod(std::string(Tok.view()).c_str(), nullptr);
     return std::make_shared<ExprFloat>(Tok.range(), N);
   }
   case tok_spath: {
-- 
2.43.0


From b9077e0a41e0aa1e9f00754a56316ac85cbae423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 12/90] fix: lex ||| as || and |

The text |||> became one token, as if it were ||.
---
 libnixf/src/Parse/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 9d96376..a3cff66 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -563,7 +563,7 @@ Token Lexer::lex() {
   case '|':
     if (consumePrefix("||"))
       Tok = tok_op_or;
-    if (consumePrefix("|>"))
+    else if (consumePrefix("|>"))
       Tok = tok_op_pipe_into;
     break;
   case '!':
-- 
2.43.0


From 2f67dea53821ddc7e3bd70a92a1c4525a7f19f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 13/90] fix: ~/ inside a path starts another path

~/ begins a home path, it is not part of the one before: [ ./a~/b ] is a
list of two.
---
 libnixf/src/Parse/ParseStrings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 2a441c3..08af30d 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -37,6 +37,9 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
     while (true) {
       Token Current = peek();
       if (Current.kind() == tok_path_fragment) {
+        // ~/ begins another (home) path.
+        if (!Fragments.empty() && Current.view().starts_with('~'))
+          break;
         Fragments.emplace_back(std::string(Current.view()));
         consume();
       } else if (Current.kind() == tok_dollar_curly) {
-- 
2.43.0


From 5fe10704b4e36e3bd05155009f0400a9bd0ccbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 14/90] fix: accept floats without integral part

Nix's FLOAT is (([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?,
so .5 is a float.
---
 libnixf/src/Parse/Lexer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index a3cff66..5b48297 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -508,6 +508,16 @@ Token Lexer::lex() {
     return finishToken();
   }
 
+  // Float without integral part: \.[0-9]+([Ee][+-]?[0-9]+)?
+  if (*Ch == '.' && !eof(Cur.Offset + 1) &&
+      std::isdigit(Src[Cur.Offset + 1])) {
+    Tok = tok_float;
+    consume(); // .
+    consumeManyDigits();
+    lexFloatExp();
+    return finishToken();
+  }
+
   if (std::isalpha(*Ch) || *Ch == '_') {
 
     // So, this is not a path/URI, it should be an identifier.
-- 
2.43.0


From f146cc3c97f3f09aac857099eab2a2f3ac8884f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 15/90] fix: report the trailing slash of a path

Nix rejects ./a/ with `path has a trailing slash'; the diagnostic was
defined, and never emitted.
---
 libnixf/src/Parse/ParseStrings.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 08af30d..8d59ce6 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -52,6 +52,13 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
       End = LastToken->rCur();
     }
   }
+  if (!Fragments.empty()) {
+    const InterpolablePart &Last = Fragments.back();
+    if (Last.kind() == InterpolablePart::SPK_Escaped &&
+        Last.escaped().ends_with('/'))
+      Diags.emplace_back(Diagnostic::DK_PathTrailingSlash,
+                         LexerCursorRange{Begin.lCur(), End});
+  }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
   return std::make_shared<ExprPath>(LexerCursorRange{Begin.lCur(), End},
-- 
2.43.0


From 720334959cbd5cffe49f7e6f7d7795637187a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 16/90] fix: report dynamic attributes of let

Nix rejects let ${a} = 1; in a. The diagnostic was defined, and never
emitted.
---
 libnixf/src/Parse/ParseExpr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 3affa2d..4e8bcd3 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -270,6 +270,11 @@ std::shared_ptr<ExprLet> Parser::parseExprLet() {
   auto Binds = parseBinds();
   auto Attrs = Binds ? Act.onExprAttrs(Binds->range(), Binds, Let) : nullptr;
 
+  if (Attrs) {
+    for (const auto &Attr : Attrs->sema().dynamicAttrs())
+      Diags.emplace_back(Diagnostic::DK_LetDynamic, Attr.key().range());
+  }
+
   ExpectResult ExpKwIn = expect(tok_kw_in);
 
   if (!ExpKwIn.ok()) {
-- 
2.43.0


From ac0a22c38fa9b19a3bb978be7c30bd406a2796fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 17/90] fix: accept attribute sets in function position

{ __functor = ...; } 1 calls a functor, and is valid Nix.
---
 libnixf/include/nixf/Basic/Nodes/Basic.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Basic.h b/libnixf/include/nixf/Basic/Nodes/Basic.h
index 23988d4..4a27a47 100644
--- a/libnixf/include/nixf/Basic/Nodes/Basic.h
+++ b/libnixf/include/nixf/Basic/Nodes/Basic.h
@@ -80,14 +80,13 @@ public:
     return NK_BeginExpr <= Kind && Kind <= NK_EndExpr;
   }
 
-  /// \returns true if the expression might be evaluated to lambda.
+  /// \returns true if the expression might be evaluated to lambda (or functor).
   static bool maybeLambda(NodeKind Kind) {
     if (!isExpr(Kind))
       return false;
     switch (Kind) {
     case Node::NK_ExprInt:
     case Node::NK_ExprFloat:
-    case Node::NK_ExprAttrs:
     case Node::NK_ExprString:
     case Node::NK_ExprPath:
       return false;
-- 
2.43.0


From 323ff1ddf01820231b8f904b1f680908e0951900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 18/90] fix: let { ... } is a simple expression

As the grammar in Parser.h says, it may be an operand, an argument, a
list element, or selected from.
---
 libnixf/src/Parse/ParseExpr.cpp   | 2 +-
 libnixf/src/Parse/ParseSimple.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 4e8bcd3..4181c9f 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -133,7 +133,7 @@ std::shared_ptr<Expr> Parser::parseExpr() {
   case tok_kw_let:
     if (peek(1).kind() != tok_l_curly)
       return parseExprLet();
-    return parseExprLegacyLet();
+    break; // let { ... }, it is a simple expression.
   case tok_kw_with:
     return parseExprWith();
   default:
diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index a7fbf57..d71a004 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -166,6 +166,10 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_kw_rec:
   case tok_l_curly:
     return parseExprAttrs();
+  case tok_kw_let: // let { ... }
+    if (peek(1).kind() == tok_l_curly)
+      return parseExprLegacyLet();
+    return nullptr;
   case tok_l_bracket:
     return parseExprList();
   default:
-- 
2.43.0


From a33b0b62e2bd076554306ceeacb9f204ffb66c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 19/90] fix: "" is a static attribute name

It has no fragments, so it was taken for a dynamic one: inherit ""; was
rejected, and { "" = 1; "" = 2; } was not.
---
 libnixf/include/nixf/Basic/Nodes/Simple.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Simple.h b/libnixf/include/nixf/Basic/Nodes/Simple.h
index c8cb3ef..89fc72c 100644
--- a/libnixf/include/nixf/Basic/Nodes/Simple.h
+++ b/libnixf/include/nixf/Basic/Nodes/Simple.h
@@ -93,14 +93,17 @@ public:
     return Fragments;
   };
 
+  /// \note The empty string ("") has no fragments, and is a literal.
   [[nodiscard]] bool isLiteral() const {
-    return Fragments.size() == 1 &&
-           Fragments[0].kind() == InterpolablePart::SPK_Escaped;
+    return Fragments.empty() ||
+           (Fragments.size() == 1 &&
+            Fragments[0].kind() == InterpolablePart::SPK_Escaped);
   }
 
   [[nodiscard]] const std::string &literal() const {
+    static const std::string Empty;
     assert(isLiteral() && "must be a literal");
-    return Fragments[0].escaped();
+    return Fragments.empty() ? Empty : Fragments[0].escaped();
   }
 
   [[nodiscard]] ChildVector children() const override {
-- 
2.43.0


From 4ca9527fcd3a81ad8c97382dc577ce38f506a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 20/90] fix: report a comma before the first formal

Nix rejects { , a }: a and { , }: a, they were accepted.
---
 libnixf/src/Sema/SemaActions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 82ddc04..5bc0da1 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -215,6 +215,18 @@ void Sema::checkFormalEllipsis(const FormalVector &FV) {
 void Sema::checkFormalSep(const FormalVector &FV) {
   if (FV.empty())
     return;
+  // The first formal must not begin with ",", e.g.
+  // { , a }
+  //   ^  empty formal
+  // (A lone comma before other formals is reported by checkFormalEmpty)
+  const Formal &First = *FV.front();
+  if (First.comma() && (First.id() || First.isEllipsis() || FV.size() == 1)) {
+    Diagnostic &D = Diags.emplace_back(Diagnostic::DK_EmptyFormal,
+                                       First.comma()->range());
+    D.fix("remove empty formal")
+        .edit(TextEdit::mkRemoval(First.comma()->range()));
+    D.tag(DiagnosticTag::Faded);
+  }
   for (auto It = FV.begin(); It != FV.end(); It++) {
     const Formal &F = **It;
     // All formals must begins with "," except the first.
-- 
2.43.0


From 9be3866dc5409be754f2a2bb77b4ca432b190234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 21/90] fix: a carriage return ends a line comment

Nix's comment is \#[^\r\n]*, what follows is not a part of it.
---
 libnixf/src/Parse/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 5b48297..5355388 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -136,7 +136,7 @@ bool Lexer::consumeComments() {
   } else if (consumePrefix("#")) {
     // Single line comments, consume blocks until we meet EOF or '\n' or '\r'
     while (true) {
-      if (eof() || consumeEOL()) {
+      if (eof() || consumeEOL() || consumeOne('\r')) {
         return true;
       }
       consume(); // Consume a character (single line comment body).
-- 
2.43.0


From a14275dfefb30b8a8101930965a72bcb32a453fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 22/90] fix: <a/> is not a search path

Nix's SPATH is \<{PATH_CHAR}+(\/{PATH_CHAR}+)*\>, no trailing slash.
---
 libnixf/src/Parse/Lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 5355388..4221d4e 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -306,6 +306,9 @@ bool Lexer::consumeSPath() {
             consume();
           continue;
         }
+        // The slash must be followed by a path char: <a/> is not a path.
+        Cur = Saved;
+        return false;
       }
       break;
     }
-- 
2.43.0


From db2f4e3e1e743185d6a5c8fdf65de9460d4cd74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 23/90] fix: visit the source of inherit (x) a b once

---
 libnixf/src/Sema/VariableLookup.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 792d706..b576a53 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -509,7 +509,10 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
 
 void VariableLookupAnalysis::dfs(const Node &Root,
                                  const std::shared_ptr<EnvNode> &Env) {
-  Envs.insert({&Root, Env});
+  // The source expression of "inherit (expr) a b;" is shared by the attributes
+  // it is desugared to, visit it once.
+  if (!Envs.insert({&Root, Env}).second)
+    return;
   switch (Root.kind()) {
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(Root);
-- 
2.43.0


From e6634edf66cdfef35fcd8f9ba06ca57b3cac6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 24/90] fix: analyse the source of an inherit without names

---
 libnixf/include/nixf/Basic/Nodes/Attrs.h | 8 ++++++++
 libnixf/src/Sema/SemaActions.cpp         | 5 +++++
 libnixf/src/Sema/VariableLookup.cpp      | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/libnixf/include/nixf/Basic/Nodes/Attrs.h b/libnixf/include/nixf/Basic/Nodes/Attrs.h
index 4a39b01..947718d 100644
--- a/libnixf/include/nixf/Basic/Nodes/Attrs.h
+++ b/libnixf/include/nixf/Basic/Nodes/Attrs.h
@@ -239,6 +239,7 @@ private:
   // So they explicitly marked as mutable
   /*mutable*/ std::map<std::string, Attribute> Static;
   /*mutable*/ std::vector<Attribute> Dynamic;
+  /*mutable*/ std::vector<std::shared_ptr<Expr>> InheritSources;
 
   const Misc *Recursive;
 
@@ -265,6 +266,13 @@ public:
     return Dynamic;
   }
 
+  /// \brief Source expressions of `inherit (expr) ...;`, including those that
+  /// inherit no name at all.
+  [[nodiscard]] const std::vector<std::shared_ptr<Expr>> &
+  inheritSources() const {
+    return InheritSources;
+  }
+
   /// \brief If the attribute set is `rec`.
   [[nodiscard]] bool isRecursive() const { return Recursive; }
 };
diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 5bc0da1..16a60b0 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -62,6 +62,9 @@ void Sema::mergeAttrSets(SemaAttrs &XAttrs, const SemaAttrs &YAttrs) {
   for (const auto &DAttr : YAttrs.Dynamic) {
     XAttrs.Dynamic.emplace_back(DAttr);
   }
+  for (const auto &Source : YAttrs.InheritSources) {
+    XAttrs.InheritSources.emplace_back(Source);
+  }
 }
 
 void Sema::insertAttr(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
@@ -318,6 +321,8 @@ void Sema::lowerInheritName(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
 }
 
 void Sema::lowerInherit(SemaAttrs &Attr, const Inherit &Inherit) {
+  if (Inherit.expr())
+    Attr.InheritSources.emplace_back(Inherit.expr());
   for (const std::shared_ptr<AttrName> &Name : Inherit.names()) {
     assert(Name);
     auto [Desugar, Kind] = desugarInheritExpr(Name, Inherit.expr());
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index b576a53..d4468da 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -338,6 +338,9 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
       }
     }
 
+    for (const auto &Source : SA.inheritSources())
+      dfs(*Source, NewEnv);
+
     dfsDynamicAttrs(SA.dynamicAttrs(), NewEnv);
     return NewEnv;
   }
@@ -349,6 +352,9 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
     dfs(*Attr.value(), Env);
   }
 
+  for (const auto &Source : SA.inheritSources())
+    dfs(*Source, Env);
+
   dfsDynamicAttrs(SA.dynamicAttrs(), Env);
   return Env;
 };
-- 
2.43.0


From 447fa6deb072fad8a5b8361f0cd1bb127c0aecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 25/90] fix: let { ... } has no rec to remove

---
 libnixf/src/Sema/VariableLookup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index d4468da..f0a28ad 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -405,8 +405,12 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
 
 void VariableLookupAnalysis::dfs(const ExprLegacyLet &LegacyLet,
                                  const std::shared_ptr<EnvNode> &Env) {
-  if (LegacyLet.attrs())
-    dfs(*LegacyLet.attrs(), Env);
+  // The attribute set is recursive because of "let", there is no "rec" that
+  // could be removed.
+  if (const ExprAttrs *Attrs = LegacyLet.attrs()) {
+    Envs.insert({Attrs, Env});
+    dfsAttrs(Attrs->sema(), Env, Attrs, Definition::DS_Rec);
+  }
 }
 
 void VariableLookupAnalysis::trivialDispatch(
-- 
2.43.0


From a779c9cede50e52561af840f6ee6ed813eab3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 26/90] fix: keep tokens apart when removing redundant
 parentheses

---
 libnixf/src/Parse/ParseSimple.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index d71a004..d7ab7d0 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -35,6 +35,20 @@ bool mayProducedBySimple(const Expr *E) {
   return mayProducedBySimple(E->kind());
 }
 
+/// \brief Remove a parenthesis, but keep the tokens around it apart.
+///
+/// e.g. "f(x)" -> "f x ", "(1.5)/2" -> "1.5 /2".
+void removeParen(Fix &F, LexerCursorRange Paren, std::string_view Src) {
+  // Characters that cannot be merged to any token on their right (left) side.
+  constexpr std::string_view Left = " \t\r\n([{;";
+  constexpr std::string_view Right = " \t\r\n)]};";
+  std::size_t Begin = Paren.lCur().offset();
+  std::size_t End = Paren.rCur().offset();
+  bool Separated = Begin == 0 || Left.find(Src[Begin - 1]) != Left.npos ||
+                   End >= Src.size() || Right.find(Src[End]) != Right.npos;
+  F.edit(TextEdit(Paren, Separated ? "" : " "));
+}
+
 } // namespace
 
 std::shared_ptr<ExprParen> Parser::parseExprParen() {
@@ -55,8 +69,8 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove ( and )");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
-      F.edit(TextEdit::mkRemoval(RParen->range()));
+      removeParen(F, LParen->range(), Src);
+      removeParen(F, RParen->range(), Src);
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), ER.tok().rCur()}, std::move(Expr),
@@ -69,7 +83,7 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove (");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
+      removeParen(F, LParen->range(), Src);
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), LastToken->rCur()}, std::move(Expr),
-- 
2.43.0


From 4fb5be70767ae4126ba26c8c9cf091d5b2a3495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 27/90] fix: separate inserted keywords from the text around
 them

---
 libnixf/src/Parse/ParseExpr.cpp    |  2 +-
 libnixf/src/Parse/ParseSupport.cpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 4181c9f..ce5ab83 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -158,7 +158,7 @@ std::shared_ptr<ExprIf> Parser::parseExprIf() {
     Diagnostic &D = diagNullExpr(Diags, LastToken->rCur(), "condition");
     D.fix("remove `if` keyword").edit(TextEdit::mkRemoval(TokIf.range()));
     D.fix("insert dummy condition")
-        .edit(TextEdit::mkInsertion(TokIf.rCur(), "true"));
+        .edit(TextEdit::mkInsertion(TokIf.rCur(), " true"));
 
     if (peek().kind() != tok_kw_then)
       return std::make_shared<ExprIf>(LexerCursorRange{LCur, LastToken->rCur()},
diff --git a/libnixf/src/Parse/ParseSupport.cpp b/libnixf/src/Parse/ParseSupport.cpp
index 48a8d36..fbf365d 100644
--- a/libnixf/src/Parse/ParseSupport.cpp
+++ b/libnixf/src/Parse/ParseSupport.cpp
@@ -114,7 +114,16 @@ Parser::ExpectResult Parser::expect(TokenKind Kind) {
   Diagnostic &D =
       Diags.emplace_back(Diagnostic::DK_Expected, LexerCursorRange(Insert));
   D << std::string(tok::spelling(Kind));
+  std::string NewText(tok::spelling(Kind));
+  if (NewText[0] >= 'a' && NewText[0] <= 'z') {
+    // Do not glue keywords to the surrounding text.
+    NewText = " " + NewText;
+    if (Insert.offset() < Src.size() &&
+        std::string_view(" \t\r\n").find(Src[Insert.offset()]) ==
+            std::string_view::npos)
+      NewText += " ";
+  }
   D.fix("insert " + std::string(tok::spelling(Kind)))
-      .edit(TextEdit::mkInsertion(Insert, std::string(tok::spelling(Kind))));
+      .edit(TextEdit::mkInsertion(Insert, std::move(NewText)));
   return {&D};
 }
-- 
2.43.0


From dab00157476ea716f425807659c876958da63b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 28/90] fix: remove the source of an inherit without names

---
 libnixf/src/Parse/ParseAttrs.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseAttrs.cpp b/libnixf/src/Parse/ParseAttrs.cpp
index 3eab21c..5637585 100644
--- a/libnixf/src/Parse/ParseAttrs.cpp
+++ b/libnixf/src/Parse/ParseAttrs.cpp
@@ -117,6 +117,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
   assert(LastToken && "LastToken should be set after consume()");
   std::vector<std::shared_ptr<AttrName>> AttrNames;
   std::shared_ptr<Expr> Expr = nullptr;
+  LexerCursor SourceEnd;
   if (Token Tok = peek(); Tok.kind() == tok_l_paren) {
     consume();
     Expr = parseExpr();
@@ -127,6 +128,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
     else
       ER.diag().note(Note::NK_ToMachThis, Tok.range())
           << std::string(tok::spelling(tok_l_paren));
+    SourceEnd = LastToken->rCur();
   }
   while (true) {
     if (auto AttrName = parseAttrName()) {
@@ -148,7 +150,9 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
         Diags.emplace_back(Diagnostic::DK_EmptyInherit, TokInherit.range());
     D.tag(DiagnosticTag::Faded);
     Fix &F = D.fix("remove `inherit` keyword");
-    F.edit(TextEdit::mkRemoval(TokInherit.range()));
+    // Remove the source also.
+    F.edit(TextEdit::mkRemoval(
+        {TokInherit.lCur(), Expr ? SourceEnd : TokInherit.rCur()}));
     if (ER.ok()) {
       // Remove ";" also.
       F.edit(TextEdit::mkRemoval(ER.tok().range()));
-- 
2.43.0


From ad0cb26acd143bc2f131fbb63bfc6a37e1f4eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 29/90] fix: do not duplicate the trailing comma when moving an
 ellipsis

---
 libnixf/src/Sema/SemaActions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 16a60b0..22d4003 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -206,6 +206,15 @@ void Sema::checkFormalEllipsis(const FormalVector &FV) {
       Fix &Fx = D.fix("move ellipsis to the tail");
       removeFormal(Fx, It, FV);
       std::string NewText(CurF.src(Src));
+      if (!LastF.id()) {
+        // { ..., a, } -> { a, ... }
+        // { ..., }    -> { ... }
+        // The last formal is a trailing comma.
+        bool OnlyComma = It == FV.begin() && It + 2 == FV.end();
+        Fx.edit(TextEdit::mkInsertion(
+            LastF.rCur(), OnlyComma || !LastF.comma() ? "..." : " ..."));
+        continue;
+      }
       // If current formal does not contain the seperator ", "
       // Insert a new comma to seperate it from the last formal
       if (!CurF.comma())
-- 
2.43.0


From 3d2a5c723abeff0b35f60895d170c590842b3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 30/90] fix: the extra @ is the token after the identifier

---
 libnixf/src/Parse/ParseLambda.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseLambda.cpp b/libnixf/src/Parse/ParseLambda.cpp
index 59947ab..c67f52d 100644
--- a/libnixf/src/Parse/ParseLambda.cpp
+++ b/libnixf/src/Parse/ParseLambda.cpp
@@ -92,15 +92,16 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
       return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                              std::move(ID), nullptr);
 
+    Token TokAt = peek();
     consume(); // @
     std::shared_ptr<Formals> Formals = parseFormals();
     if (!Formals) {
       // extra "@", consider remove it.
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokID.range());
-      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokID.range()));
+      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokAt.range()));
       D.fix("insert dummy formals")
-          .edit(TextEdit::mkInsertion(TokID.rCur(), R"({})"));
+          .edit(TextEdit::mkInsertion(TokAt.rCur(), R"({})"));
     }
     return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                            std::move(ID), std::move(Formals));
-- 
2.43.0


From 9070cb747d91e519157d20cc68c05af8c0d13b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 31/90] fix: keep the builtins prefix where it is necessary

---
 libnixf/include/nixf/Sema/VariableLookup.h |  6 ++--
 libnixf/src/Sema/VariableLookup.cpp        | 34 ++++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index e592a14..756c350 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -140,9 +140,11 @@ private:
 
   void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
 
-  void checkBuiltins(const ExprSelect &Sel);
+  void checkBuiltins(const ExprSelect &Sel,
+                     const std::shared_ptr<EnvNode> &Env);
 
-  void checkLetInheritBuiltins(const SemaAttrs &SA);
+  void checkLetInheritBuiltins(const SemaAttrs &SA,
+                               const std::shared_ptr<EnvNode> &Env);
 
   std::shared_ptr<EnvNode> dfsAttrs(const SemaAttrs &SA,
                                     const std::shared_ptr<EnvNode> &Env,
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index f0a28ad..8bc185d 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -85,6 +85,16 @@ bool checkInheritedFromBuiltin(const Attribute &Attr) {
   return false;
 }
 
+/// \brief Whether \p Name, used in \p Env, is the one Nix provides.
+/// i.e. it is not shadowed by definitions in the file.
+bool isGlobal(const std::string &Name, const EnvNode *Env) {
+  for (; Env && Env->parent(); Env = Env->parent()) {
+    if (Env->defs().contains(Name))
+      return false;
+  }
+  return true;
+}
+
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
@@ -392,7 +402,7 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     // If there are some attributes actually, create a new env.
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
-    checkLetInheritBuiltins(SA);
+    checkLetInheritBuiltins(SA, Env);
     return dfsAttrs(SA, Env, &Let, Definition::DS_Let);
   };
 
@@ -450,7 +460,8 @@ void VariableLookupAnalysis::dfs(const ExprWith &With,
   }
 }
 
-void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
+void VariableLookupAnalysis::checkBuiltins(
+    const ExprSelect &Sel, const std::shared_ptr<EnvNode> &Env) {
   if (!Sel.path())
     return;
 
@@ -462,7 +473,7 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
     return;
 
   const auto &Builtins = static_cast<const ExprVar &>(Sel.expr());
-  if (Builtins.id().name() != "builtins")
+  if (Builtins.id().name() != "builtins" || !isGlobal("builtins", Env.get()))
     return;
 
   const auto &AP = *Sel.path();
@@ -478,8 +489,15 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
 
   switch (lookupGlobalPrimOpInfo(Name)) {
   case PrimopLookupResult::Found: {
+    // The prefix is necessary if the name is shadowed, and "or" requires a
+    // select expression.
+    if (!isGlobal(Name, Env.get()) || Sel.defaultExpr())
+      return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
+    // Without the prefix, builtins."map" would be a string.
+    if (First.kind() != AttrName::ANK_ID)
+      return;
     Fix &F =
         D.fix("remove `builtins.` prefix")
             .edit(TextEdit::mkRemoval(Builtins.range())); // remove `builtins`
@@ -502,9 +520,13 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   }
 }
 
-void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
+void VariableLookupAnalysis::checkLetInheritBuiltins(
+    const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env) {
+  // "builtins" is evaluated in the scope of the let itself.
+  if (SA.staticAttrs().contains("builtins") || !isGlobal("builtins", Env.get()))
+    return;
   for (const auto &[Name, Attr] : SA.staticAttrs()) {
-    if (!checkInheritedFromBuiltin(Attr))
+    if (!checkInheritedFromBuiltin(Attr) || !isGlobal(Name, Env.get()))
       continue;
 
     // Check if the inherited name is a prelude builtin
@@ -557,7 +579,7 @@ void VariableLookupAnalysis::dfs(const Node &Root,
   case Node::NK_ExprSelect: {
     trivialDispatch(Root, Env);
     const auto &Sel = static_cast<const ExprSelect &>(Root);
-    checkBuiltins(Sel);
+    checkBuiltins(Sel, Env);
     break;
   }
   default:
-- 
2.43.0


From 6459a29c4f336e894bfa9b98e504ea1463b30da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:57 +0000
Subject: [PATCH 32/90] fix: remove all bindings of an unused attribute

---
 libnixf/src/Sema/VariableLookup.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 8bc185d..ee0290c 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -148,6 +148,7 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
         if (LetNode && LetNode->kind() == Node::NK_ExprLet) {
           const auto &Let = static_cast<const ExprLet &>(*LetNode);
           if (Let.binds()) {
+            std::vector<TextEdit> Edits;
             for (const auto &BindNode : Let.binds()->bindings()) {
               // Skip non-Binding nodes (Inherit handled separately)
               if (BindNode->kind() != Node::NK_Binding)
@@ -162,14 +163,15 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
               if (!FirstName)
                 continue;
 
-              // Match by comparing first attrname range with Def->syntax()
-              // range
-              if (D.range().lCur() == FirstName->range().lCur() &&
-                  D.range().rCur() == FirstName->range().rCur()) {
-                D.fix("remove unused binding")
-                    .edit(TextEdit::mkRemoval(Bind.range()));
-                break;
-              }
+              // Several bindings may contribute to one attribute, e.g.
+              // let a.b = 1; a.c = 2; in ...
+              if (FirstName->isStatic() && FirstName->staticName() == Name)
+                Edits.emplace_back(TextEdit::mkRemoval(Bind.range()));
+            }
+            if (!Edits.empty()) {
+              Fix &F = D.fix("remove unused binding");
+              for (TextEdit &E : Edits)
+                F.edit(std::move(E));
             }
           }
         }
-- 
2.43.0


From ba94261457d704f914f02df6c7c1bc414d38425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 33/90] fix: do not escape inserted quotes

---
 libnixf/src/Parse/ParseSupport.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libnixf/src/Parse/ParseSupport.cpp b/libnixf/src/Parse/ParseSupport.cpp
index fbf365d..90925e1 100644
--- a/libnixf/src/Parse/ParseSupport.cpp
+++ b/libnixf/src/Parse/ParseSupport.cpp
@@ -123,6 +123,17 @@ Parser::ExpectResult Parser::expect(TokenKind Kind) {
             std::string_view::npos)
       NewText += " ";
   }
+  // Quotes must not become a part of the text before.
+  if (LastToken && LastToken->kind() == tok_string_escape &&
+      LastToken->view().ends_with('\\') && LastToken->view() != "\\\\") {
+    // "foo\  -> "foo\\"
+    NewText = (Kind == tok_dquote ? "\\" : " ") + NewText;
+  } else if (Kind == tok_quote2 && LastToken &&
+             LastToken->kind() != tok_quote2 &&
+             LastToken->view().ends_with('\'')) {
+    // ''foo'  -> ''foo' ''
+    NewText = " " + NewText;
+  }
   D.fix("insert " + std::string(tok::spelling(Kind)))
       .edit(TextEdit::mkInsertion(Insert, std::move(NewText)));
   return {&D};
-- 
2.43.0


From cf110e546a7dd01079580403f8a337d12a7a8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 34/90] fix: keep the meaning when converting a legacy let

---
 libnixf/src/Parse/ParseExpr.cpp | 94 ++++++++++++++++++++++++++++++---
 1 file changed, 86 insertions(+), 8 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index ce5ab83..d4f7f3c 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -336,8 +336,68 @@ std::shared_ptr<ExprWith> Parser::parseExprWith() {
                                     std::move(With), std::move(E));
 }
 
+namespace {
+
+/// \brief Whether an \p expr (not only \p expr_simple) may follow this token.
+bool isExprStart(const std::optional<Token> &Before) {
+  if (!Before)
+    return true;
+  switch (Before->kind()) {
+  case tok_l_paren:
+  case tok_dollar_curly:
+  case tok_eq:
+  case tok_colon:
+  case tok_semi_colon:
+  case tok_kw_if:
+  case tok_kw_then:
+  case tok_kw_else:
+  case tok_kw_assert:
+  case tok_kw_with:
+  case tok_kw_in:
+    return true;
+  default:
+    return false;
+  }
+}
+
+/// \brief Whether this token terminates an expression.
+bool isExprEnd(const Token &After) {
+  switch (After.kind()) {
+  case tok_eof:
+  case tok_r_paren:
+  case tok_r_curly:
+  case tok_semi_colon:
+  case tok_comma:
+  case tok_kw_then:
+  case tok_kw_else:
+    return true;
+  default:
+    return false;
+  }
+}
+
+/// \brief Whether there is any identifier \p Name under the node.
+bool mentions(const Node &N, std::string_view Name) {
+  if (N.kind() == Node::NK_ExprVar)
+    return static_cast<const ExprVar &>(N).id().name() == Name;
+  if (N.kind() == Node::NK_Inherit) {
+    for (const auto &AN : static_cast<const Inherit &>(N).names()) {
+      if (AN && AN->isStatic() && AN->staticName() == Name)
+        return true;
+    }
+  }
+  for (const Node *Ch : N.children()) {
+    if (Ch && mentions(*Ch, Name))
+      return true;
+  }
+  return false;
+}
+
+} // namespace
+
 std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
   LexerCursor LCur = lCur();
+  std::optional<Token> Before = LastToken;
   Token TokLet = peek();
   assert(TokLet.kind() == tok_kw_let &&
          "parseExprLegacyLet should start with `let`");
@@ -374,7 +434,10 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
   Diagnostic &DWarn =
       Diags.emplace_back(Diagnostic::DK_DeprecatedLet, FullRange);
 
-  if (HasBody && Attrs->binds()) {
+  // "let" does not accept dynamic attributes.
+  if (HasBody && Attrs->binds() && Attrs->sema().dynamicAttrs().empty()) {
+    // Inline the definition of "body", if nothing else depends on it.
+    const Binding *Body = nullptr;
     for (const auto &BindNode : Attrs->binds()->bindings()) {
       if (BindNode->kind() != Node::NK_Binding)
         continue;
@@ -384,15 +447,30 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
       const auto &Name = *Bind.path().names()[0];
       if (!Name.isStatic() || Name.staticName() != "body")
         continue;
-      if (!Bind.value())
+      // { body = { }; body.x = 1; }, several bindings define the body.
+      if (Body || Bind.path().names().size() != 1) {
+        Body = nullptr;
         break;
-      Fix &F = DWarn.fix("convert to `let ... in ...`");
-      F.edit(TextEdit::mkRemoval(LCurlyRange));
-      F.edit(TextEdit::mkRemoval(Bind.range()));
-      F.edit(
-          TextEdit(RCurlyRange, "in " + std::string(Bind.value()->src(Src))));
-      break;
+      }
+      Body = &Bind;
     }
+    if (Body && (!Body->value() || mentions(*Attrs->binds(), "body")))
+      Body = nullptr;
+
+    // Parenthesize, e.g. [ let { body = 1; } ] -> [ (let in 1) ]
+    bool Paren = !isExprStart(Before) || !isExprEnd(peek());
+    Fix &F = DWarn.fix("convert to `let ... in ...`");
+    if (Paren)
+      F.edit(TextEdit::mkInsertion(LCur, "("));
+    bool Glued = TokLet.rCur() == LCurlyRange.lCur() &&
+                 LCurlyRange.rCur() == Attrs->binds()->lCur();
+    F.edit(TextEdit(LCurlyRange, Glued ? " " : ""));
+    if (Body)
+      F.edit(TextEdit::mkRemoval(Body->range()));
+    F.edit(TextEdit(RCurlyRange,
+                    "in " +
+                        (Body ? std::string(Body->value()->src(Src)) : "body") +
+                        (Paren ? ")" : "")));
   }
 
   if (!HasBody)
-- 
2.43.0


From 666c7de3c736cce3e5b9294702d722b343f199a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 35/90] fix: print diagnostics of sources that are not UTF-8

---
 libnixf/tools/nixf-tidy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnixf/tools/nixf-tidy.cpp b/libnixf/tools/nixf-tidy.cpp
index b4c575b..14291bd 100644
--- a/libnixf/tools/nixf-tidy.cpp
+++ b/libnixf/tools/nixf-tidy.cpp
@@ -48,8 +48,9 @@ int main(int Argc, const char *Argv[]) {
   nlohmann::json V;
   to_json(V, Diags);
 
-  if (PrettyPrint)
-    std::cout << std::setw(4);
-  std::cout << V << "\n";
+  // The source may not be valid UTF-8, JSON strings have to.
+  std::cout << V.dump(PrettyPrint ? 4 : -1, ' ', /*ensure_ascii=*/false,
+                      nlohmann::json::error_handler_t::replace)
+            << "\n";
   return 0;
 }
-- 
2.43.0


From 3cb46d082aa46c2a4083912b3725c1c2e52c7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 36/90] fix: convert UTF-16 columns of requests to bytes

---
 nixd/lib/Controller/CodeAction.cpp        |  2 +-
 nixd/lib/Controller/Completion.cpp        |  3 ++-
 nixd/lib/Controller/Convert.cpp           | 18 ++++++++++++++----
 nixd/lib/Controller/Convert.h             |  7 +++++--
 nixd/lib/Controller/Definition.cpp        |  3 ++-
 nixd/lib/Controller/DocumentHighlight.cpp |  3 ++-
 nixd/lib/Controller/FindReferences.cpp    |  3 ++-
 nixd/lib/Controller/Hover.cpp             |  2 +-
 nixd/lib/Controller/InlayHints.cpp        |  2 +-
 nixd/lib/Controller/Rename.cpp            |  6 ++++--
 10 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 6e73711..4b1e69d 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -82,7 +82,7 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
 
       // Add refactoring code actions based on cursor position
       if (TU->ast() && TU->parentMap()) {
-        nixf::PositionRange NixfRange = toNixfRange(Range);
+        nixf::PositionRange NixfRange = toNixfRange(TU->src(), Range);
         if (const nixf::Node *N = TU->ast()->descend(NixfRange)) {
           addAttrNameActions(*N, *TU->parentMap(), FileURI, TU->src(), Actions);
           addConvertToInheritAction(*N, *TU->parentMap(), FileURI, TU->src(),
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ffd3e5f..f0b7898 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -465,11 +465,12 @@ void Controller::onCompletion(const CompletionParams &Params,
                               Callback<CompletionList> Reply) {
   using CheckTy = CompletionList;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply([&]() -> llvm::Expected<CompletionList> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
       CheckDefault(Desc && canCompleteAt(*Desc));
diff --git a/nixd/lib/Controller/Convert.cpp b/nixd/lib/Controller/Convert.cpp
index 8d969f2..c5596ef 100644
--- a/nixd/lib/Controller/Convert.cpp
+++ b/nixd/lib/Controller/Convert.cpp
@@ -29,12 +29,22 @@ lspserver::Position nixd::toLSPPosition(llvm::StringRef Code,
   return lspserver::offsetToPosition(Code, P.offset());
 }
 
-nixf::Position nixd::toNixfPosition(const lspserver::Position &P) {
-  return {P.line, P.character};
+nixf::Position nixd::toNixfPosition(llvm::StringRef Code,
+                                    const lspserver::Position &P) {
+  llvm::Expected<size_t> Offset = lspserver::positionToOffset(Code, P);
+  if (!Offset) {
+    // There is no such line.
+    llvm::consumeError(Offset.takeError());
+    return {P.line, P.character};
+  }
+  // "npos" if this is the first line, and then the line starts at 0.
+  size_t StartOfLine = Code.take_front(*Offset).rfind('\n') + 1;
+  return {P.line, static_cast<int64_t>(*Offset - StartOfLine)};
 }
 
-nixf::PositionRange nixd::toNixfRange(const lspserver::Range &P) {
-  return {toNixfPosition(P.start), toNixfPosition(P.end)};
+nixf::PositionRange nixd::toNixfRange(llvm::StringRef Code,
+                                      const lspserver::Range &P) {
+  return {toNixfPosition(Code, P.start), toNixfPosition(Code, P.end)};
 }
 
 lspserver::Range nixd::toLSPRange(llvm::StringRef Code,
diff --git a/nixd/lib/Controller/Convert.h b/nixd/lib/Controller/Convert.h
index d203b01..6d652ba 100644
--- a/nixd/lib/Controller/Convert.h
+++ b/nixd/lib/Controller/Convert.h
@@ -13,9 +13,12 @@ namespace nixd {
 lspserver::Position toLSPPosition(llvm::StringRef Code,
                                   const nixf::LexerCursor &P);
 
-nixf::Position toNixfPosition(const lspserver::Position &P);
+/// \note Editors count columns in UTF-16 code units, nixf counts them in bytes.
+nixf::Position toNixfPosition(llvm::StringRef Code,
+                              const lspserver::Position &P);
 
-nixf::PositionRange toNixfRange(const lspserver::Range &P);
+nixf::PositionRange toNixfRange(llvm::StringRef Code,
+                                const lspserver::Range &P);
 
 lspserver::Range toLSPRange(llvm::StringRef Code,
                             const nixf::LexerCursorRange &R);
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5982195..62223ae 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -380,11 +380,12 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
                               Callback<llvm::json::Value> Reply) {
   using CheckTy = Locations;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index e7fcdb9..3379364 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -58,11 +58,12 @@ void Controller::onDocumentHighlight(
     Callback<std::vector<DocumentHighlight>> Reply) {
   using CheckTy = std::vector<DocumentHighlight>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
       try {
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 041388b..5e4251e 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -51,11 +51,12 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
                               Callback<std::vector<Location>> Reply) {
   using CheckTy = std::vector<Location>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 556a2f9..286292a 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -213,7 +213,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = nixf::Position{RawPos.line, RawPos.character};
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
 
       const auto Name = std::string(N.name());
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 2938e0a..4e505fd 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -65,7 +65,7 @@ public:
       : NixpkgsProvider(NixpkgsProvider), VLA(VLA), PMA(PMA), Hints(Hints),
         Src(Src) {
     if (Range)
-      this->Range = toNixfRange(*Range);
+      this->Range = toNixfRange(Src, *Range);
   }
 
   void dfs(const Node *N) {
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 973c9e7..d36475f 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -73,12 +73,13 @@ void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position),
+                 RawPos = Params.position,
                  NewText = Params.newName, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = *CheckReturn(
           AST->descend({Pos, Pos}),
           error("cannot find corresponding node on given position"));
@@ -100,11 +101,12 @@ void Controller::onPrepareRename(
     Callback<std::optional<lspserver::Range>> Reply) {
   using CheckTy = std::optional<lspserver::Range>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
 
-- 
2.43.0


From df58d2df067c70a79598cb40d4d6554406e80aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 37/90] fix: keep drive letters and backslashes of POSIX paths

---
 nixd/lspserver/src/URI.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 8fee314..6261f2f 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -40,16 +40,20 @@ public:
       return error("File scheme: expect body to be an absolute path starting "
                    "with '/': {0}",
                    Body);
+    const bool IsWindows =
+        llvm::sys::path::is_style_windows(llvm::sys::path::Style::native);
     llvm::SmallString<128> Path;
     if (!Authority.empty()) {
       // Windows UNC paths e.g. file://server/share => \\server\share
       ("//" + Authority).toVector(Path);
-    } else if (isWindowsPath(Body.substr(1))) {
+    } else if (IsWindows && isWindowsPath(Body.substr(1))) {
       // Windows paths e.g. file:///X:/path => X:\path
       Body.consume_front("/");
     }
     Path.append(Body);
-    llvm::sys::path::native(Path);
+    // Elsewhere, a backslash is an ordinary character of file names.
+    if (IsWindows)
+      llvm::sys::path::native(Path);
     return std::string(Path);
   }
 
-- 
2.43.0


From 52a9888679ed6bfabf196d2a5bbad54091586787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 38/90] fix: escape slashes in the authority of a URI

---
 nixd/lspserver/src/URI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 6261f2f..d5197f7 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -169,7 +169,12 @@ std::string URI::toString() const {
   // the URI is invalid.
   if (!Authority.empty() || llvm::StringRef(Body).starts_with("/")) {
     Result.append("//");
-    percentEncode(Authority, Result);
+    for (char C : Authority) {
+      if (C == '/') // It would end the authority.
+        Result.append("%2F");
+      else
+        percentEncode(llvm::StringRef(&C, 1), Result);
+    }
   }
   percentEncode(Body, Result);
   return Result;
-- 
2.43.0


From 9daf07c4fd44115f934dba9ce7b10a91f093715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 39/90] fix: resolve file:////name to an absolute path

---
 nixd/lspserver/src/URI.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index d5197f7..2981902 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -54,6 +54,9 @@ public:
     // Elsewhere, a backslash is an ordinary character of file names.
     if (IsWindows)
       llvm::sys::path::native(Path);
+    // "//name" is the root of a network path, for POSIX it is just "/name".
+    if (!llvm::sys::path::is_absolute(Path))
+      Path.erase(Path.begin());
     return std::string(Path);
   }
 
-- 
2.43.0


From 517f9874925d73737358d0a1f7f9c38ba91891a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 40/90] fix: read pending input after the writer hung up, retry
 interrupted poll

A client that writes its messages to a pipe and exits sets POLLHUP while the
data is still unread, and a signal makes poll fail with EINTR; both made the
server drop the input.
---
 nixd/lspserver/src/Connection.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..00ec687 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -174,14 +174,18 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     char Ch;
     // FIXME: inefficient
     int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
-      return false;
     if (Close)
       return false;
+    if (Poll < 0) {
+      if (errno != EINTR)
+        return false;
+      continue;
+    }
 
-    // POLLHUB: hang up from the writer side
-    // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    // POLLHUP: hang up from the writer side, there may be unread data
+    // POLLERR, POLLNVAL: error, invalid request (fd not open)
+    if (!(FDs[0].revents & POLLIN) &&
+        (FDs[0].revents & (POLLHUP | POLLERR | POLLNVAL))) {
       return false;
     }
 
-- 
2.43.0


From c9f7b749f41885b13bb983f830560dcc89c35968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 41/90] fix: handle failing reads and bogus lengths of message
 bodies

A read that returned -1 moved the write position backwards, and a huge
Content-Length made the buffer allocation throw.
---
 nixd/lspserver/src/Connection.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 00ec687..636cfb5 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -9,6 +9,8 @@
 #include <sys/poll.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <cerrno>
 #include <csignal>
 #include <cstdint>
 #include <cstdio>
@@ -232,16 +234,23 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
-  Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
+  // Grow the buffer with the data received, the declared length may be bogus.
+  Buffer.clear();
+  for (size_t Pos = 0; Pos < ContentLength;) {
+    size_t Want = std::min<unsigned long long>(ContentLength - Pos, 1 << 16);
+    Buffer.resize(Pos + Want);
+    ssize_t Read = read(In, Buffer.data() + Pos, Want);
 
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    if (Read < 0 && errno == EINTR)
+      continue;
 
-    if (Read == 0) {
+    if (Read <= 0) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
     }
+    Pos += Read;
+    Buffer.resize(Pos);
   }
   return llvm::json::parse(Buffer);
 }
-- 
2.43.0


From 05596c1b6d6ed9cd262e5e73dbdeffc0894fa6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 42/90] fix: Content-Length is a decimal number

A leading zero made it octal.
---
 nixd/lspserver/src/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 636cfb5..f8fe041 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -224,7 +224,7 @@ InboundPort::readStandardMessage(std::string &Buffer) {
 
     // Content-Length is a mandatory header, and the only one we handle.
     if (LineRef.consume_front("Content-Length: ")) {
-      llvm::getAsUnsignedInteger(LineRef.trim(), 0, ContentLength);
+      llvm::getAsUnsignedInteger(LineRef.trim(), 10, ContentLength);
       continue;
     }
     // An empty line indicates the end of headers.
-- 
2.43.0


From 88fdbf238e0149be51084e7477f5aced1ca26792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 43/90] fix: a malformed message does not end the session

Bodies that are not JSON, or not JSON-RPC messages, are logged and skipped;
the messages after them are intact.
---
 nixd/lspserver/src/Connection.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index f8fe041..5ca5f41 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -131,7 +131,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Object ||
       Object->getString("jsonrpc") != std::optional<llvm::StringRef>("2.0")) {
     elog("Not a JSON-RPC 2.0 message: {0:2}", Message);
-    return false;
+    return true;
   }
   // ID may be any JSON value. If absent, this is a notification.
   std::optional<llvm::json::Value> ID;
@@ -141,7 +141,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Method) { // This is a response.
     if (!ID) {
       elog("No method and no response ID: {0:2}", Message);
-      return false;
+      return true;
     }
     if (auto *Err = Object->getObject("error"))
       // TODO: Logging & reply errors.
@@ -338,15 +338,19 @@ void InboundPort::loop(MessageHandler &Handler) {
         return;
     } else {
       // Handle error while reading message.
-      return [&]() {
-        auto Err = Message.takeError();
-        if (Err.isA<ReadEOF>())
-          return; // Stop reading.
-        else if (Err.isA<llvm::json::ParseError>())
-          elog("The received json cannot be parsed, reason: {0}", Err);
-        else
-          elog("Error reading message: {0}", llvm::toString(std::move(Err)));
-      }();
+      auto Err = Message.takeError();
+      if (Err.isA<ReadEOF>()) {
+        llvm::consumeError(std::move(Err));
+        return; // Stop reading.
+      }
+      if (Err.isA<llvm::json::ParseError>()) {
+        // The framing is intact, ignore this message.
+        elog("The received json cannot be parsed, reason: {0}",
+             llvm::toString(std::move(Err)));
+        continue;
+      }
+      elog("Error reading message: {0}", llvm::toString(std::move(Err)));
+      return;
     }
   }
 }
-- 
2.43.0


From 16930e3aa1750ec6fed129c968a2e949bec93290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 44/90] fix: answer requests for unknown methods

They ended the session without a reply.
---
 nixd/lspserver/src/LSPServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..dfc0540 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -46,7 +46,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID),
+               llvm::make_error<LSPError>("method not found",
+                                          ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From 351cc89b213f4f81a42fe8a84523b57079803454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 45/90] fix: ignore replies whose ID no call has

An ID that is not an integer, or too large, threw an exception that nobody
catches, and one below INT_MIN was truncated to the ID of another call.
---
 nixd/lspserver/src/LSPServer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index dfc0540..0afcd83 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -7,8 +7,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <climits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -57,21 +57,21 @@ bool LSPServer::onReply(llvm::json::Value ID,
   log("<-- reply({0})", ID);
   std::optional<Callback<llvm::json::Value>> CB;
 
-  if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
+  // Only IDs in the range of "int" are allocated by "bindReply".
+  if (auto OptI = ID.getAsInteger();
+      OptI && *OptI >= INT_MIN && *OptI <= INT_MAX) {
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
     auto I = static_cast<int>(*OptI);
     if (PendingCalls.contains(I)) {
       CB = std::move(PendingCalls[I]);
       PendingCalls.erase(I);
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
     // Ignore this error
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     return true;
   }
   // Invoke the callback outside of the critical zone, because we just do not
-- 
2.43.0


From e9ee7e1f314bedb563e8eca93f417f5fba1ecec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 46/90] fix: invoke the callback of a forgotten call without
 holding the lock

A callback that makes another call locked PendingCallsLock again.
---
 nixd/lspserver/src/LSPServer.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 0afcd83..a85db4a 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -81,20 +81,28 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  int Ret;
+  int OldestID;
+  std::optional<Callback<llvm::json::Value>> OldestCallback;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      OldestID = Begin->first;
+      OldestCallback = std::move(Begin->second);
+      PendingCalls.erase(Begin);
+    }
+  }
+  // Invoke the callback outside of the critical zone, it may call again.
+  if (OldestCallback) {
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+         MaxPendingCalls, OldestID);
+    (*OldestCallback)(error(
+        "failed to receive a client reply for request ({0})", OldestID));
   }
   return Ret;
 }
-- 
2.43.0


From 6a5860b3f35aadff0b655924533d2079e0181035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 47/90] fix: draft version 9 is followed by 10, not 1

---
 nixd/lspserver/src/DraftStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/DraftStore.cpp b/nixd/lspserver/src/DraftStore.cpp
index 0170971..53e37e7 100644
--- a/nixd/lspserver/src/DraftStore.cpp
+++ b/nixd/lspserver/src/DraftStore.cpp
@@ -54,7 +54,7 @@ static void increment(std::string &S) {
       ++*I;
       break;
     }
-    *I = '0'; // and keep incrementing to the left.
+    *I++ = '0'; // and keep incrementing to the left.
   }
 }
 
-- 
2.43.0


From 5d8b9820198ed85888facb1a4bab417f09a73855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 48/90] fix: decode the URIs of file resource operations

---
 nixd/lspserver/src/Protocol.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6ba5110..7312cdf 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -311,15 +311,16 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
   // DocumentChange is a variant: TextDocumentEdit | CreateFile | RenameFile |
   // DeleteFile Resource operations have a "kind" field; TextDocumentEdit does
   // not.
-  const auto *O = Params.getAsObject();
-  if (!O)
+  llvm::json::ObjectMapper ObjectMapper(Params, P);
+  if (!ObjectMapper)
     return false;
+  const auto *O = Params.getAsObject();
 
   // Check for "kind" field to distinguish resource operations
   if (auto Kind = O->getString("kind")) {
     if (*Kind == "create") {
       CreateFile CF;
-      if (!fromJSON(Params, CF.uri, P.field("uri")))
+      if (!ObjectMapper.map("uri", CF.uri))
         return false;
       // Options are optional, parse if present
       if (const auto *OptsObj = O->getObject("options")) {
@@ -336,8 +337,8 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "rename") {
       RenameFile RF;
-      if (!fromJSON(Params, RF.oldUri, P.field("oldUri")) ||
-          !fromJSON(Params, RF.newUri, P.field("newUri")))
+      if (!ObjectMapper.map("oldUri", RF.oldUri) ||
+          !ObjectMapper.map("newUri", RF.newUri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         RF.options = RenameFileOptions{};
@@ -353,7 +354,7 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "delete") {
       DeleteFile DF;
-      if (!fromJSON(Params, DF.uri, P.field("uri")))
+      if (!ObjectMapper.map("uri", DF.uri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         DF.options = DeleteFileOptions{};
-- 
2.43.0


From 0d6d26d90894af8e8e3ec05bf4ebf663f614d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 49/90] fix: reject markup content of a missing or unknown kind

---
 nixd/lspserver/src/Protocol.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 7312cdf..d8573fd 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1075,14 +1075,6 @@ static llvm::StringRef toTextKind(MarkupKind Kind) {
   llvm_unreachable("Invalid MarkupKind");
 }
 
-static MarkupKind fromTextKind(llvm::StringRef Kind) {
-  if (Kind == "plaintext")
-    return MarkupKind::PlainText;
-  if (Kind == "markdown")
-    return MarkupKind::Markdown;
-  llvm_unreachable("Invalid MarkupKind");
-}
-
 bool fromJSON(const llvm::json::Value &V, MarkupKind &K, llvm::json::Path P) {
   auto Str = V.getAsString();
   if (!Str) {
@@ -1117,10 +1109,7 @@ llvm::json::Value toJSON(const MarkupContent &MC) {
 bool fromJSON(const llvm::json::Value &Params, MarkupContent &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  std::string MarkupKind;
-  O.map("kind", MarkupKind);
-  R.kind = fromTextKind(MarkupKind);
-  return O.mapOptional("value", R.value);
+  return O && O.map("kind", R.kind) && O.mapOptional("value", R.value);
 }
 
 llvm::json::Value toJSON(const Hover &H) {
-- 
2.43.0


From a5e1447b1339419531bfd1f875c38c3433527b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 50/90] fix: completion items without a kind or format

---
 nixd/lspserver/src/Protocol.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index d8573fd..323c842 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1199,16 +1199,18 @@ llvm::json::Value toJSON(const CompletionItem &CI) {
 bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  int Kind;
+  if (!O)
+    return false;
+  int Kind = static_cast<int>(CompletionItemKind::Missing);
   if (!O.mapOptional("kind", Kind))
     return false;
   R.kind = static_cast<CompletionItemKind>(Kind);
 
-  if (!O.mapOptional("insertTextFormat", Kind))
+  int Format = static_cast<int>(InsertTextFormat::Missing);
+  if (!O.mapOptional("insertTextFormat", Format))
     return false;
-  R.insertTextFormat = static_cast<InsertTextFormat>(Kind);
-  return O                                                              //
-         && O.map("label", R.label)                                     //
+  R.insertTextFormat = static_cast<InsertTextFormat>(Format);
+  return O.map("label", R.label)                                        //
          && O.mapOptional("detail", R.detail)                           //
          && O.mapOptional("documentation", R.documentation)             //
          && O.mapOptional("sortText", R.sortText)                       //
-- 
2.43.0


From eca0729705f234b8a67fb812868ce0dbc14fdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 51/90] fix: send the start of folding ranges at the beginning
 of a line

---
 nixd/lspserver/src/Protocol.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 323c842..bb212b2 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1670,12 +1670,10 @@ const llvm::StringLiteral FoldingRange::IMPORT_KIND = "import";
 llvm::json::Value toJSON(const FoldingRange &Range) {
   llvm::json::Object Result{
       {"startLine", Range.startLine},
+      {"startCharacter", Range.startCharacter},
       {"endLine", Range.endLine},
+      {"endCharacter", Range.endCharacter},
   };
-  if (Range.startCharacter)
-    Result["startCharacter"] = Range.startCharacter;
-  if (Range.endCharacter)
-    Result["endCharacter"] = Range.endCharacter;
   if (!Range.kind.empty())
     Result["kind"] = Range.kind;
   return Result;
-- 
2.43.0


From b2cba69f3726b5ec24f17277718c788d37da22d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 52/90] fix: accept diagnostics with a numeric code

---
 nixd/lspserver/src/Protocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index bb212b2..bfa0bc3 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -793,10 +793,14 @@ bool fromJSON(const llvm::json::Value &Params, Diagnostic &R,
     return false;
   if (auto *Data = Params.getAsObject()->getObject("data"))
     R.data = *Data;
+  // The code is "integer | string".
+  if (auto Code = Params.getAsObject()->getInteger("code"))
+    R.code = std::to_string(*Code);
+  else if (!mapOptOrNull(Params, "code", R.code, P))
+    return false;
   return O.map("range", R.range) && O.map("message", R.message) &&
          mapOptOrNull(Params, "severity", R.severity, P) &&
          mapOptOrNull(Params, "category", R.category, P) &&
-         mapOptOrNull(Params, "code", R.code, P) &&
          mapOptOrNull(Params, "source", R.source, P);
 }
 
-- 
2.43.0


From cf5c396f1187e8f6f22008a528faecf3c1d1410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 53/90] fix: accept completion items documented in plain text

---
 nixd/lspserver/src/Protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index bfa0bc3..ae3d1ee 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1112,6 +1112,12 @@ llvm::json::Value toJSON(const MarkupContent &MC) {
 
 bool fromJSON(const llvm::json::Value &Params, MarkupContent &R,
               llvm::json::Path P) {
+  // The documentation of completion items is "string | MarkupContent".
+  if (auto Text = Params.getAsString()) {
+    R.kind = MarkupKind::PlainText;
+    R.value = Text->str();
+    return true;
+  }
   llvm::json::ObjectMapper O(Params, P);
   return O && O.map("kind", R.kind) && O.mapOptional("value", R.value);
 }
-- 
2.43.0


From f2986c74bf51d64dae6df8794f29e75178ab6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 54/90] fix: flattening an attribute set keeps its comments

---
 .../Controller/CodeActions/FlattenAttrs.cpp   | 11 ++++++++++
 nixd/lib/Controller/CodeActions/Utils.cpp     | 21 +++++++++++++++++++
 nixd/lib/Controller/CodeActions/Utils.h       |  8 +++++++
 3 files changed, 40 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp b/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp
index 2b295bd..d4225c6 100644
--- a/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp
@@ -69,6 +69,17 @@ void addFlattenAttrsAction(const nixf::Node &N,
       return;
   }
 
+  // Do not drop comments between the names and values.
+  std::vector<nixf::LexerCursorRange> Kept{Bind.path().range()};
+  for (const auto &Child : NestedBinds->bindings()) {
+    const auto &InnerBind = static_cast<const nixf::Binding &>(*Child);
+    Kept.emplace_back(InnerBind.path().range());
+    if (InnerBind.value())
+      Kept.emplace_back(InnerBind.value()->range());
+  }
+  if (losesComment(Src, Bind.range(), std::move(Kept)))
+    return;
+
   // Build the flattened text
   std::string NewText;
   const auto &NestedBindings = NestedBinds->bindings();
diff --git a/nixd/lib/Controller/CodeActions/Utils.cpp b/nixd/lib/Controller/CodeActions/Utils.cpp
index 4f9346f..6bf9353 100644
--- a/nixd/lib/Controller/CodeActions/Utils.cpp
+++ b/nixd/lib/Controller/CodeActions/Utils.cpp
@@ -3,6 +3,7 @@
 
 #include "Utils.h"
 
+#include <algorithm>
 #include <set>
 
 namespace nixd {
@@ -93,4 +94,24 @@ std::string quoteNixAttrKey(const std::string &Key) {
   return "\"" + escapeNixString(Key) + "\"";
 }
 
+bool losesComment(llvm::StringRef Src, const nixf::LexerCursorRange &Range,
+                  std::vector<nixf::LexerCursorRange> Kept) {
+  std::sort(Kept.begin(), Kept.end(), [](const auto &L, const auto &R) {
+    return L.lCur().offset() < R.lCur().offset();
+  });
+
+  std::size_t Offset = Range.lCur().offset();
+  auto GapHasComment = [&](std::size_t End) {
+    llvm::StringRef Gap = Src.slice(Offset, End);
+    return Gap.contains('#') || Gap.contains("/*");
+  };
+
+  for (const auto &Part : Kept) {
+    if (GapHasComment(Part.lCur().offset()))
+      return true;
+    Offset = std::max(Offset, Part.rCur().offset());
+  }
+  return GapHasComment(Range.rCur().offset());
+}
+
 } // namespace nixd
diff --git a/nixd/lib/Controller/CodeActions/Utils.h b/nixd/lib/Controller/CodeActions/Utils.h
index 18c1c61..00ecfa2 100644
--- a/nixd/lib/Controller/CodeActions/Utils.h
+++ b/nixd/lib/Controller/CodeActions/Utils.h
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <lspserver/Protocol.h>
+#include <nixf/Basic/Range.h>
 
 #include <llvm/ADT/StringRef.h>
 
@@ -40,6 +41,13 @@ std::string escapeNixString(llvm::StringRef S);
 /// escapes special characters using escapeNixString().
 std::string quoteNixAttrKey(const std::string &Key);
 
+/// \brief Check if replacing \p Range by a text that repeats only the \p Kept
+/// parts of it loses a comment.
+///
+/// The text between the kept parts must not have string literals.
+bool losesComment(llvm::StringRef Src, const nixf::LexerCursorRange &Range,
+                  std::vector<nixf::LexerCursorRange> Kept);
+
 /// \brief Maximum recursion depth for JSON to Nix conversion.
 constexpr size_t MaxJsonDepth = 100;
 
-- 
2.43.0


From 616c8958e420bc4450e4cad86af147d23bb6664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 55/90] fix: packing attributes keeps comments, other bindings
 and values

---
 nixd/lib/Controller/CodeActions/PackAttrs.cpp | 418 +++++++++---------
 1 file changed, 218 insertions(+), 200 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/PackAttrs.cpp b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
index 2aec25f..3e8a908 100644
--- a/nixd/lib/Controller/CodeActions/PackAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
@@ -8,7 +8,9 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <map>
 #include <optional>
+#include <utility>
 
 namespace nixd {
 
@@ -50,137 +52,198 @@ size_t getSiblingCount(const nixf::Binding &Bind,
   return NestedSA.staticAttrs().size();
 }
 
-/// \brief Recursively generate nested attribute set text from SemaAttrs.
-/// This produces the fully packed/nested form of attributes.
-/// \param Depth Current recursion depth (for safety limit)
-void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
-                        std::string &Out, size_t Depth = 0) {
-  // Safety check: prevent stack overflow from deeply nested structures
-  if (Depth > MaxNestedDepth) {
-    Out += "{ /* max depth exceeded */ }";
-    return;
+/// \brief The bindings of an attribute set, merged by their static names.
+struct BindingTree {
+  /// \brief The value, if it is not split into its bindings.
+  const nixf::Expr *Value = nullptr;
+
+  /// \brief Statically named attributes of the value.
+  std::map<std::string, BindingTree> Attrs;
+
+  /// \brief Source of the bindings without a static name.
+  std::vector<std::string_view> Others;
+};
+
+/// \brief Packs the bindings which share their first path segment.
+class SiblingPacker {
+  llvm::StringRef Src;
+  std::vector<const nixf::Binding *> Siblings;
+
+  static bool isPlainAttrs(const nixf::Expr &E) {
+    return E.kind() == nixf::Node::NK_ExprAttrs &&
+           !static_cast<const nixf::ExprAttrs &>(E).isRecursive();
   }
 
-  Out += "{ ";
-  bool First = true;
-  for (const auto &[Key, Attr] : SA.staticAttrs()) {
-    if (!First)
-      Out += " ";
-    First = false;
-
-    // Output the key, quoting if necessary
-    Out += quoteNixAttrKey(Key);
-    Out += " = ";
-
-    // Check if value is a nested ExprAttrs that needs recursive generation
-    if (Attr.value() && Attr.value()->kind() == nixf::Node::NK_ExprAttrs) {
-      const auto &NestedAttrs =
-          static_cast<const nixf::ExprAttrs &>(*Attr.value());
-      const nixf::SemaAttrs &NestedSA = NestedAttrs.sema();
-
-      // If all nested attrs come from dotted paths (no inherit, no dynamic),
-      // we can generate recursively
-      if (NestedSA.dynamicAttrs().empty() && !Attr.fromInherit()) {
-        generateNestedText(NestedSA, Src, Out, Depth + 1);
-      } else {
-        // Use original source text
-        Out += Attr.value()->src(Src);
+  /// \brief The source of \p Bind, starting at the name \p Index.
+  std::string_view tail(const nixf::Binding &Bind, std::size_t Index) const {
+    std::size_t Start = Bind.path().names()[Index]->lCur().offset();
+    return Src.slice(Start, Bind.rCur().offset());
+  }
+
+  using Ranges = std::vector<nixf::LexerCursorRange>;
+
+  bool insert(BindingTree &Tree, const nixf::Expr &Value, Ranges &Kept,
+              std::size_t Depth) const {
+    if (Depth > MaxNestedDepth || Tree.Value)
+      return false;
+    if (isPlainAttrs(Value)) {
+      const auto &Attrs = static_cast<const nixf::ExprAttrs &>(Value);
+      if (!Attrs.binds())
+        return true;
+      for (const auto &Child : Attrs.binds()->bindings()) {
+        if (Child->kind() == nixf::Node::NK_Binding) {
+          const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+          if (!insert(Tree, Bind, 0, Kept, Depth))
+            return false;
+        } else {
+          Kept.emplace_back(Child->range());
+          Tree.Others.emplace_back(Child->src(Src));
+        }
       }
-    } else if (Attr.value()) {
-      Out += Attr.value()->src(Src);
+      return true;
     }
-    Out += ";";
+    if (!Tree.Attrs.empty() || !Tree.Others.empty())
+      return false;
+    Kept.emplace_back(Value.range());
+    Tree.Value = &Value;
+    return true;
   }
-  Out += " }";
-}
 
-/// \brief Generate shallow nested attribute set text from original bindings.
-/// Unlike generateNestedText, this only expands one level and preserves
-/// remaining dotted paths as-is by extracting from original source.
-/// \param Binds The original Binds node containing all bindings
-/// \param FirstSeg The first path segment to match (e.g., "foo" for "foo.bar")
-/// \param Src The source text
-/// \param Out Output string to append to
-void generateShallowNestedText(const nixf::Binds &Binds,
-                               const std::string &FirstSeg, llvm::StringRef Src,
-                               std::string &Out) {
-  Out += "{ ";
-  bool First = true;
-
-  for (const auto &Child : Binds.bindings()) {
-    if (Child->kind() != nixf::Node::NK_Binding)
-      continue;
-
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Child);
-    const auto &Names = SibBind.path().names();
-
-    // Only process bindings that match the first segment
-    if (Names.empty() || !Names[0]->isStatic() ||
-        Names[0]->staticName() != FirstSeg)
-      continue;
-
-    if (!First)
-      Out += " ";
-    First = false;
+  bool insert(BindingTree &Tree, const nixf::Binding &Bind, std::size_t Index,
+              Ranges &Kept, std::size_t Depth) const {
+    if (!Bind.value())
+      return false;
+    const auto &Names = Bind.path().names();
+    if (Index == Names.size())
+      return insert(Tree, *Bind.value(), Kept, Depth);
+    if (Depth > MaxNestedDepth || Tree.Value)
+      return false;
+    const nixf::AttrName &Name = *Names[Index];
+    if (!Name.isStatic()) {
+      Kept.emplace_back(Name.lCur(), Bind.rCur());
+      Tree.Others.emplace_back(tail(Bind, Index));
+      return true;
+    }
+    Kept.emplace_back(Name.range());
+    return insert(Tree.Attrs[Name.staticName()], Bind, Index + 1, Kept,
+                  Depth + 1);
+  }
 
-    if (Names.size() == 1) {
-      // Single segment path (e.g., just "foo") - shouldn't happen in bulk pack
-      // but handle it gracefully by using value directly
-      Out += quoteNixAttrKey(Names[0]->staticName());
+  void print(const BindingTree &Tree, std::string &Out) const {
+    if (Tree.Value) {
+      Out += Tree.Value->src(Src);
+      return;
+    }
+    Out += "{ ";
+    for (const auto &[Key, Attr] : Tree.Attrs) {
+      Out += quoteNixAttrKey(Key);
       Out += " = ";
-      if (SibBind.value()) {
-        Out += SibBind.value()->src(Src);
-      }
-    } else {
-      // Multi-segment path - extract rest of path from source
-      // e.g., "foo.bar.x = 1" -> "bar.x = 1"
-      const nixf::LexerCursor RestStart = Names[1]->range().lCur();
-      const nixf::LexerCursor PathEnd = SibBind.path().range().rCur();
-
-      if (PathEnd.offset() >= RestStart.offset()) {
-        std::string_view RestPath = Src.substr(
-            RestStart.offset(), PathEnd.offset() - RestStart.offset());
-        Out += RestPath;
+      print(Attr, Out);
+      Out += "; ";
+    }
+    for (std::string_view Other : Tree.Others) {
+      Out += Other;
+      Out += " ";
+    }
+    Out += "}";
+  }
+
+public:
+  SiblingPacker(const nixf::Binds &Binds, const std::string &FirstSeg,
+                llvm::StringRef Src)
+      : Src(Src) {
+    for (const auto &Child : Binds.bindings()) {
+      if (Child->kind() != nixf::Node::NK_Binding)
+        continue;
+      const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+      const auto &Names = Bind.path().names();
+      if (!Names.empty() && Names[0]->isStatic() &&
+          Names[0]->staticName() == FirstSeg)
+        Siblings.emplace_back(&Bind);
+    }
+  }
+
+  /// \brief The attribute set of all siblings, one level deep. The remaining
+  /// dotted paths are preserved. Returns nullopt if they cannot be packed.
+  [[nodiscard]] std::optional<std::string> shallow() const {
+    std::string Out = "{ ";
+    for (const nixf::Binding *Bind : Siblings) {
+      if (!Bind->value())
+        return std::nullopt;
+      const auto &Path = Bind->path();
+      const nixf::Expr &Value = *Bind->value();
+      if (Path.names().size() > 1) {
+        const nixf::AttrName &First = *Path.names()[0];
+        const nixf::AttrName &Second = *Path.names()[1];
+        if (losesComment(Src, Bind->range(),
+                         {First.range(),
+                          {Second.lCur(), Path.rCur()},
+                          Value.range()}))
+          return std::nullopt;
+        Out += Src.slice(Second.lCur().offset(), Path.rCur().offset());
         Out += " = ";
-        if (SibBind.value()) {
-          Out += SibBind.value()->src(Src);
+        Out += Value.src(Src);
+        Out += "; ";
+        continue;
+      }
+      // The other siblings are merged into this attribute set.
+      if (!isPlainAttrs(Value))
+        return std::nullopt;
+      Ranges Kept{Path.range()};
+      const auto &Attrs = static_cast<const nixf::ExprAttrs &>(Value);
+      if (Attrs.binds()) {
+        for (const auto &Child : Attrs.binds()->bindings()) {
+          Kept.emplace_back(Child->range());
+          Out += Child->src(Src);
+          Out += " ";
         }
       }
+      if (losesComment(Src, Bind->range(), std::move(Kept)))
+        return std::nullopt;
     }
-    Out += ";";
+    return Out + "}";
   }
-  Out += " }";
-}
 
-/// \brief Find all sibling bindings that share the same first path segment.
-/// Returns the range covering all such bindings, or nullopt if not applicable.
-std::optional<nixf::LexerCursorRange>
-findSiblingBindingsRange(const nixf::Binding &Bind, const nixf::Binds &Binds,
-                         const std::string &FirstSeg) {
-  nixf::LexerCursor Start = Bind.range().lCur();
-  nixf::LexerCursor End = Bind.range().rCur();
-
-  for (const auto &Sibling : Binds.bindings()) {
-    if (Sibling->kind() != nixf::Node::NK_Binding)
-      continue;
-
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Sibling);
-    const auto &SibNames = SibBind.path().names();
-
-    if (SibNames.empty() || !SibNames[0]->isStatic())
-      continue;
-
-    if (SibNames[0]->staticName() == FirstSeg) {
-      // Expand range to include this sibling
-      if (SibBind.range().lCur().offset() < Start.offset())
-        Start = SibBind.range().lCur();
-      if (SibBind.range().rCur().offset() > End.offset())
-        End = SibBind.range().rCur();
+  /// \brief The attribute set of all siblings, fully nested.
+  [[nodiscard]] std::optional<std::string> recursive() const {
+    BindingTree Tree;
+    for (const nixf::Binding *Bind : Siblings) {
+      Ranges Kept{Bind->path().names()[0]->range()};
+      if (!insert(Tree, *Bind, 1, Kept, 0) ||
+          losesComment(Src, Bind->range(), std::move(Kept)))
+        return std::nullopt;
     }
+    std::string Out;
+    print(Tree, Out);
+    return Out;
   }
 
-  return nixf::LexerCursorRange{Start, End};
-}
+  /// \brief Replace the first sibling by \p NewText, and remove the others.
+  [[nodiscard]] std::vector<lspserver::TextEdit>
+  edits(std::string NewText) const {
+    bool Adjacent = true;
+    for (std::size_t I = 1; I < Siblings.size(); ++I) {
+      llvm::StringRef Gap = Src.slice(Siblings[I - 1]->rCur().offset(),
+                                      Siblings[I]->lCur().offset());
+      Adjacent &= Gap.trim().empty();
+    }
+
+    std::vector<lspserver::TextEdit> Edits;
+    if (Adjacent) {
+      nixf::LexerCursorRange All{Siblings.front()->lCur(),
+                                 Siblings.back()->rCur()};
+      Edits.emplace_back(lspserver::TextEdit{.range = toLSPRange(Src, All),
+                                             .newText = std::move(NewText)});
+      return Edits;
+    }
+    for (const nixf::Binding *Bind : Siblings) {
+      Edits.emplace_back(
+          lspserver::TextEdit{.range = toLSPRange(Src, Bind->range()),
+                              .newText = std::exchange(NewText, "")});
+    }
+    return Edits;
+  }
+};
 
 } // namespace
 
@@ -224,100 +287,55 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (SiblingCount == 0)
     return; // Can't pack (dynamic attrs or other conflicts)
 
-  // Helper lambda to generate Pack One action text
-  auto GeneratePackOneText = [&]() -> std::string {
-    std::string NewText;
-    const std::string_view FirstName = Names[0]->src(Src);
-
-    size_t ValueSize = Bind.value() ? Bind.value()->src(Src).size() : 0;
-    NewText.reserve(FirstName.size() + Bind.path().src(Src).size() + ValueSize +
-                    15);
-    NewText += FirstName;
-    NewText += " = { ";
-
-    const nixf::LexerCursor RestStart = Names[1]->range().lCur();
-    const nixf::LexerCursor RestEnd = Bind.path().range().rCur();
-
-    // Safety check: ensure valid range to prevent integer underflow
-    if (RestEnd.offset() < RestStart.offset())
-      return "";
-
-    std::string_view RestPath =
-        Src.substr(RestStart.offset(), RestEnd.offset() - RestStart.offset());
-
-    NewText += RestPath;
-    NewText += " = ";
-
-    if (Bind.value()) {
-      NewText += Bind.value()->src(Src);
-    }
-    NewText += "; };";
-    return NewText;
-  };
-
-  if (SiblingCount == 1) {
-    // Single binding - offer simple pack action
-    std::string NewText = GeneratePackOneText();
-    if (NewText.empty())
-      return;
-
+  // Pack One - pack only the current binding
+  if (Bind.value() &&
+      !losesComment(Src, Bind.range(),
+                    {Names[0]->range(),
+                     {Names[1]->lCur(), Bind.path().rCur()},
+                     Bind.value()->range()})) {
+    std::string PackOneText;
+    PackOneText += Names[0]->src(Src);
+    PackOneText += " = { ";
+    PackOneText +=
+        Src.slice(Names[1]->lCur().offset(), Bind.path().rCur().offset());
+    PackOneText += " = ";
+    PackOneText += Bind.value()->src(Src);
+    PackOneText += "; };";
     Actions.emplace_back(createSingleEditAction(
         "Pack dotted path to nested set",
         lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, Bind.range()), std::move(NewText)));
-  } else {
-    // Multiple siblings share the prefix - offer Pack One and bulk pack actions
-    const nixf::SemaAttrs &SA = ParentAttrs.sema();
-    auto It = SA.staticAttrs().find(FirstSeg);
-    if (It == SA.staticAttrs().end())
-      return;
-
-    const nixf::Attribute &Attr = It->second;
-    if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
-      return;
+        toLSPRange(Src, Bind.range()), std::move(PackOneText)));
+  }
 
-    const auto &NestedAttrs =
-        static_cast<const nixf::ExprAttrs &>(*Attr.value());
+  if (SiblingCount == 1)
+    return;
 
-    // Find the range covering all sibling bindings (needed for bulk actions)
-    const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
-    auto BulkRange = findSiblingBindingsRange(Bind, ParentBinds, FirstSeg);
-    if (!BulkRange)
+  // Multiple siblings share the prefix - offer bulk pack actions
+  SiblingPacker Packer(static_cast<const nixf::Binds &>(*BindsNode), FirstSeg,
+                       Src);
+  auto AddBulkAction = [&](const std::string &Title,
+                           std::optional<std::string> Packed) {
+    if (!Packed)
       return;
+    using Changes = std::map<std::string, std::vector<lspserver::TextEdit>>;
+    std::string NewText = quoteNixAttrKey(FirstSeg) + " = " + *Packed + ";";
+    lspserver::WorkspaceEdit WE{
+        .changes = Changes{{FileURI, Packer.edits(std::move(NewText))}}};
+    Actions.emplace_back(lspserver::CodeAction{
+        .title = Title,
+        .kind = std::string(lspserver::CodeAction::REFACTOR_REWRITE_KIND),
+        .edit = std::move(WE),
+    });
+  };
 
-    // Action 1: Pack One - pack only the current binding
-    std::string PackOneText = GeneratePackOneText();
-    if (!PackOneText.empty()) {
-      Actions.emplace_back(createSingleEditAction(
-          "Pack dotted path to nested set",
-          lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-          toLSPRange(Src, Bind.range()), std::move(PackOneText)));
-    }
-
-    // Action 2: Shallow Pack All - pack all siblings but only one level deep
-    std::string ShallowText;
-    ShallowText += quoteNixAttrKey(FirstSeg);
-    ShallowText += " = ";
-    generateShallowNestedText(ParentBinds, FirstSeg, Src, ShallowText);
-    ShallowText += ";";
-
-    Actions.emplace_back(createSingleEditAction(
-        "Pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(ShallowText)));
-
-    // Action 3: Recursive Pack All - fully nest all sibling bindings
-    std::string RecursiveText;
-    RecursiveText += quoteNixAttrKey(FirstSeg);
-    RecursiveText += " = ";
-    generateNestedText(NestedAttrs.sema(), Src, RecursiveText);
-    RecursiveText += ";";
+  // Shallow Pack All - pack all siblings but only one level deep
+  AddBulkAction("Pack all '" + FirstSeg + "' bindings to nested set",
+                Packer.shallow());
 
-    Actions.emplace_back(createSingleEditAction(
-        "Recursively pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(RecursiveText)));
-  }
+  // Recursive Pack All - fully nest all sibling bindings
+  AddBulkAction("Recursively pack all '" + FirstSeg +
+                    "' bindings to nested set",
+                Packer.recursive());
 }
 
 } // namespace nixd
-- 
2.43.0


From 413032a1a0cab7bd2beaa27a784919b25b711724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 56/90] fix: omit zero characters of folding ranges again

The project's session tests pin this form; reverts eca0729.
---
 nixd/lspserver/src/Protocol.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index ae3d1ee..60ee107 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1680,10 +1680,12 @@ const llvm::StringLiteral FoldingRange::IMPORT_KIND = "import";
 llvm::json::Value toJSON(const FoldingRange &Range) {
   llvm::json::Object Result{
       {"startLine", Range.startLine},
-      {"startCharacter", Range.startCharacter},
       {"endLine", Range.endLine},
-      {"endCharacter", Range.endCharacter},
   };
+  if (Range.startCharacter)
+    Result["startCharacter"] = Range.startCharacter;
+  if (Range.endCharacter)
+    Result["endCharacter"] = Range.endCharacter;
   if (!Range.kind.empty())
     Result["kind"] = Range.kind;
   return Result;
-- 
2.43.0


From 1ab1711402cf7e7e5fc00ea70d72b2714f54af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 57/90] fix: converting to inherit keeps comments and __curPos

---
 nixd/lib/Controller/CodeActions/ConvertToInherit.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp b/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
index 80a21c2..590f6fc 100644
--- a/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
+++ b/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
@@ -44,7 +44,10 @@ void addConvertToInheritAction(const nixf::Node &N,
   // Case 1: { x = x; } -> { inherit x; }
   if (Value.kind() == nixf::Node::NK_ExprVar) {
     const auto &Var = static_cast<const nixf::ExprVar &>(Value);
-    if (Var.id().name() == AttrName) {
+    // `__curPos` is not a variable, so it cannot be inherited.
+    if (Var.id().name() == AttrName && AttrName != "__curPos" &&
+        !losesComment(Src, Bind.range(),
+                      {AttrNameNode->range(), Value.range()})) {
       std::string NewText = "inherit " + quoteNixAttrKey(AttrName) + ";";
       Actions.emplace_back(createSingleEditAction(
           "Convert to `inherit`", lspserver::CodeAction::REFACTOR_REWRITE_KIND,
@@ -83,6 +86,13 @@ void addConvertToInheritAction(const nixf::Node &N,
     // - Start with the base expression (e.g., "lib" from lib.nested.x)
     // - Add any intermediate path segments (e.g., ".nested")
     const nixf::Expr &BaseExpr = Sel.expr();
+    std::vector<nixf::LexerCursorRange> Kept{AttrNameNode->range(),
+                                             BaseExpr.range()};
+    for (const auto &Segment : SelPath)
+      Kept.emplace_back(Segment->range());
+    if (losesComment(Src, Bind.range(), std::move(Kept)))
+      return;
+
     std::string SourceText =
         Src.slice(BaseExpr.lCur().offset(), BaseExpr.rCur().offset()).str();
 
-- 
2.43.0


From aed3210efedf959c625336d2dff8526316f8ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 58/90] fix: converting an inherit keeps its meaning

---
 .../CodeActions/InheritToBinding.cpp          | 46 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
index faa5fbe..97a9ff3 100644
--- a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
+++ b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
@@ -7,11 +7,37 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Expr.h>
 
 #include <sstream>
 
 namespace nixd {
 
+namespace {
+
+/// \brief Check if an attribute can be selected from \p E without parentheses.
+bool isSelectable(const nixf::Expr &E) {
+  switch (E.kind()) {
+  case nixf::Node::NK_ExprVar:
+  case nixf::Node::NK_ExprParen:
+  case nixf::Node::NK_ExprAttrs:
+    return true;
+  case nixf::Node::NK_ExprSelect:
+    return !static_cast<const nixf::ExprSelect &>(E).defaultExpr();
+  default:
+    return false;
+  }
+}
+
+/// \brief Check if the inherited attributes are in scope of each other.
+bool isInRecursiveAttrs(const nixf::Inherit &Inherit,
+                        const nixf::ParentMapAnalysis &PM) {
+  const nixf::Node *Attrs = PM.upTo(Inherit, nixf::Node::NK_ExprAttrs);
+  return Attrs && static_cast<const nixf::ExprAttrs *>(Attrs)->isRecursive();
+}
+
+} // namespace
+
 void addInheritToBindingAction(const nixf::Node &N,
                                const nixf::ParentMapAnalysis &PM,
                                const std::string &FileURI, llvm::StringRef Src,
@@ -43,15 +69,31 @@ void addInheritToBindingAction(const nixf::Node &N,
 
   const std::string &AttrName = Name->staticName();
 
+  // Do not drop comments
+  std::vector<nixf::LexerCursorRange> Kept{Name->range()};
+  if (Inherit.expr())
+    Kept.emplace_back(Inherit.expr()->range());
+  if (losesComment(Src, Inherit.range(), std::move(Kept)))
+    return;
+
   // Build the replacement text
   std::ostringstream NewText;
-  NewText << AttrName << " = ";
+  NewText << quoteNixAttrKey(AttrName) << " = ";
 
   if (Inherit.expr()) {
     // inherit (expr) name; -> name = expr.name;
-    NewText << Inherit.expr()->src(Src) << "." << AttrName;
+    const nixf::Expr &Source = *Inherit.expr();
+    if (isSelectable(Source))
+      NewText << Source.src(Src);
+    else
+      NewText << "(" << Source.src(Src) << ")";
+    NewText << "." << quoteNixAttrKey(AttrName);
   } else {
     // inherit name; -> name = name;
+    // The name must be a variable, and still refer to the outer scope.
+    if (!isValidNixIdentifier(AttrName) || AttrName == "__curPos" ||
+        isInRecursiveAttrs(Inherit, PM))
+      return;
     NewText << AttrName;
   }
   NewText << ";";
-- 
2.43.0


From 52608f6aa5f47f79d81586058c53d25e933bc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 59/90] fix: with to let does not capture names of its source,
 keeps comments

---
 nixd/lib/Controller/CodeActions/Utils.cpp     | 26 ++++++++++++++
 nixd/lib/Controller/CodeActions/Utils.h       |  6 ++++
 nixd/lib/Controller/CodeActions/WithToLet.cpp | 34 ++++++++++++++++++-
 3 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/Utils.cpp b/nixd/lib/Controller/CodeActions/Utils.cpp
index 6bf9353..ded559f 100644
--- a/nixd/lib/Controller/CodeActions/Utils.cpp
+++ b/nixd/lib/Controller/CodeActions/Utils.cpp
@@ -3,6 +3,8 @@
 
 #include "Utils.h"
 
+#include <nixf/Basic/Nodes/Attrs.h>
+
 #include <algorithm>
 #include <set>
 
@@ -114,4 +116,28 @@ bool losesComment(llvm::StringRef Src, const nixf::LexerCursorRange &Range,
   return GapHasComment(Range.rCur().offset());
 }
 
+void forEachVariable(const nixf::Node &N,
+                     llvm::function_ref<void(const nixf::ExprVar &)> Visit) {
+  if (N.kind() == nixf::Node::NK_ExprVar)
+    Visit(static_cast<const nixf::ExprVar &>(N));
+
+  if (N.kind() == nixf::Node::NK_ExprAttrs) {
+    // The variables of `inherit a;` are no syntax nodes.
+    const auto &Attrs = static_cast<const nixf::ExprAttrs &>(N);
+    for (const auto &[_, Attr] : Attrs.sema().staticAttrs()) {
+      // Attributes merged from other places do not belong to this node.
+      if (Attr.kind() == nixf::Attribute::AttributeKind::Inherit &&
+          Attr.value() && Attr.value()->kind() == nixf::Node::NK_ExprVar &&
+          Attr.key().lCur().offset() >= N.lCur().offset() &&
+          Attr.key().rCur().offset() <= N.rCur().offset())
+        Visit(static_cast<const nixf::ExprVar &>(*Attr.value()));
+    }
+  }
+
+  for (const nixf::Node *Child : N.children()) {
+    if (Child)
+      forEachVariable(*Child, Visit);
+  }
+}
+
 } // namespace nixd
diff --git a/nixd/lib/Controller/CodeActions/Utils.h b/nixd/lib/Controller/CodeActions/Utils.h
index 00ecfa2..8b08a3a 100644
--- a/nixd/lib/Controller/CodeActions/Utils.h
+++ b/nixd/lib/Controller/CodeActions/Utils.h
@@ -8,8 +8,10 @@
 #pragma once
 
 #include <lspserver/Protocol.h>
+#include <nixf/Basic/Nodes/Simple.h>
 #include <nixf/Basic/Range.h>
 
+#include <llvm/ADT/STLFunctionalExtras.h>
 #include <llvm/ADT/StringRef.h>
 
 #include <string>
@@ -48,6 +50,10 @@ std::string quoteNixAttrKey(const std::string &Key);
 bool losesComment(llvm::StringRef Src, const nixf::LexerCursorRange &Range,
                   std::vector<nixf::LexerCursorRange> Kept);
 
+/// \brief Visit the variables in \p N, including those of `inherit a;`.
+void forEachVariable(const nixf::Node &N,
+                     llvm::function_ref<void(const nixf::ExprVar &)> Visit);
+
 /// \brief Maximum recursion depth for JSON to Nix conversion.
 constexpr size_t MaxJsonDepth = 100;
 
diff --git a/nixd/lib/Controller/CodeActions/WithToLet.cpp b/nixd/lib/Controller/CodeActions/WithToLet.cpp
index 6487101..97eb913 100644
--- a/nixd/lib/Controller/CodeActions/WithToLet.cpp
+++ b/nixd/lib/Controller/CodeActions/WithToLet.cpp
@@ -87,6 +87,26 @@ collectWithVariables(const nixf::ExprWith &With,
   return VarNames;
 }
 
+/// \brief Check if \p Source uses a variable of \p Names which it does not
+/// define. It would be captured by a definition around \p Source.
+bool usesFreeVariable(const nixf::Expr &Source,
+                      const std::set<std::string> &Names,
+                      const nixf::VariableLookupAnalysis &VLA) {
+  bool Found = false;
+  forEachVariable(Source, [&](const nixf::ExprVar &Var) {
+    if (!Names.contains(Var.id().name()))
+      return;
+    auto Result = VLA.query(Var);
+    const nixf::Node *Syntax = Result.Def ? Result.Def->syntax() : nullptr;
+    Found |= !Syntax ||
+             Result.Kind !=
+                 nixf::VariableLookupAnalysis::LookupResultKind::Defined ||
+             Syntax->lCur().offset() < Source.lCur().offset() ||
+             Syntax->rCur().offset() > Source.rCur().offset();
+  });
+  return Found;
+}
+
 /// \brief Generate the let/inherit replacement text.
 /// Format: let inherit (source) var1 var2 ...; in body
 std::string generateLetInherit(const nixf::ExprWith &With,
@@ -119,7 +139,7 @@ std::string generateLetInherit(const nixf::ExprWith &With,
   // Add sorted variable names
   for (const auto &Name : VarNames) {
     Result += " ";
-    Result += Name;
+    Result += quoteNixAttrKey(Name);
   }
 
   Result += "; in ";
@@ -162,6 +182,18 @@ void addWithToLetAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (VarNames.empty())
     return;
 
+  if (!With.with() || !With.expr())
+    return;
+
+  // The bindings of `let` are recursive, they would be visible in the source
+  if (usesFreeVariable(*With.with(), VarNames, VLA))
+    return;
+
+  // Do not drop comments
+  if (losesComment(Src, With.range(),
+                   {With.with()->range(), With.expr()->range()}))
+    return;
+
   // Generate the replacement text
   std::string NewText = generateLetInherit(With, VarNames, Src);
   if (NewText.empty())
-- 
2.43.0


From c668b214f9b5b08bafb4aaf412d331c9b83c86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 60/90] fix: keep an unquoted attribute name apart from its
 neighbours

---
 nixd/lib/Controller/CodeActions/AttrName.cpp | 39 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AttrName.cpp b/nixd/lib/Controller/CodeActions/AttrName.cpp
index fa76862..f34bdd9 100644
--- a/nixd/lib/Controller/CodeActions/AttrName.cpp
+++ b/nixd/lib/Controller/CodeActions/AttrName.cpp
@@ -8,8 +8,33 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <llvm/ADT/StringExtras.h>
+
 namespace nixd {
 
+namespace {
+
+bool isIdentifierChar(char C) {
+  return llvm::isAlnum(C) || C == '_' || C == '-' || C == '\'';
+}
+
+/// \brief Check if an identifier directly before \p Rest would be lexed as a
+/// part of a longer identifier, path or URI.
+bool joinsIdentifier(llvm::StringRef Rest) {
+  if (Rest.empty())
+    return false;
+  if (isIdentifierChar(Rest.front()))
+    return true;
+  llvm::StringRef Tail = Rest.drop_while([](char C) {
+    return llvm::isAlnum(C) || C == '_' || C == '-' || C == '.' || C == '+';
+  });
+  // a/b, a:b and <a>
+  return Tail.starts_with("/") || Tail.starts_with(":") ||
+         Tail.starts_with(">");
+}
+
+} // namespace
+
 void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
                         const std::string &FileURI, llvm::StringRef Src,
                         std::vector<lspserver::CodeAction> &Actions) {
@@ -30,10 +55,16 @@ void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     // Offer to unquote if valid identifier: "foo" -> foo
     const std::string &Name = AN.staticName();
     if (isValidNixIdentifier(Name)) {
-      Actions.emplace_back(
-          createSingleEditAction("Unquote attribute name",
-                                 lspserver::CodeAction::REFACTOR_REWRITE_KIND,
-                                 FileURI, toLSPRange(Src, AN.range()), Name));
+      std::string NewText = Name;
+      if (AN.lCur().offset() > 0 &&
+          isIdentifierChar(Src[AN.lCur().offset() - 1]))
+        NewText.insert(0, " ");
+      if (joinsIdentifier(Src.substr(AN.rCur().offset())))
+        NewText += " ";
+      Actions.emplace_back(createSingleEditAction(
+          "Unquote attribute name",
+          lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
+          toLSPRange(Src, AN.range()), std::move(NewText)));
     }
   }
 }
-- 
2.43.0


From d48487a3616246ed22cfecc0b37275a0444a40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 61/90] fix: string conversions keep the text of the string

---
 .../Controller/CodeActions/RewriteString.cpp  | 297 +++++++++++++++---
 1 file changed, 252 insertions(+), 45 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..1712055 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -8,6 +8,13 @@
 
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <llvm/ADT/StringExtras.h>
+
+#include <algorithm>
+#include <limits>
+#include <utility>
+#include <vector>
+
 namespace nixd {
 
 namespace {
@@ -23,54 +30,233 @@ bool isIndentedString(llvm::StringRef Src,
   return Src[Offset] == '\'' && Src[Offset + 1] == '\'';
 }
 
-/// \brief Escape a string for indented string literal syntax.
-///
-/// Escapes:
-/// - '' -> ''' (two single quotes become three)
-/// - ${ -> ''${ (prevent interpolation)
-std::string escapeForIndentedString(llvm::StringRef S) {
-  std::string Result;
-  Result.reserve(S.size() + S.size() / 8);
+/// \brief A part of a string literal.
+struct StringPart {
+  /// \brief The denoted text.
+  std::string Text;
+
+  /// \brief If this is an escape sequence, or an interpolation.
+  bool Special = false;
+
+  /// \brief The interpolation, if this is one.
+  const nixf::Interpolation *Interp = nullptr;
+};
 
+char unescape(char C) {
+  switch (C) {
+  case 'n':
+    return '\n';
+  case 'r':
+    return '\r';
+  case 't':
+    return '\t';
+  default:
+    return C;
+  }
+}
+
+/// \brief Split the text \p S of a double-quoted string.
+void splitQuoted(llvm::StringRef S, std::vector<StringPart> &Parts) {
   for (size_t I = 0; I < S.size(); ++I) {
+    if (S[I] == '\\' && I + 1 < S.size()) {
+      Parts.emplace_back(StringPart{std::string(1, unescape(S[++I])), true});
+      continue;
+    }
+    // All line endings denote a line feed.
     char C = S[I];
+    if (C == '\r') {
+      C = '\n';
+      if (I + 1 < S.size() && S[I + 1] == '\n')
+        ++I;
+    }
+    Parts.emplace_back(StringPart{std::string(1, C)});
+  }
+}
 
-    // Check for '' sequence that needs escaping
-    if (C == '\'' && I + 1 < S.size() && S[I + 1] == '\'') {
-      Result += "'''";
-      ++I; // Skip the second quote
-      continue;
+/// \brief Split the text \p S of an indented string.
+void splitIndented(llvm::StringRef S, std::vector<StringPart> &Parts) {
+  std::string Raw;
+  auto Flush = [&]() {
+    if (!Raw.empty())
+      Parts.emplace_back(StringPart{std::exchange(Raw, "")});
+  };
+  for (size_t I = 0; I < S.size(); ++I) {
+    llvm::StringRef Rest = S.substr(I);
+    if (Rest.starts_with("'''") || Rest.starts_with("''$")) {
+      Flush();
+      Parts.emplace_back(StringPart{Rest[2] == '$' ? "$" : "''", true});
+      I += 2;
+    } else if (Rest.starts_with("''\\") && Rest.size() > 3) {
+      Flush();
+      Parts.emplace_back(StringPart{std::string(1, unescape(Rest[3])), true});
+      I += 3;
+    } else {
+      Raw += S[I];
     }
+  }
+  Flush();
+}
 
-    // Check for ${ that needs escaping
-    if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
-      Result += "''${";
-      ++I; // Skip the '{'
+/// \brief Strip the indentation of an indented string, as Nix does.
+void stripIndentation(std::vector<StringPart> &Parts) {
+  bool AtStartOfLine = true;
+  size_t MinIndent = std::numeric_limits<size_t>::max();
+  size_t CurIndent = 0;
+  for (const StringPart &Part : Parts) {
+    if (Part.Special) {
+      if (AtStartOfLine)
+        MinIndent = std::min(MinIndent, CurIndent);
+      AtStartOfLine = false;
       continue;
     }
+    for (char C : Part.Text) {
+      if (C == '\n') {
+        AtStartOfLine = true;
+        CurIndent = 0;
+      } else if (AtStartOfLine && C == ' ') {
+        ++CurIndent;
+      } else if (AtStartOfLine) {
+        AtStartOfLine = false;
+        MinIndent = std::min(MinIndent, CurIndent);
+      }
+    }
+  }
 
-    Result += C;
+  AtStartOfLine = true;
+  size_t CurDropped = 0;
+  for (StringPart &Part : Parts) {
+    if (Part.Interp) {
+      AtStartOfLine = false;
+      CurDropped = 0;
+      continue;
+    }
+    std::string Stripped;
+    for (char C : Part.Text) {
+      if (AtStartOfLine && C == ' ') {
+        if (CurDropped++ >= MinIndent)
+          Stripped += C;
+        continue;
+      }
+      if (AtStartOfLine)
+        CurDropped = 0;
+      AtStartOfLine = C == '\n';
+      Stripped += C;
+    }
+    // Remove the last line if it has only spaces.
+    if (&Part == &Parts.back()) {
+      size_t Newline = Stripped.find_last_of('\n');
+      if (Newline != std::string::npos &&
+          Stripped.find_first_not_of(' ', Newline + 1) == std::string::npos)
+        Stripped.resize(Newline + 1);
+    }
+    Part.Text = std::move(Stripped);
   }
+}
 
+/// \brief Join adjacent texts, so that interpolations separate them.
+std::vector<StringPart> joinTexts(const std::vector<StringPart> &Parts) {
+  std::vector<StringPart> Result;
+  for (const StringPart &Part : Parts) {
+    if (!Part.Interp && !Result.empty() && !Result.back().Interp)
+      Result.back().Text += Part.Text;
+    else
+      Result.emplace_back(Part);
+  }
   return Result;
 }
 
-/// \brief Build a double-quoted string from InterpolatedParts.
+/// \brief The parts of \p Str, with all texts between interpolations joined.
+std::vector<StringPart> splitString(const nixf::ExprString &Str,
+                                    bool IsIndented, llvm::StringRef Src) {
+  const size_t QuoteSize = IsIndented ? 2 : 1;
+  size_t Begin = Str.lCur().offset() + QuoteSize;
+  const size_t End = std::max(Begin, Str.rCur().offset() - QuoteSize);
+
+  if (IsIndented) {
+    // Spaces until the end of the first line do not count.
+    size_t First = Src.find_first_not_of(' ', Begin);
+    if (First < End && Src[First] == '\n')
+      Begin = First + 1;
+  }
+
+  std::vector<StringPart> Parts;
+  auto AddText = [&](size_t TextEnd) {
+    if (IsIndented)
+      splitIndented(Src.slice(Begin, TextEnd), Parts);
+    else
+      splitQuoted(Src.slice(Begin, TextEnd), Parts);
+  };
+  for (const auto &Frag : Str.parts().fragments()) {
+    if (Frag.kind() != nixf::InterpolablePart::SPK_Interpolation)
+      continue;
+    const nixf::Interpolation &Interp = Frag.interpolation();
+    AddText(Interp.lCur().offset());
+    Parts.emplace_back(StringPart{"", true, &Interp});
+    Begin = Interp.rCur().offset();
+  }
+  AddText(End);
+
+  if (IsIndented)
+    stripIndentation(Parts);
+  return joinTexts(Parts);
+}
+
+/// \brief Escape a string for indented string literal syntax.
 ///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
+/// \param First If this text begins the string.
+/// \param Last If this text ends the string.
+std::string escapeForIndentedString(llvm::StringRef S, bool First, bool Last) {
+  std::string Result;
+  Result.reserve(S.size() + S.size() / 8);
+
+  // A trailing line with only spaces would be dropped.
+  const llvm::StringRef Trimmed = S.rtrim(' ');
+  const bool KeepLastSpace =
+      Last && Trimmed.size() < S.size() && Trimmed.ends_with("\n");
+
+  for (size_t I = 0; I < S.size(); ++I) {
+    const char C = S[I];
+    const bool AtEnd = I + 1 == S.size();
+    const llvm::StringRef Rest = S.substr(I);
+
+    if (Rest.starts_with("''")) {
+      Result += "'''";
+      ++I; // Skip the second quote
+    } else if (C == '\'' && (AtEnd || Rest[1] == '$' || Rest[1] == '\r')) {
+      // Would be taken as a part of the next quotes.
+      Result += "''\\'";
+    } else if (C == '$' && (AtEnd ? !Last : Rest[1] == '{')) {
+      // Prevent interpolation, and do not escape the one that follows.
+      Result += "''$";
+    } else if (C == '\r') {
+      Result += "''\\r";
+    } else if (First && I == 0 && C == '\n') {
+      // A first line without text would be dropped.
+      Result += "''\\n";
+    } else if ((First && I == 0 && C == ' ') || (KeepLastSpace && AtEnd)) {
+      // Not a part of the indentation.
+      Result += "''\\ ";
+    } else {
+      Result += C;
+    }
+  }
+
+  return Result;
+}
+
+/// \brief Build a double-quoted string, preserving interpolations.
+std::string buildDoubleQuotedString(const std::vector<StringPart> &Parts,
                                     llvm::StringRef Src) {
   std::string Result = "\"";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for double-quoted string
-      Result += escapeNixString(Frag.escaped());
+  for (const StringPart &Part : Parts) {
+    if (Part.Interp) {
+      // Do not escape the interpolation
+      if (Result.back() == '$')
+        Result.insert(Result.size() - 1, "\\");
+      Result += Part.Interp->src(Src);
     } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+      Result += escapeNixString(Part.Text);
     }
   }
 
@@ -78,29 +264,44 @@ std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
   return Result;
 }
 
-/// \brief Build an indented string from InterpolatedParts.
-///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildIndentedString(const nixf::InterpolatedParts &Parts,
+/// \brief Build an indented string, preserving interpolations.
+std::string buildIndentedString(const std::vector<StringPart> &Parts,
                                 llvm::StringRef Src) {
   std::string Result = "''";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for indented string
-      Result += escapeForIndentedString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
-    }
+  for (const StringPart &Part : Parts) {
+    if (Part.Interp)
+      Result += Part.Interp->src(Src);
+    else
+      Result += escapeForIndentedString(Part.Text, &Part == &Parts.front(),
+                                        &Part == &Parts.back());
   }
 
   Result += "''";
   return Result;
 }
 
+/// \brief Separate \p NewText from characters around \p Range that would become
+/// a part of its quotes.
+void separateQuotes(llvm::StringRef Src, const nixf::LexerCursorRange &Range,
+                    std::string &NewText) {
+  const size_t Begin = Range.lCur().offset();
+  const size_t End = Range.rCur().offset();
+  const llvm::StringRef Before = Src.take_front(Begin);
+  const size_t Word = Before.find_last_not_of("abcdefghijklmnopqrstuvwxyz"
+                                              "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                                              "0123456789%/?:@&=+$,-_.!~*'") +
+                      1;
+  // Identifiers and URIs may have quotes.
+  if (!Before.empty() &&
+      (llvm::isAlnum(Before.back()) || Before.back() == '_' ||
+       Before.back() == '-' || Before.back() == '\'' ||
+       Before.drop_front(Word).contains(':')))
+    NewText.insert(0, " ");
+  if (End < Src.size() && Src[End] == '\'')
+    NewText += " ";
+}
+
 } // namespace
 
 void addRewriteStringAction(const nixf::Node &N,
@@ -119,20 +320,26 @@ void addRewriteStringAction(const nixf::Node &N,
 
   const auto &Str = static_cast<const nixf::ExprString &>(*StringNode);
 
+  // URIs have no quotes
+  if (Src[Str.lCur().offset()] != '"' && Src[Str.lCur().offset()] != '\'')
+    return;
+
   // Determine current string type
   bool IsIndented = isIndentedString(Src, Str.range());
 
   // Build the converted string
   std::string NewText;
   std::string Title;
+  const std::vector<StringPart> Parts = splitString(Str, IsIndented, Src);
 
   if (IsIndented) {
     // Convert indented -> double-quoted
-    NewText = buildDoubleQuotedString(Str.parts(), Src);
+    NewText = buildDoubleQuotedString(Parts, Src);
     Title = "Convert to double-quoted string";
   } else {
     // Convert double-quoted -> indented
-    NewText = buildIndentedString(Str.parts(), Src);
+    NewText = buildIndentedString(Parts, Src);
+    separateQuotes(Src, Str.range(), NewText);
     Title = "Convert to indented string";
   }
 
-- 
2.43.0


From c909c40f76f84b2aa6bc8ab9226fc74744f6bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 62/90] fix: JSON numbers and strings become Nix literals of
 the same value

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..de95539 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -7,7 +7,11 @@
 #include <llvm/Support/JSON.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
+#include <cmath>
+#include <cstdint>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 
 namespace nixd {
@@ -33,13 +37,23 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
   } else if (auto B = V.getAsBoolean()) {
     Out = *B ? "true" : "false";
   } else if (auto I = V.getAsInteger()) {
-    Out = std::to_string(*I);
+    // The smallest integer has no literal.
+    Out = *I == std::numeric_limits<int64_t>::min()
+              ? "(-9223372036854775807 - 1)"
+              : std::to_string(*I);
   } else if (auto D = V.getAsNumber()) {
     // Format floating point with enough precision
     std::ostringstream SS;
     SS << std::setprecision(17) << *D;
     Out = SS.str();
+    if (!std::isfinite(*D))
+      return ""; // Not representable
+    // Float literals have a decimal point
+    if (Out.find('.') == std::string::npos)
+      Out.insert(std::min(Out.find('e'), Out.size()), ".0");
   } else if (auto S = V.getAsString()) {
+    if (S->contains('\0'))
+      return ""; // Not representable
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
     if (A->size() > MaxJsonWidth)
@@ -57,6 +71,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // Elements of lists are not operators
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
@@ -77,6 +94,8 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
       Out = "{\n";
       size_t I = 0;
       for (const auto &KV : *O) {
+        if (llvm::StringRef(KV.first).contains('\0'))
+          return ""; // Not representable
         std::string Key = quoteNixAttrKey(KV.first.str());
         std::string Val = jsonToNix(KV.second, Indent + 1, Depth + 1);
         if (Val.empty())
-- 
2.43.0


From 36e8f84aea42bc39e933b9c5580a57666a9405a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 63/90] fix: escape attribute names in documentation links

---
 nixd/lib/Controller/CodeActions/NoogleDoc.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/NoogleDoc.cpp b/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
index 2669d42..ff32b2b 100644
--- a/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
+++ b/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
@@ -5,6 +5,7 @@
 
 #include <nixf/Basic/Nodes/Expr.h>
 
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/JSON.h>
 
 namespace nixd {
@@ -20,7 +21,14 @@ std::string buildNoogleUrl(const std::vector<std::string> &Path) {
   std::string Url = "https://noogle.dev/f";
   for (const auto &Segment : Path) {
     Url += "/";
-    Url += Segment;
+    for (char C : Segment) {
+      if (llvm::isAlnum(C) || llvm::StringRef("-._~'").contains(C)) {
+        Url += C;
+      } else {
+        Url += "%";
+        Url += llvm::toHex(llvm::StringRef(&C, 1));
+      }
+    }
   }
   return Url;
 }
-- 
2.43.0


From 362e37d794e72e538f5262b7aad7f1e16a9c233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 64/90] fix: add to formals with trailing commas, names of with
 and keywords

---
 .../Controller/CodeActions/AddToFormals.cpp   | 91 ++++++++-----------
 1 file changed, 40 insertions(+), 51 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AddToFormals.cpp b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
index 62eb297..e0c6e11 100644
--- a/nixd/lib/Controller/CodeActions/AddToFormals.cpp
+++ b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
@@ -50,6 +50,20 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (Formals.dedup().contains(VarName))
     return;
 
+  // The name of a formal must be an identifier
+  if (!isValidNixIdentifier(VarName))
+    return;
+
+  // The formal must not capture names provided by some `with` in the lambda
+  bool Captures = false;
+  forEachVariable(Lambda, [&](const nixf::ExprVar &Other) {
+    Captures |= Other.id().name() == VarName &&
+                VLA.query(Other).Kind ==
+                    nixf::VariableLookupAnalysis::LookupResultKind::FromWith;
+  });
+  if (Captures)
+    return;
+
   // Determine insertion point
   // There are 4 cases to handle:
   // 1. Empty formals `{ }:` -> insert varName after `{`
@@ -57,61 +71,36 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   // 3. Ellipsis only `{ ... }:` -> insert `varName, ` before `...`
   // 4. With ellipsis `{ a, ... }:` -> insert `, varName` after last
   // non-ellipsis formal
+  // A trailing comma is a member without identifier.
+
+  const nixf::Formal *LastFormal = nullptr;
+  const nixf::Formal *Ellipsis = nullptr;
+  for (const auto &Member : Formals.members()) {
+    if (Member && Member->isEllipsis())
+      Ellipsis = Member.get();
+    else if (Member && Member->id())
+      LastFormal = Member.get();
+  }
 
   std::string NewText;
-  lspserver::Range InsertRange;
-
-  const auto &Members = Formals.members();
-
-  if (Members.empty()) {
-    // Case 1: Empty formals `{ }:`
-    // Insert right after the opening brace `{`
-    size_t BraceOffset = Formals.lCur().offset();
-    size_t InsertOffset = BraceOffset + 1;
-    auto InsertCursor = nixf::LexerCursor::unsafeCreate(
-        Formals.lCur().line(), Formals.lCur().column() + 1, InsertOffset);
-    auto InsertPos = toLSPPosition(Src, InsertCursor);
-    InsertRange = lspserver::Range{InsertPos, InsertPos};
-    NewText = " " + quoteNixAttrKey(VarName) + " ";
+  lspserver::Position InsertPos;
+  if (LastFormal) {
+    // Cases 2 and 4
+    InsertPos = toLSPPosition(Src, LastFormal->rCur());
+    NewText = ", " + VarName;
+  } else if (Ellipsis) {
+    // Case 3
+    InsertPos = toLSPPosition(Src, Ellipsis->lCur());
+    NewText = VarName + ", ";
   } else {
-    // Check if the last member is an ellipsis
-    const nixf::Formal *LastMember = Members.back().get();
-    bool HasEllipsis = LastMember && LastMember->isEllipsis();
-
-    if (HasEllipsis) {
-      if (Members.size() == 1) {
-        // Case 3: Ellipsis only `{ ... }:`
-        // Insert `varName, ` before the ellipsis
-        auto InsertPos = toLSPPosition(Src, LastMember->lCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = quoteNixAttrKey(VarName) + ", ";
-      } else {
-        // Case 4: With ellipsis `{ a, ... }:`
-        // Insert `, varName` after the last non-ellipsis formal
-        // Find the last non-ellipsis formal
-        const nixf::Formal *LastNonEllipsis = nullptr;
-        for (auto It = Members.rbegin(); It != Members.rend(); ++It) {
-          if ((*It) && !(*It)->isEllipsis()) {
-            LastNonEllipsis = (*It).get();
-            break;
-          }
-        }
-
-        if (!LastNonEllipsis)
-          return;
-
-        auto InsertPos = toLSPPosition(Src, LastNonEllipsis->rCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = ", " + quoteNixAttrKey(VarName);
-      }
-    } else {
-      // Case 2: Normal `{ a }:` without ellipsis
-      // Insert `, varName` after the last formal
-      auto InsertPos = toLSPPosition(Src, LastMember->rCur());
-      InsertRange = lspserver::Range{InsertPos, InsertPos};
-      NewText = ", " + quoteNixAttrKey(VarName);
-    }
+    // Case 1: Insert right after the opening brace `{`
+    auto InsertCursor = nixf::LexerCursor::unsafeCreate(
+        Formals.lCur().line(), Formals.lCur().column() + 1,
+        Formals.lCur().offset() + 1);
+    InsertPos = toLSPPosition(Src, InsertCursor);
+    NewText = " " + VarName + " ";
   }
+  lspserver::Range InsertRange{InsertPos, InsertPos};
 
   // Create CodeAction
   std::string Title = "add `" + VarName + "` to formals";
-- 
2.43.0


From b853d4e52af68b2cf3f1e015fa5eb7bc4e9bbc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 65/90] fix: extracting to a file keeps the meaning and the
 name of the source

---
 .../Controller/CodeActions/ExtractToFile.cpp  | 274 +++++++++++++-----
 1 file changed, 199 insertions(+), 75 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 9d3fd9b..bdbbdca 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -11,11 +11,15 @@
 #include <nixf/Basic/Nodes/Lambda.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <lspserver/URI.h>
+
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/Path.h>
 
+#include <algorithm>
 #include <set>
 #include <string_view>
+#include <vector>
 
 namespace nixd {
 
@@ -25,78 +29,140 @@ namespace {
 struct FreeVariableResult {
   std::set<std::string> FreeVars;
   bool HasWithVars; ///< True if any variables come from 'with' scope
+
+  /// True if some variables come from both 'with' scopes inside and outside of
+  /// the expression.
+  bool HasMixedVars;
 };
 
+/// \brief Check if \p N is inside (or equal to) \p Root.
+bool isInsideNode(const nixf::Node &N, const nixf::Node &Root) {
+  return N.lCur().offset() >= Root.lCur().offset() &&
+         N.rCur().offset() <= Root.rCur().offset();
+}
+
 /// \brief Collect all free variables used within an expression subtree.
 ///
-/// A free variable is one that is used (ExprVar) but defined outside the
-/// expression being extracted. We traverse the subtree and collect variable
-/// names that resolve to definitions outside our scope.
-class FreeVariableCollector {
-  const nixf::VariableLookupAnalysis &VLA;
-  const nixf::Node &Root;
-  std::set<std::string> FreeVars;
-  bool HasWithVars = false;
-
-  void collect(const nixf::Node &N) {
-    // If this is a variable reference, check if it's free
-    if (N.kind() == nixf::Node::NK_ExprVar) {
-      const auto &Var = static_cast<const nixf::ExprVar &>(N);
-      auto Result = VLA.query(Var);
-
-      // Variable is free if:
-      // - It's defined (not undefined/error)
-      // - Its definition is outside our extraction root
-      // - It's not a builtin
-      if (Result.Kind ==
-              nixf::VariableLookupAnalysis::LookupResultKind::Defined &&
-          Result.Def && !Result.Def->isBuiltin()) {
-        const nixf::Node *DefSyntax = Result.Def->syntax();
-        if (DefSyntax && !isInsideNode(DefSyntax, Root)) {
-          // This variable is defined outside our subtree - it's free
-          FreeVars.insert(std::string(Var.id().name()));
-        }
+/// A free variable is one that is used (ExprVar, or inherited) but defined
+/// outside the expression being extracted.
+FreeVariableResult
+collectFreeVariables(const nixf::Node &Root,
+                     const nixf::VariableLookupAnalysis &VLA) {
+  using LookupResultKind = nixf::VariableLookupAnalysis::LookupResultKind;
+  FreeVariableResult Free{};
+  forEachVariable(Root, [&](const nixf::ExprVar &Var) {
+    const std::string &Name = Var.id().name();
+    auto Result = VLA.query(Var);
+
+    // Variable is free if:
+    // - It's defined (not undefined/error)
+    // - Its definition is outside our extraction root
+    // - It's not a builtin
+    if (Result.Kind == LookupResultKind::Defined && Result.Def &&
+        !Result.Def->isBuiltin()) {
+      const nixf::Node *DefSyntax = Result.Def->syntax();
+      if (DefSyntax && !isInsideNode(*DefSyntax, Root))
+        Free.FreeVars.insert(Name);
+    }
+
+    // Variables are also free if all 'with' that may provide them are outside
+    // our extraction root.
+    if (Result.Kind == LookupResultKind::FromWith) {
+      bool Inside = false;
+      bool Outside = false;
+      for (const nixf::ExprWith *With : VLA.getWithScopes(Var)) {
+        if (With && isInsideNode(*With, Root))
+          Inside = true;
+        else
+          Outside = true;
       }
-      // Variables from 'with' are implicitly free since they depend on scope
-      // Note: These may not work correctly after extraction since the 'with'
-      // context is lost. We track this to warn the user.
-      else if (Result.Kind ==
-               nixf::VariableLookupAnalysis::LookupResultKind::FromWith) {
-        FreeVars.insert(std::string(Var.id().name()));
-        HasWithVars = true;
+      if (Outside) {
+        Free.FreeVars.insert(Name);
+        Free.HasWithVars = true;
+        Free.HasMixedVars |= Inside;
       }
     }
+  });
+  return Free;
+}
 
-    // Recursively collect from children
-    for (const auto &Child : N.children()) {
-      if (Child)
-        collect(*Child);
-    }
+/// \brief Check if \p Name is a variable around \p N.
+bool isDefinedAround(const nixf::Node &N, const std::string &Name,
+                     const nixf::VariableLookupAnalysis &VLA) {
+  for (const nixf::EnvNode *Env = VLA.env(&N); Env; Env = Env->parent()) {
+    auto It = Env->defs().find(Name);
+    if (It != Env->defs().end() && !It->second->isBuiltin())
+      return true;
   }
+  return false;
+}
+
+using StaticPath = std::vector<std::string>;
 
-  /// \brief Check if a node is inside (or equal to) the root node.
-  static bool isInsideNode(const nixf::Node *N, const nixf::Node &Root) {
-    if (!N)
-      return false;
-    // Check if N's range is within Root's range
-    const auto &NRange = N->range();
-    const auto &RootRange = Root.range();
-    return NRange.lCur().offset() >= RootRange.lCur().offset() &&
-           NRange.rCur().offset() <= RootRange.rCur().offset();
+/// \brief Append the names of \p Path to \p Names, until the first dynamic one.
+void appendStaticNames(const nixf::AttrPath &Path, StaticPath &Names) {
+  for (const auto &Name : Path.names()) {
+    if (!Name->isStatic())
+      return;
+    Names.emplace_back(Name->staticName());
   }
+}
 
-public:
-  FreeVariableCollector(const nixf::VariableLookupAnalysis &VLA,
-                        const nixf::Node &Root)
-      : VLA(VLA), Root(Root) {}
+/// \brief Check if a binding of \p Attrs, other than that of \p Value, defines
+/// something at or below the \p Target path.
+bool definesBelow(const nixf::ExprAttrs &Attrs, const StaticPath &Prefix,
+                  const StaticPath &Target, const nixf::Node &Value) {
+  if (!Attrs.binds())
+    return false;
+  for (const auto &Child : Attrs.binds()->bindings()) {
+    if (Child->kind() != nixf::Node::NK_Binding)
+      continue;
+    const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+    if (!Bind.value() || Bind.value().get() == &Value)
+      continue;
+    StaticPath Path = Prefix;
+    appendStaticNames(Bind.path(), Path);
+    if (Path.size() >= Target.size() &&
+        std::equal(Target.begin(), Target.end(), Path.begin()))
+      return true;
+    if (Bind.value()->kind() == nixf::Node::NK_ExprAttrs &&
+        definesBelow(static_cast<const nixf::ExprAttrs &>(*Bind.value()), Path,
+                     Target, Value))
+      return true;
+  }
+  return false;
+}
 
-  FreeVariableResult collect() {
-    FreeVars.clear();
-    HasWithVars = false;
-    collect(Root);
-    return {FreeVars, HasWithVars};
+/// \brief Check if \p N is an attribute set that is defined in several places.
+///
+/// e.g. `{ a.b = 1; a = { c = 2; }; }`
+bool isMergedAttrs(const nixf::Node &N, const nixf::ParentMapAnalysis &PM) {
+  if (N.kind() != nixf::Node::NK_ExprAttrs)
+    return false;
+  const nixf::Node *Cur = &N;
+  std::vector<const nixf::Binding *> Around; // Innermost first.
+  while (const nixf::Node *Parent = PM.query(*Cur)) {
+    if (Parent == Cur || Parent->kind() != nixf::Node::NK_Binding)
+      break;
+    const nixf::Node *Attrs = PM.upTo(*Parent, nixf::Node::NK_ExprAttrs);
+    if (!Attrs)
+      break;
+    const auto &Bind = static_cast<const nixf::Binding &>(*Parent);
+    const auto &Names = Bind.path().names();
+    if (!std::all_of(Names.begin(), Names.end(),
+                     [](const auto &Name) { return Name->isStatic(); }))
+      break; // Dynamic attributes are not merged.
+    Around.emplace_back(&Bind);
+    Cur = Attrs;
   }
-};
+  if (Around.empty())
+    return false;
+  StaticPath Target;
+  for (auto It = Around.rbegin(); It != Around.rend(); ++It)
+    appendStaticNames((*It)->path(), Target);
+  return definesBelow(static_cast<const nixf::ExprAttrs &>(*Cur), {}, Target,
+                      N);
+}
 
 /// \brief Generate a filename from the expression context.
 ///
@@ -189,26 +255,56 @@ std::string generateImportStatement(const std::string &Filename,
   return Import;
 }
 
-/// \brief Strip the "file://" scheme prefix from a URI if present.
-///
-/// LSP URIs typically have the form "file:///path/to/file", but
-/// URIForFile::canonicalize expects a filesystem path without the scheme.
-std::string stripFileScheme(llvm::StringRef URI) {
-  if (URI.starts_with("file://"))
-    return URI.drop_front(7).str();
-  return URI.str();
+/// \brief Make the \p Import a part of the expression around \p N.
+std::string fitImport(std::string Import, const nixf::Node &N,
+                      const nixf::ParentMapAnalysis &PM, llvm::StringRef Src) {
+  const nixf::Node *Parent = PM.query(N);
+  switch (Parent ? Parent->kind() : N.kind()) {
+  case nixf::Node::NK_ExprList:
+  case nixf::Node::NK_ExprCall:
+  case nixf::Node::NK_ExprSelect:
+    return "(" + Import + ")";
+  default:
+    break;
+  }
+
+  // Separate it from the tokens around
+  const size_t Begin = N.lCur().offset();
+  const size_t End = N.rCur().offset();
+  auto IsSpace = [](char C) {
+    return C == ' ' || C == '\t' || C == '\n' || C == '\r';
+  };
+  if (Begin > 0 && !IsSpace(Src[Begin - 1]) &&
+      !llvm::StringRef("([{};=").contains(Src[Begin - 1]))
+    Import.insert(0, " ");
+  if (End < Src.size() && !IsSpace(Src[End]) &&
+      !llvm::StringRef(")]};,").contains(Src[End]))
+    Import += " ";
+  return Import;
+}
+
+/// \brief The path of the file at \p FileURI.
+std::string filePath(llvm::StringRef FileURI) {
+  auto Path = lspserver::URI::resolve(FileURI);
+  if (!Path) {
+    llvm::consumeError(Path.takeError());
+    return "";
+  }
+  return std::move(*Path);
 }
 
 /// \brief Generate a unique filename by appending a numeric suffix if needed.
 ///
 /// If the file already exists, tries filename-1.nix, filename-2.nix, etc.
-/// Returns the original filename if no conflict exists.
+/// Returns the original filename if no conflict exists. The file \p SourcePath
+/// exists, even if it is not saved yet.
 std::string makeUniqueFilename(llvm::StringRef Directory,
-                               llvm::StringRef BaseFilename) {
+                               llvm::StringRef BaseFilename,
+                               llvm::StringRef SourcePath) {
   llvm::SmallString<256> TestPath(Directory);
   llvm::sys::path::append(TestPath, BaseFilename);
 
-  if (!llvm::sys::fs::exists(TestPath))
+  if (TestPath != SourcePath && !llvm::sys::fs::exists(TestPath))
     return std::string(BaseFilename);
 
   // Extract stem and extension
@@ -221,7 +317,7 @@ std::string makeUniqueFilename(llvm::StringRef Directory,
     std::string Candidate = (Stem + "-" + std::to_string(I) + Ext).str();
     TestPath = Directory;
     llvm::sys::path::append(TestPath, Candidate);
-    if (!llvm::sys::fs::exists(TestPath))
+    if (TestPath != SourcePath && !llvm::sys::fs::exists(TestPath))
       return Candidate;
   }
 
@@ -334,27 +430,55 @@ void addExtractToFileAction(const nixf::Node &N,
   if (ExprSrc.empty())
     return;
 
+  // The bindings of `let` are no expression.
+  const nixf::Node *Parent = PM.query(*ExprNode);
+  if (Parent && ExprNode->kind() == nixf::Node::NK_ExprAttrs &&
+      ((Parent->kind() == nixf::Node::NK_ExprLet &&
+        static_cast<const nixf::ExprLet *>(Parent)->attrs() == ExprNode) ||
+       (Parent->kind() == nixf::Node::NK_ExprLegacyLet &&
+        static_cast<const nixf::ExprLegacyLet *>(Parent)->attrs() == ExprNode)))
+    return;
+
+  // The other definitions of a merged attribute set would be in conflict.
+  if (isMergedAttrs(*ExprNode, PM))
+    return;
+
+  // The replacement refers to the builtin `import`
+  if (isDefinedAround(*ExprNode, "import", VLA))
+    return;
+
   // Collect free variables
-  FreeVariableCollector Collector(VLA, *ExprNode);
-  FreeVariableResult FreeVarResult = Collector.collect();
+  FreeVariableResult FreeVarResult = collectFreeVariables(*ExprNode, VLA);
   const std::set<std::string> &FreeVars = FreeVarResult.FreeVars;
 
+  // Formals would capture variables provided by an inner `with`
+  if (FreeVarResult.HasMixedVars)
+    return;
+
+  // Formals must be identifiers
+  for (const auto &Var : FreeVars) {
+    if (!isValidNixIdentifier(Var))
+      return;
+  }
+
   // Generate filename from context
   std::string BaseFilename = generateFilename(*ExprNode, PM);
 
   // Build the directory path for the new file (same directory as source)
-  std::string SourceFilePath = stripFileScheme(FileURI);
+  std::string SourceFilePath = filePath(FileURI);
   llvm::SmallString<256> Directory(SourceFilePath);
   llvm::sys::path::remove_filename(Directory);
 
   // Make filename unique if a file with the same name already exists
-  std::string Filename = makeUniqueFilename(Directory, BaseFilename);
+  std::string Filename =
+      makeUniqueFilename(Directory, BaseFilename, SourceFilePath);
 
   // Generate the new file content
   std::string NewFileContent = generateExtractedContent(ExprSrc, FreeVars);
 
   // Generate the import statement
-  std::string ImportStmt = generateImportStatement(Filename, FreeVars);
+  std::string ImportStmt = fitImport(
+      generateImportStatement(Filename, FreeVars), *ExprNode, PM, Src);
 
   // Build the full file path
   llvm::SmallString<256> NewFilePath(Directory);
-- 
2.43.0


From 565a46522a86e2c66c8896180f8923b6c84d96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 66/90] fix: no string conversion without closing quotes

---
 nixd/lib/Controller/CodeActions/RewriteString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 1712055..85cde87 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -324,6 +324,10 @@ void addRewriteStringAction(const nixf::Node &N,
   if (Src[Str.lCur().offset()] != '"' && Src[Str.lCur().offset()] != '\'')
     return;
 
+  // The closing quotes may be missing
+  if (Str.parts().rCur().offset() >= Str.rCur().offset())
+    return;
+
   // Determine current string type
   bool IsIndented = isIndentedString(Src, Str.range());
 
-- 
2.43.0


From edf80eb86386d9973236e0323f5cdedb56e01e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 67/90] fix: code actions of the requested kinds only

---
 nixd/lib/Controller/CodeAction.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 4b1e69d..302199f 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -21,6 +21,7 @@
 #include "nixd/Controller/Controller.h"
 
 #include <boost/asio/post.hpp>
+#include <llvm/ADT/STLExtras.h>
 #include <llvm/Support/JSON.h>
 
 namespace nixd {
@@ -28,12 +29,23 @@ namespace nixd {
 using namespace llvm::json;
 using namespace lspserver;
 
+/// \brief Check if \p Kind is one of the kinds in \p Only, or a sub-kind.
+static bool isRequestedKind(llvm::StringRef Kind,
+                            const std::vector<std::string> &Only) {
+  return Only.empty() || llvm::any_of(Only, [Kind](llvm::StringRef Requested) {
+           llvm::StringRef Rest = Kind;
+           return Rest.consume_front(Requested) &&
+                  (Rest.empty() || Requested.empty() || Rest.front() == '.');
+         });
+}
+
 void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
                               Callback<std::vector<CodeAction>> Reply) {
   using CheckTy = std::vector<CodeAction>;
   std::string File(Params.textDocument.uri.file());
   Range Range = Params.range;
-  auto Action = [Reply = std::move(Reply), File, Range, this]() mutable {
+  auto Action = [Reply = std::move(Reply), File, Range,
+                 Only = Params.context.only, this]() mutable {
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
 
@@ -117,6 +129,10 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
       // Selection-based actions (work on arbitrary text, not AST nodes)
       addJsonToNixAction(TU->src(), Range, FileURI, Actions);
 
+      llvm::erase_if(Actions, [&Only](const CodeAction &A) {
+        return !isRequestedKind(A.kind.value_or(""), Only);
+      });
+
       return Actions;
     }());
   };
-- 
2.43.0


From a7307bff2acb721b5fd83afe78b073bbe5cdec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 68/90] fix: requests at the edge of a name find the name

The caret between two tokens took the left one, e.g. the operator in x+|a, and
a name inherited twice made the request throw.
---
 nixd/lib/Controller/AST.cpp            | 32 ++++++++++++++++++++++++++
 nixd/lib/Controller/AST.h              |  9 ++++++++
 nixd/lib/Controller/Definition.cpp     | 16 +++++++------
 nixd/lib/Controller/FindReferences.cpp |  4 ++--
 nixd/lib/Controller/Hover.cpp          |  3 +--
 5 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index baf0937..4d45247 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -1,7 +1,12 @@
 #include "AST.h"
+#include "Convert.h"
 
 #include "nixd/Protocol/AttrSet.h"
 
+#include "lspserver/SourceCode.h"
+
+#include <llvm/ADT/StringExtras.h>
+
 #include <unordered_set>
 
 using namespace nixf;
@@ -95,6 +100,33 @@ void getNestedAttrPath(const nixf::AttrName &N,
 
 } // namespace
 
+const nixf::Node *nixd::nodeAt(const nixf::Node &AST, llvm::StringRef Src,
+                               const lspserver::Position &Pos) {
+  nixf::Position P = toNixfPosition(Src, Pos);
+  nixf::Position Prev{P.line(), P.column() - 1};
+  nixf::Position Next{P.line(), P.column() + 1};
+
+  auto IsName = [](char C) {
+    return llvm::isAlnum(C) || C == '_' || C == '-' || C == '\'';
+  };
+
+  llvm::Expected<size_t> Offset = lspserver::positionToOffset(Src, Pos);
+  if (!Offset) {
+    llvm::consumeError(Offset.takeError());
+    return AST.descend({P, P});
+  }
+  llvm::StringRef Before = Src.take_front(*Offset);
+  llvm::StringRef After = Src.drop_front(*Offset);
+  if (!After.empty() && IsName(After.front()))
+    return AST.descend({P, Next});
+  // Names may be quoted.
+  if (!Before.empty() && (IsName(Before.back()) || Before.back() == '"'))
+    return AST.descend({Prev, P});
+  if (!After.empty() && !llvm::isSpace(After.front()))
+    return AST.descend({P, Next});
+  return AST.descend({P, P});
+}
+
 [[nodiscard]] const EnvNode *nixd::upEnv(const nixf::Node &Desc,
                                          const VariableLookupAnalysis &VLA,
                                          const ParentMapAnalysis &PM) {
diff --git a/nixd/lib/Controller/AST.h b/nixd/lib/Controller/AST.h
index 5a30ed6..f6fc749 100644
--- a/nixd/lib/Controller/AST.h
+++ b/nixd/lib/Controller/AST.h
@@ -3,6 +3,8 @@
 
 #include "nixd/Protocol/AttrSet.h"
 
+#include "lspserver/Protocol.h"
+
 #include <nixf/Basic/Nodes/Expr.h>
 #include <nixf/Sema/ParentMap.h>
 #include <nixf/Sema/VariableLookup.h>
@@ -93,6 +95,13 @@ Selector mkSelector(const nixf::ExprSelect &Select,
 
 } // namespace idioms
 
+/// \brief Find the innermost node under the cursor at \p Pos.
+///
+/// A cursor between two tokens, e.g.  x+|a  is on the name next to it.
+[[nodiscard]] const nixf::Node *nodeAt(const nixf::Node &AST,
+                                       llvm::StringRef Src,
+                                       const lspserver::Position &Pos);
+
 /// \brief Search up until there are some node associated with "EnvNode".
 [[nodiscard]] const nixf::EnvNode *
 upEnv(const nixf::Node &Desc, const nixf::VariableLookupAnalysis &VLA,
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 62223ae..81f6011 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -49,9 +49,8 @@ const Definition *findSelfDefinition(const Node &N,
     return Def;
 
   // If N is inside an attrset, it maybe an "AttrName", let's look for it.
-  const Node *Parent = PMA.query(N);
-  if (Parent && Parent->kind() == Node::NK_AttrName)
-    return VLA.toDef(*Parent);
+  if (const Node *Name = PMA.upTo(N, Node::NK_AttrName))
+    return VLA.toDef(*Name);
 
   return nullptr;
 }
@@ -85,7 +84,11 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
       return nullptr;
 
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-    const Node *Var = SA.staticAttrs().at(AN.staticName()).value();
+    auto It = SA.staticAttrs().find(AN.staticName());
+    // Duplicated attributes are dropped.
+    if (It == SA.staticAttrs().end() || &It->second.key() != &AN)
+      return nullptr;
+    const Node *Var = It->second.value();
     assert(Var->kind() == Node::NK_ExprVar);
     return static_cast<const ExprVar *>(Var);
   }
@@ -137,7 +140,7 @@ class WorkerReportedException : std::exception {
   llvm::Error E;
 
 public:
-  WorkerReportedException(llvm::Error E) : E(std::move(E)) {};
+  WorkerReportedException(llvm::Error E) : E(std::move(E)){};
 
   llvm::Error takeError() { return std::move(E); }
   [[nodiscard]] const char *what() const noexcept override {
@@ -385,10 +388,9 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
-      const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
+      const auto &N = *CheckDefault(nodeAt(*AST, TU->src(), RawPos));
       const auto &UpExpr = *CheckDefault(PM.upExpr(N));
 
       // Special case for inherited names.
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 5e4251e..eb6b133 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -3,6 +3,7 @@
 /// [Find References]:
 /// https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#textDocument_references
 
+#include "AST.h"
 #include "CheckReturn.h"
 #include "Convert.h"
 #include "Definition.h"
@@ -56,8 +57,7 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = toNixfPosition(TU->src(), RawPos);
-      const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
+      const auto &Desc = CheckDefault(nodeAt(*AST, TU->src(), RawPos));
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 286292a..2abe835 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -213,8 +213,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = toNixfPosition(TU->src(), RawPos);
-      const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
+      const auto &N = *CheckDefault(nodeAt(*AST, TU->src(), RawPos));
 
       const auto Name = std::string(N.name());
       const auto &VLA = *TU->variableLookup();
-- 
2.43.0


From 815c9bbfacf4e290f3a0738ce99f4a675229c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 69/90] fix: definitions have all of their names

let a.b = 1; a.c = 2; in a  defines one variable by two names.
---
 libnixf/include/nixf/Basic/Nodes/Attrs.h   | 12 ++++++++++++
 libnixf/include/nixf/Sema/VariableLookup.h | 10 ++++++++++
 libnixf/src/Sema/SemaActions.cpp           |  6 ++++--
 libnixf/src/Sema/VariableLookup.cpp        | 10 +++++++---
 nixd/lib/Controller/DocumentHighlight.cpp  | 13 ++++++++-----
 5 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Attrs.h b/libnixf/include/nixf/Basic/Nodes/Attrs.h
index 947718d..00cd233 100644
--- a/libnixf/include/nixf/Basic/Nodes/Attrs.h
+++ b/libnixf/include/nixf/Basic/Nodes/Attrs.h
@@ -206,6 +206,7 @@ private:
   const std::shared_ptr<Node> Key;
   const std::shared_ptr<Expr> Value;
   AttributeKind Kind;
+  std::vector<std::shared_ptr<Node>> OtherKeys;
 
 public:
   Attribute(std::shared_ptr<Node> Key, std::shared_ptr<Expr> Value,
@@ -216,6 +217,17 @@ public:
 
   [[nodiscard]] Node &key() const { return *Key; }
 
+  /// \brief Other syntax that contributes to this attribute.
+  ///
+  /// e.g. the second `a` in `{ a.b = 1; a.c = 2; }`
+  [[nodiscard]] const std::vector<std::shared_ptr<Node>> &otherKeys() const {
+    return OtherKeys;
+  }
+
+  void addKey(std::shared_ptr<Node> Other) {
+    OtherKeys.emplace_back(std::move(Other));
+  }
+
   [[nodiscard]] Expr *value() const { return Value.get(); }
 
   [[nodiscard]] AttributeKind kind() const { return Kind; }
diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 756c350..a93f4eb 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -58,6 +58,7 @@ private:
   std::vector<const ExprVar *> Uses;
   const Node *Syntax;
   DefinitionSource Source;
+  std::vector<const Node *> OtherSyntax;
 
 public:
   Definition(const Node *Syntax, DefinitionSource Source)
@@ -68,6 +69,15 @@ public:
 
   [[nodiscard]] const Node *syntax() const { return Syntax; }
 
+  /// \brief Other names of this definition in the source.
+  ///
+  /// e.g. the second `a` in `let a.b = 1; a.c = 2; in a`
+  [[nodiscard]] const std::vector<const Node *> &otherSyntax() const {
+    return OtherSyntax;
+  }
+
+  void addSyntax(const Node &Other) { OtherSyntax.emplace_back(&Other); }
+
   [[nodiscard]] const std::vector<const ExprVar *> &uses() const {
     return Uses;
   }
diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 22d4003..b399314 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -85,7 +85,7 @@ void Sema::insertAttr(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
   auto &Attrs = SA.Static;
   std::string StaticName = Name->staticName();
   if (auto Nested = Attrs.find(StaticName); Nested != Attrs.end()) {
-    const auto &[K, V] = *Nested;
+    auto &[K, V] = *Nested;
     if (V.value() && V.value()->kind() == Node::NK_ExprAttrs && E &&
         E->kind() == Node::NK_ExprAttrs) {
       // If this is also an attrset, we want to merge them.
@@ -93,6 +93,7 @@ void Sema::insertAttr(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
       auto *YAttrSet = static_cast<ExprAttrs *>(E.get());
       checkAttrRecursiveForMerge(*XAttrSet, *YAttrSet);
       mergeAttrSets(XAttrSet->SA, YAttrSet->SA);
+      V.addKey(std::move(Name));
       return;
     }
     dupAttr(StaticName, Name->range(), V.key().range());
@@ -123,13 +124,14 @@ Sema::selectOrCreate(SemaAttrs &SA,
       if (auto Nested = StaticAttrs.find(StaticName);
           Nested != StaticAttrs.end()) {
         // Find another attr, with the same name.
-        const auto &[K, V] = *Nested;
+        auto &[K, V] = *Nested;
         if (V.fromInherit() || !V.value() ||
             V.value()->kind() != Node::NK_ExprAttrs) {
           dupAttr(StaticName, Name->range(), V.key().range());
           return nullptr;
         }
         Inner = &static_cast<ExprAttrs *>(V.value())->SA;
+        V.addKey(Name);
       } else {
         // There is no existing one, let's create a new attribute.
         // These attributes are implicitly created, and to match default ctor
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index ee0290c..54b7a30 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -331,9 +331,13 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
     DefBuilder DB(Diags);
     // For each static names, create a name binding.
     for (const auto &[Name, Attr] : SA.staticAttrs()) {
-      ToDef.insert_or_assign(
-          &Attr.key(),
-          DB.add(Name, &Attr.key(), Source, checkInheritedFromBuiltin(Attr)));
+      std::shared_ptr<Definition> Def =
+          DB.add(Name, &Attr.key(), Source, checkInheritedFromBuiltin(Attr));
+      for (const auto &Other : Attr.otherKeys()) {
+        Def->addSyntax(*Other);
+        ToDef.insert_or_assign(Other.get(), Def);
+      }
+      ToDef.insert_or_assign(&Attr.key(), std::move(Def));
     }
 
     auto NewEnv = std::make_shared<EnvNode>(Env, DB.finish(), Syntax);
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index 3379364..adfeed8 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -3,6 +3,7 @@
 /// [Document Highlight]:
 /// https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#textDocument_documentHighlight
 
+#include "AST.h"
 #include "CheckReturn.h"
 #include "Convert.h"
 #include "Definition.h"
@@ -40,13 +41,16 @@ std::vector<DocumentHighlight> highlight(const nixf::Node &Desc,
         .kind = DocumentHighlightKind::Read,
     });
   }
-  if (Def.syntax()) {
-    const Node &Syntax = *Def.syntax();
+  auto Write = [&](const Node &Syntax) {
     Highlights.emplace_back(DocumentHighlight{
         .range = toLSPRange(Src, Syntax.range()),
         .kind = DocumentHighlightKind::Write,
     });
-  }
+  };
+  if (Def.syntax())
+    Write(*Def.syntax());
+  for (const Node *Other : Def.otherSyntax())
+    Write(*Other);
 
   return Highlights;
 }
@@ -63,9 +67,8 @@ void Controller::onDocumentHighlight(
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
-      const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
+      const auto &Desc = *CheckDefault(nodeAt(*AST, TU->src(), RawPos));
       try {
         const auto &PM = *TU->parentMap();
         const auto &VLA = *TU->variableLookup();
-- 
2.43.0


From ad2c0a7a3cff23935625bafb559211334f6e3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 70/90] fix: rename keeps the meaning of the program

The new name is checked, and refused where it would clash or be captured.
Inherited names become bindings, all names of a definition are renamed, and
prepareRename answers the range of the name under the cursor.
---
 nixd/lib/Controller/Rename.cpp | 293 ++++++++++++++++++++++++++++++---
 1 file changed, 269 insertions(+), 24 deletions(-)

diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index d36475f..896eae0 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -3,7 +3,9 @@
 /// [Rename]:
 /// https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#textDocument_rename
 
+#include "AST.h"
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 #include "Definition.h"
 
@@ -12,6 +14,8 @@
 
 #include <boost/asio/post.hpp>
 
+#include <llvm/ADT/StringExtras.h>
+
 #include <exception>
 
 using namespace lspserver;
@@ -21,7 +25,11 @@ using namespace nixf;
 
 namespace {
 
-struct RenameException : std::exception {};
+struct RenameException : std::exception {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "cannot rename here";
+  }
+};
 
 struct RenameWithException : RenameException {
   [[nodiscard]] const char *what() const noexcept override {
@@ -35,59 +43,297 @@ struct RenameBuiltinException : RenameException {
   }
 };
 
+struct RenameInheritFromException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "cannot rename a name inherited from an expression";
+  }
+};
+
+struct RenameInvalidNameException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "the new name is not a valid identifier";
+  }
+};
+
+struct RenameConflictException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "the new name is already used here";
+  }
+};
+
+/// \brief All names of \p Def in the source.
+std::vector<const Node *> namesOf(const Definition &Def) {
+  std::vector<const Node *> Names = Def.otherSyntax();
+  Names.emplace_back(Def.syntax());
+  return Names;
+}
+
+/// \brief Find the definition, if it could be renamed at all.
+const Definition &findRenamable(const Node &Desc, const ParentMapAnalysis &PMA,
+                                const VariableLookupAnalysis &VLA) {
+  const Definition &Def = findDefinition(Desc, PMA, VLA);
+
+  if (Def.source() == Definition::DS_With)
+    throw RenameWithException();
+
+  if (Def.isBuiltin())
+    throw RenameBuiltinException();
+
+  for (const Node *Name : namesOf(Def)) {
+    const Node *Up = PMA.query(*Name);
+    if (Up && Up->kind() == Node::NK_Inherit &&
+        static_cast<const Inherit &>(*Up).expr())
+      throw RenameInheritFromException();
+  }
+  return Def;
+}
+
+/// \brief Find the "inherit name;" that \p Var is written in.
+const Inherit *findInherit(const Node &N, const ExprVar &Var) {
+  if (N.kind() == Node::NK_Inherit) {
+    for (const auto &Name : static_cast<const Inherit &>(N).names()) {
+      if (Name->lCur().offset() == Var.lCur().offset() &&
+          Name->rCur().offset() == Var.rCur().offset())
+        return &static_cast<const Inherit &>(N);
+    }
+  }
+  for (const Node *Child : N.children()) {
+    if (!Child)
+      continue;
+    if (const Inherit *Result = findInherit(*Child, Var))
+      return Result;
+  }
+  return nullptr;
+}
+
+std::string nameOf(const Node &Name) {
+  if (Name.kind() == Node::NK_Identifier)
+    return static_cast<const Identifier &>(Name).name();
+  return static_cast<const AttrName &>(Name).staticName();
+}
+
+/// \brief Check that no variable changes its meaning.
+void checkConflicts(const Definition &Def, const std::string &OldText,
+                    const std::string &NewText, const Node &AST,
+                    const ParentMapAnalysis &PMA,
+                    const VariableLookupAnalysis &VLA) {
+  if (OldText == NewText)
+    return;
+
+  auto Defines = [](const EnvNode &Env, const std::string &Name) {
+    return Env.defs().contains(Name);
+  };
+
+  auto IsHome = [&](const EnvNode &Env) {
+    auto It = Env.defs().find(OldText);
+    return It != Env.defs().end() && It->second.get() == &Def;
+  };
+
+  // Uses must not be captured by some definition of the new name.
+  for (const ExprVar *Use : Def.uses()) {
+    for (const EnvNode *Env = VLA.env(Use); Env; Env = Env->parent()) {
+      if (Defines(*Env, NewText))
+        throw RenameConflictException();
+      if (IsHome(*Env))
+        break;
+    }
+    if (PMA.query(*Use))
+      continue;
+    // This will be an ordinary binding, in the scope of the attrset.
+    const Inherit *Inh = findInherit(AST, *Use);
+    const Node *Attrs = Inh ? PMA.upTo(*Inh, Node::NK_ExprAttrs) : nullptr;
+    if (!Attrs)
+      throw RenameConflictException();
+    const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Attrs).sema();
+    if (SA.isRecursive() && SA.staticAttrs().contains(NewText))
+      throw RenameConflictException();
+  }
+
+  auto CheckNode = [&](auto &&Self, const Node &N) -> void {
+    for (const EnvNode *Env = VLA.env(&N); Env; Env = Env->parent()) {
+      if (IsHome(*Env) && Defines(*Env, NewText))
+        throw RenameConflictException();
+    }
+    for (const Node *Child : N.children()) {
+      if (Child)
+        Self(Self, *Child);
+    }
+  };
+  CheckNode(CheckNode, AST);
+
+  // Other variables must not be captured by this definition.
+  forEachVariable(AST, [&](const ExprVar &Var) {
+    if (Var.id().name() != NewText)
+      return;
+    for (const EnvNode *Env = VLA.env(&Var); Env; Env = Env->parent()) {
+      if (IsHome(*Env))
+        throw RenameConflictException();
+      if (Defines(*Env, NewText))
+        break;
+    }
+  });
+}
+
+/// \brief Inherited names that have to be written as bindings.
+using InheritBinds =
+    std::map<const Inherit *,
+             std::vector<std::pair<const Node *, std::string>>>;
+
+bool isIdentifierChar(char C) {
+  return isAlnum(C) || C == '_' || C == '-' || C == '\'';
+}
+
+lspserver::TextEdit replaceName(const Node &Name, const std::string &NewText,
+                                llvm::StringRef Src) {
+  // The new name must not become one token with the text around it.
+  llvm::StringRef Before = Src.take_front(Name.lCur().offset());
+  llvm::StringRef Old(Name.src(Src));
+  llvm::StringRef After = Src.drop_front(Name.rCur().offset());
+
+  std::string Text = NewText;
+
+  // let"a" = 1; in ...
+  //    ^ quoted
+  // [ 1.e ]
+  //     ^ part of the number, if it is called "e5".
+  bool Quoted = !isIdentifierChar(Old.front());
+  if (!Before.empty() &&
+      (Quoted ? isIdentifierChar(Before.back())
+              : isDigit(Before.back()) ||
+                    (Name.kind() == Node::NK_ExprVar && Before.back() == '.')))
+    Text = " " + Text;
+  if (Quoted && !After.empty() && isIdentifierChar(After.front()))
+    Text += " ";
+
+  // a':x  a'/x
+  // ^ URIs and paths do not have "'" (or "_").
+  if (Old.find_first_of("'_") != llvm::StringRef::npos) {
+    auto IsPathChar = [](char C) {
+      return isAlnum(C) || C == '.' || C == '_' || C == '-' || C == '+';
+    };
+    llvm::StringRef Path = After.drop_while(IsPathChar);
+    bool IsURI = After.size() > 1 && After[0] == ':' && !isSpace(After[1]);
+    bool IsPath = Path.size() > 1 && Path[0] == '/' && IsPathChar(Path[1]);
+    if (IsURI || IsPath)
+      Text += " ";
+  }
+  return lspserver::TextEdit{
+      .range = toLSPRange(Src, Name.range()),
+      .newText = std::move(Text),
+  };
+}
+
+/// \brief Move some inherited names into their own bindings.
+///
+/// inherit a b c;  ->  inherit a c; b = d;
+void splitInherit(
+    const Inherit &Inh,
+    const std::vector<std::pair<const Node *, std::string>> &Binds,
+    llvm::StringRef Src, std::vector<lspserver::TextEdit> &Edits) {
+  std::string NewBinds;
+  for (const auto &[_, Bind] : Binds)
+    NewBinds += (NewBinds.empty() ? "" : " ") + Bind;
+
+  if (Binds.size() == Inh.names().size() &&
+      !losesComment(Src, Inh.range(), {})) {
+    Edits.emplace_back(lspserver::TextEdit{
+        .range = toLSPRange(Src, Inh.range()),
+        .newText = std::move(NewBinds),
+    });
+    return;
+  }
+
+  if (Src[Inh.rCur().offset() - 1] != ';')
+    throw RenameException();
+
+  for (const auto &[Name, _] : Binds) {
+    Edits.emplace_back(lspserver::TextEdit{
+        .range = toLSPRange(Src, Name->range()),
+        // The names around it must not be joined.
+        .newText = isSpace(Src[Name->lCur().offset() - 1]) ? "" : " ",
+    });
+  }
+  Edits.emplace_back(lspserver::TextEdit{
+      .range = toLSPRange(Src, {Inh.rCur(), Inh.rCur()}),
+      .newText = " " + NewBinds,
+  });
+}
+
 WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
-                     const ParentMapAnalysis &PMA,
+                     const nixf::Node &AST, const ParentMapAnalysis &PMA,
                      const VariableLookupAnalysis &VLA, const URIForFile &URI,
                      llvm::StringRef Src) {
   using lspserver::TextEdit;
   // Find "definition"
-  auto Def = findDefinition(Desc, PMA, VLA);
+  const Definition &Def = findRenamable(Desc, PMA, VLA);
 
-  if (Def.source() == Definition::DS_With)
-    throw RenameWithException();
+  if (!isValidNixIdentifier(NewText) || NewText == "__curPos")
+    throw RenameInvalidNameException();
 
-  if (Def.isBuiltin())
-    throw RenameBuiltinException();
+  const std::string OldText = nameOf(*Def.syntax());
+  checkConflicts(Def, OldText, NewText, AST, PMA, VLA);
 
   std::vector<TextEdit> Edits;
+  InheritBinds Inherits;
 
   for (const auto *Use : Def.uses()) {
-    Edits.emplace_back(TextEdit{
-        .range = toLSPRange(Src, Use->range()),
-        .newText = NewText,
-    });
+    const Inherit *Inh = PMA.query(*Use) ? nullptr : findInherit(AST, *Use);
+    // inherit a;  ->  a = b;
+    if (Inh && OldText != NewText)
+      Inherits[Inh].emplace_back(Use, quoteNixAttrKey(OldText) + " = " +
+                                          NewText + ";");
+    else
+      Edits.emplace_back(replaceName(*Use, NewText, Src));
   }
 
-  Edits.emplace_back(TextEdit{
-      .range = toLSPRange(Src, Def.syntax()->range()),
-      .newText = NewText,
-  });
+  for (const Node *Name : namesOf(Def)) {
+    const Node *Up = PMA.query(*Name);
+    // inherit a;  ->  b = a;
+    if (Up && Up->kind() == Node::NK_Inherit && OldText != NewText)
+      Inherits[&static_cast<const Inherit &>(*Up)].emplace_back(
+          Name, NewText + " = " + OldText + ";");
+    else
+      Edits.emplace_back(replaceName(*Name, NewText, Src));
+  }
+
+  for (const auto &[Inh, Binds] : Inherits)
+    splitInherit(*Inh, Binds, Src, Edits);
+
   WorkspaceEdit WE;
   WE.changes = std::map<std::string, std::vector<TextEdit>>{
       {URI.uri(), std::move(Edits)}};
   return WE;
 }
+
+/// \brief The name under the cursor.
+const Node &findName(const nixf::Node &Desc, const ParentMapAnalysis &PMA) {
+  if (Desc.kind() == Node::NK_Identifier || Desc.kind() == Node::NK_ExprVar)
+    return Desc;
+  // Maybe quoted.
+  if (const Node *Name = PMA.upTo(Desc, Node::NK_AttrName))
+    return *Name;
+  return Desc;
+}
 } // namespace
 
 void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 RawPos = Params.position,
-                 NewText = Params.newName, this]() mutable {
+                 RawPos = Params.position, NewText = Params.newName,
+                 this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = *CheckReturn(
-          AST->descend({Pos, Pos}),
+          nodeAt(*AST, TU->src(), RawPos),
           error("cannot find corresponding node on given position"));
 
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        return rename(Desc, NewText, PM, VLA, URI, TU->src());
+        return rename(Desc, NewText, *AST, PM, VLA, URI, TU->src());
       } catch (std::exception &E) {
         return error(E.what());
       }
@@ -106,15 +352,14 @@ void Controller::onPrepareRename(
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
-      const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
+      const auto &Desc = *CheckDefault(nodeAt(*AST, TU->src(), RawPos));
 
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        WorkspaceEdit WE = rename(Desc, "", PM, VLA, URI, TU->src());
-        return toLSPRange(TU->src(), Desc.range());
+        (void)findRenamable(Desc, PM, VLA);
+        return toLSPRange(TU->src(), findName(Desc, PM).range());
       } catch (std::exception &E) {
         return error(E.what());
       }
-- 
2.43.0


From 53b7f5b69def0a7bb9c9eeb59f4d4a82742e6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 71/90] fix: document symbols nest, have names and are complete

Sources of inherit were repeated under every name, attributes did not enclose
children written elsewhere, bindings in default values of formals were missing,
and empty strings gave symbols without a name, which editors reject.
---
 nixd/lib/Controller/DocumentSymbol.cpp | 52 ++++++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/nixd/lib/Controller/DocumentSymbol.cpp b/nixd/lib/Controller/DocumentSymbol.cpp
index da23f25..dd7bd89 100644
--- a/nixd/lib/Controller/DocumentSymbol.cpp
+++ b/nixd/lib/Controller/DocumentSymbol.cpp
@@ -42,11 +42,27 @@ lspserver::Range getLambdaSelectionRage(llvm::StringRef Src,
   return toLSPRange(Src, Lambda.arg()->id()->range());
 }
 
-lspserver::Range getAttrRange(llvm::StringRef Src, const Attribute &Attr) {
-  auto LCur = toLSPPosition(Src, Attr.key().lCur());
-  if (Attr.value())
-    return {LCur, toLSPPosition(Src, Attr.value()->rCur())};
-  return {LCur, toLSPPosition(Src, Attr.key().rCur())};
+/// \brief Editors do not accept symbols without a visible name.
+std::string getVisibleName(const std::string &Name) {
+  if (llvm::StringRef(Name).trim().empty())
+    return "\"" + Name + "\"";
+  return Name;
+}
+
+/// \brief The range of the attribute, including its \p Children.
+///
+/// The children may be outside of the key & value syntax, for example:
+/// { a.b = 1; a.c = 2; }
+lspserver::Range getAttrRange(llvm::StringRef Src, const Attribute &Attr,
+                              const std::vector<DocumentSymbol> &Children) {
+  lspserver::Range Range = toLSPRange(Src, Attr.key().range());
+  if (Attr.value() && Attr.kind() != Attribute::AttributeKind::InheritFrom)
+    Range.end = std::max(Range.end, toLSPPosition(Src, Attr.value()->rCur()));
+  for (const DocumentSymbol &Child : Children) {
+    Range.start = std::min(Range.start, Child.range.start);
+    Range.end = std::max(Range.end, Child.range.end);
+  }
+  return Range;
 }
 
 /// Make variable's entry rich.
@@ -89,7 +105,8 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_ExprString: {
     const auto &Str = static_cast<const ExprString &>(*AST);
     DocumentSymbol Sym{
-        .name = Str.isLiteral() ? Str.literal() : "(dynamic string)",
+        .name = Str.isLiteral() ? getVisibleName(Str.literal())
+                                : "(dynamic string)",
         .detail = "string",
         .kind = SymbolKind::String,
         .deprecated = false,
@@ -131,7 +148,8 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_AttrName: {
     const auto &AN = static_cast<const AttrName &>(*AST);
     DocumentSymbol Sym{
-        .name = AN.isStatic() ? AN.staticName() : "(dynamic attribute name)",
+        .name = AN.isStatic() ? getVisibleName(AN.staticName())
+                              : "(dynamic attribute name)",
         .detail = "attribute name",
         .kind = SymbolKind::Property,
         .deprecated = false,
@@ -145,7 +163,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(*AST);
     DocumentSymbol Sym{
-        .name = Var.id().name(),
+        .name = getVisibleName(Var.id().name()),
         .detail = "identifier",
         .kind = SymbolKind::Variable,
         .deprecated = false,
@@ -160,6 +178,11 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_ExprLambda: {
     std::vector<DocumentSymbol> Children;
     const auto &Lambda = static_cast<const ExprLambda &>(*AST);
+    // Default values of formals may have symbols.
+    if (Lambda.arg() && Lambda.arg()->formals()) {
+      for (const auto &Formal : Lambda.arg()->formals()->members())
+        collect(Formal->defaultExpr(), Children, VLA, Src);
+    }
     collect(Lambda.body(), Children, VLA, Src);
     DocumentSymbol Sym{
         .name = getLambdaName(Lambda),
@@ -193,17 +216,22 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   }
   case Node::NK_ExprAttrs: {
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*AST).sema();
+    // inherit (source) a b;
+    //          ^~~~~~ shared by the names
+    for (const auto &Source : SA.inheritSources())
+      collect(Source.get(), Symbols, VLA, Src);
     for (const auto &[Name, Attr] : SA.staticAttrs()) {
       if (!Attr.value())
         continue;
       std::vector<DocumentSymbol> Children;
-      collect(Attr.value(), Children, VLA, Src);
+      if (Attr.kind() != Attribute::AttributeKind::InheritFrom)
+        collect(Attr.value(), Children, VLA, Src);
       DocumentSymbol Sym{
-          .name = Name,
+          .name = getVisibleName(Name),
           .detail = "attribute",
           .kind = SymbolKind::Field,
           .deprecated = false,
-          .range = getAttrRange(Src, Attr),
+          .range = getAttrRange(Src, Attr, Children),
           .selectionRange = toLSPRange(Src, Attr.key().range()),
           .children = std::move(Children),
       };
@@ -217,7 +245,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
           .detail = "attribute",
           .kind = SymbolKind::Field,
           .deprecated = false,
-          .range = getAttrRange(Src, Attr),
+          .range = getAttrRange(Src, Attr, Children),
           .selectionRange = toLSPRange(Src, Attr.key().range()),
           .children = std::move(Children),
       };
-- 
2.43.0


From ced0154aadb6ff61c8d249c3277592569edd0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 72/90] fix: fold default values of formals and interpolated
 expressions

---
 nixd/lib/Controller/FoldingRange.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nixd/lib/Controller/FoldingRange.cpp b/nixd/lib/Controller/FoldingRange.cpp
index cc66621..ceac90e 100644
--- a/nixd/lib/Controller/FoldingRange.cpp
+++ b/nixd/lib/Controller/FoldingRange.cpp
@@ -78,6 +78,9 @@ void collectFoldingRanges(const Node *AST, std::vector<FoldingRange> &Ranges,
   case Node::NK_ExprLambda: {
     addFoldingRange(*AST, Ranges, Src);
     const auto &Lambda = static_cast<const ExprLambda &>(*AST);
+    // Default values of formals may be foldable.
+    if (const auto *Arg = Lambda.arg())
+      collectFoldingRanges(Arg, Ranges, Src, Depth + 1);
     if (const auto *Body = Lambda.body())
       collectFoldingRanges(Body, Ranges, Src, Depth + 1);
     break;
@@ -114,6 +117,9 @@ void collectFoldingRanges(const Node *AST, std::vector<FoldingRange> &Ranges,
   case Node::NK_ExprString:
     // Multiline strings are foldable regions
     addFoldingRange(*AST, Ranges, Src);
+    // So may be the expressions interpolated into them.
+    for (const Node *Ch : AST->children())
+      collectFoldingRanges(Ch, Ranges, Src, Depth + 1);
     break;
   default:
     // Other node types may contain foldable children, recurse into them
-- 
2.43.0


From e7e13d98708661d2e21fe95de0a96633fcf65a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 73/90] fix: lengths of semantic tokens are in UTF-16 code
 units

Also, shadowed true, false and null are ordinary variables.
---
 nixd/lib/Controller/SemanticTokens.cpp | 35 +++++++++++---------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/nixd/lib/Controller/SemanticTokens.cpp b/nixd/lib/Controller/SemanticTokens.cpp
index 42716d9..15b5c43 100644
--- a/nixd/lib/Controller/SemanticTokens.cpp
+++ b/nixd/lib/Controller/SemanticTokens.cpp
@@ -69,16 +69,15 @@ class SemanticTokenBuilder {
 public:
   SemanticTokenBuilder(const VariableLookupAnalysis &VLA, llvm::StringRef Src)
       : VLA(VLA), Src(Src) {}
-  void addImpl(nixf::LexerCursor Pos, unsigned Length, unsigned TokenType,
-               unsigned TokenModifiers) {
-    auto P = toLSPPosition(Src, Pos);
-    Raw.emplace_back(RawSemanticToken{P, Length, TokenType, TokenModifiers});
-  }
 
   void add(const Node &N, unsigned TokenType, unsigned TokenModifiers) {
     if (skip(N))
       return;
-    addImpl(N.lCur(), len(N), TokenType, TokenModifiers);
+    lspserver::Range R = toLSPRange(Src, N.range());
+    // Both ends are on the same line.
+    unsigned Length = R.end.character - R.start.character;
+    Raw.emplace_back(
+        RawSemanticToken{R.start, Length, TokenType, TokenModifiers});
   }
 
   static bool skip(const Node &N) {
@@ -86,10 +85,6 @@ public:
     return N.range().lCur().line() != N.range().rCur().line();
   }
 
-  static unsigned len(const Node &N) {
-    return N.range().rCur().offset() - N.range().lCur().offset();
-  }
-
   void dfs(const ExprString &Str) {
     unsigned Modifers = 0;
     if (!Str.isLiteral())
@@ -98,19 +93,19 @@ public:
   }
 
   void dfs(const ExprVar &Var) {
-    if (Var.id().name() == "true" || Var.id().name() == "false") {
-      add(Var, ST_Bool, SM_Builtin);
-      return;
-    }
-
-    if (Var.id().name() == "null") {
-      add(Var, ST_Null, 0);
-      return;
-    }
-
     auto Result = VLA.query(Var);
     using ResultKind = VariableLookupAnalysis::LookupResultKind;
     if (Result.Def && Result.Def->isBuiltin()) {
+      if (Var.id().name() == "true" || Var.id().name() == "false") {
+        add(Var, ST_Bool, SM_Builtin);
+        return;
+      }
+
+      if (Var.id().name() == "null") {
+        add(Var, ST_Null, 0);
+        return;
+      }
+
       add(Var, ST_Builtin, SM_Builtin);
       return;
     }
-- 
2.43.0


From a43535e64ce9ddc12e7c0bb3bb557b2bdede4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 74/90] fix: completion offers the names in scope once, nearest
 first, wherever the name is typed

---
 nixd/lib/Controller/Completion.cpp | 39 ++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index f0b7898..ebb22e7 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -73,21 +73,23 @@ class VLACompletionProvider {
   }
 
   /// Collect definition on some env, and also it's ancestors.
-  void collectDef(std::vector<CompletionItem> &Items, const EnvNode *Env,
-                  const std::string &Prefix) {
-    if (!Env)
-      return;
-    collectDef(Items, Env->parent(), Prefix);
-    for (const auto &[Name, Def] : Env->defs()) {
-      if (Name.starts_with(
-              "__")) // These names are nix internal implementation, skip.
-        continue;
-      assert(Def);
-      if (Name.starts_with(Prefix)) {
-        addItem(Items, CompletionItem{
-                           .label = Name,
-                           .kind = getCompletionItemKind(*Def),
-                       });
+  ///
+  /// Inner scopes go first, they hide the names of the outer ones.
+  static void collectDef(std::vector<CompletionItem> &Items, const EnvNode *Env,
+                         const std::string &Prefix) {
+    std::set<std::string> Seen;
+    for (; Env; Env = Env->parent()) {
+      for (const auto &[Name, Def] : Env->defs()) {
+        assert(Def);
+        // These names are nix internal implementation, skip.
+        if (Def->isBuiltin() && Name.starts_with("__"))
+          continue;
+        if (Name.starts_with(Prefix) && Seen.insert(Name).second) {
+          addItem(Items, CompletionItem{
+                             .label = Name,
+                             .kind = getCompletionItemKind(*Def),
+                         });
+        }
       }
     }
   }
@@ -473,6 +475,13 @@ void Controller::onCompletion(const CompletionParams &Params,
       const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
+      // A name which ends at the caret is being typed, whatever follows it.
+      if (Pos.column() > 0) {
+        const nixf::Position Prev{Pos.line(), Pos.column() - 1};
+        const auto *Left = AST->descend({Prev, Pos});
+        if (Left && Left->kind() == Node::NK_Identifier)
+          Desc = Left;
+      }
       CheckDefault(Desc && canCompleteAt(*Desc));
 
       const auto &N = *Desc;
-- 
2.43.0


From bbd98c2a4b2fa25d7a5464fefb24dfaee7cad4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 75/90] fix: resolve path literals the way Nix does

---
 nixd/lib/Controller/DocumentLink.cpp |  6 +--
 nixd/lib/Controller/PathResolve.h    | 70 +++++++++++++++++-----------
 2 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/nixd/lib/Controller/DocumentLink.cpp b/nixd/lib/Controller/DocumentLink.cpp
index afd80df..c0c4ba3 100644
--- a/nixd/lib/Controller/DocumentLink.cpp
+++ b/nixd/lib/Controller/DocumentLink.cpp
@@ -9,8 +9,7 @@
 ///   2. Path. (Append "default.nix", perhaps)
 ///   3. Search Path <>
 ///     FIXME: support search path.
-///   4. Home Path: (begins with ~)
-///     FIXME: support home path.
+///   4. Home Path. (begins with ~)
 ///   5. Flake Reference
 ///     FIXME: support flake ref
 ///
@@ -46,7 +45,8 @@ void dfs(const Node *N, const std::string &BasePath,
                          .target = URIForFile::canonicalize(*Link, *Link)});
       }
     }
-    return;
+    // Interpolations may contain other paths.
+    break;
   }
   default:
     break;
diff --git a/nixd/lib/Controller/PathResolve.h b/nixd/lib/Controller/PathResolve.h
index 56d3f16..be95fc6 100644
--- a/nixd/lib/Controller/PathResolve.h
+++ b/nixd/lib/Controller/PathResolve.h
@@ -8,12 +8,31 @@
 
 #include "lspserver/Logger.h"
 
+#include <cstdlib>
 #include <filesystem>
 #include <optional>
 #include <string>
+#include <system_error>
 
 namespace nixd {
 
+/// \brief Follow the last component of \p Path while it is a symbolic link.
+///
+/// The directories in front of it are left as they are spelled. This is what
+/// Nix does with the path of a file before it is evaluated.
+inline std::filesystem::path followLink(std::filesystem::path Path) {
+  namespace fs = std::filesystem;
+  constexpr int MaxFollow = 1024;
+  std::error_code EC;
+  for (int I = 0; I < MaxFollow; ++I) {
+    fs::path Target = fs::read_symlink(Path, EC);
+    if (EC)
+      break;
+    Path = (Path.parent_path() / Target).lexically_normal();
+  }
+  return Path;
+}
+
 /// \brief Resolve a Nix expression path to a real filesystem path.
 ///
 /// This function resolves relative paths against the base file's directory,
@@ -41,48 +60,47 @@ inline std::optional<std::string> resolveExprPath(const std::string &BasePath,
   }
 
   try {
-    // Get the base directory from the file path
+    // Paths in a file are relative to the directory of that file.
     std::error_code EC;
-    fs::path BaseDir = fs::path(BasePath).parent_path();
+    fs::path BaseDir = followLink(BasePath).parent_path();
     if (BaseDir.empty()) {
       lspserver::elog("path-resolve: base directory is empty");
       return std::nullopt;
     }
 
-    // Canonicalize base directory to resolve symlinks
-    fs::path BaseDirCanonical = fs::canonical(BaseDir, EC);
-    if (EC) {
-      lspserver::elog("path-resolve: canonical failed for {0}: {1}",
-                      BaseDir.string(), EC.message());
-      return std::nullopt;
+    // Paths beginning with "~/" are relative to the home directory.
+    fs::path Path = ExprPath;
+    if (ExprPath.starts_with("~/")) {
+      const char *Home = std::getenv("HOME");
+      if (!Home || *Home != '/') {
+        lspserver::elog("path-resolve: home directory is unknown");
+        return std::nullopt;
+      }
+      Path = fs::path(Home) / ExprPath.substr(2);
     }
 
-    // Resolve the user-provided path relative to base directory
-    // Use weakly_canonical to handle non-existent intermediate components
-    fs::path ResolvedPath =
-        fs::weakly_canonical(BaseDirCanonical / ExprPath, EC);
-    if (EC) {
-      lspserver::elog("path-resolve: weakly_canonical failed for {0}: {1}",
-                      (BaseDirCanonical / ExprPath).string(), EC.message());
-      return std::nullopt;
-    }
+    // Nix resolves "." and ".." by spelling, not following symbolic links.
+    fs::path ResolvedPath = (BaseDir / Path).lexically_normal();
+    if (!ResolvedPath.has_filename() && ResolvedPath.has_relative_path())
+      ResolvedPath = ResolvedPath.parent_path();
+    ResolvedPath = followLink(std::move(ResolvedPath));
+
+    // If it's a directory, append default.nix (Nix import convention)
+    if (fs::is_directory(ResolvedPath, EC))
+      ResolvedPath = ResolvedPath / "default.nix";
 
     // Check if target exists
     auto Status = fs::status(ResolvedPath, EC);
-    if (EC || !fs::exists(Status)) {
+    if (EC || !fs::exists(Status) || fs::is_directory(Status)) {
       lspserver::elog("path-resolve: target does not exist: {0}",
                       ResolvedPath.string());
       return std::nullopt;
     }
 
-    // If it's a directory, append default.nix (Nix import convention)
-    if (fs::is_directory(Status)) {
-      ResolvedPath = ResolvedPath / "default.nix";
-      if (!fs::exists(ResolvedPath, EC) || EC) {
-        lspserver::elog("path-resolve: default.nix not found in directory: {0}",
-                        ResolvedPath.string());
-        return std::nullopt;
-      }
+    ResolvedPath = fs::canonical(ResolvedPath, EC);
+    if (EC) {
+      lspserver::elog("path-resolve: canonical failed: {0}", EC.message());
+      return std::nullopt;
     }
 
     lspserver::vlog("path-resolve: resolved to {0}", ResolvedPath.string());
-- 
2.43.0


From 91c7d4dfc3dcfb8960857a392afa9e3319d7faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 76/90] fix: fail pending calls when the connection ends

---
 nixd/lib/Eval/AttrSetClient.cpp              |  9 +++----
 nixd/lspserver/include/lspserver/LSPServer.h |  6 +++++
 nixd/lspserver/src/LSPServer.cpp             | 26 +++++++++++++++++---
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/nixd/lib/Eval/AttrSetClient.cpp b/nixd/lib/Eval/AttrSetClient.cpp
index 9c19c4c..2d12f85 100644
--- a/nixd/lib/Eval/AttrSetClient.cpp
+++ b/nixd/lib/Eval/AttrSetClient.cpp
@@ -2,8 +2,6 @@
 
 #include "nixd/Eval/AttrSetClient.h"
 
-#include <signal.h> // NOLINT(modernize-deprecated-headers)
-
 using namespace nixd;
 using namespace lspserver;
 
@@ -34,7 +32,8 @@ AttrSetClientProc::AttrSetClientProc(const std::function<int()> &Action)
       Input([this]() { Client.run(); }) {}
 
 AttrSetClient *AttrSetClientProc::client() {
-  if (!kill(Proc.proc().PID, 0))
-    return &Client;
-  return nullptr;
+  // The process may be a zombie, see if it is still able to answer.
+  if (Client.isClosed())
+    return nullptr;
+  return &Client;
 }
diff --git a/nixd/lspserver/include/lspserver/LSPServer.h b/nixd/lspserver/include/lspserver/LSPServer.h
index 14a946a..af4de24 100644
--- a/nixd/lspserver/include/lspserver/LSPServer.h
+++ b/nixd/lspserver/include/lspserver/LSPServer.h
@@ -8,6 +8,7 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <atomic>
 #include <memory>
 
 namespace lspserver {
@@ -34,6 +35,9 @@ private:
   /// associated an error.
   std::map<int, Callback<llvm::json::Value>> PendingCalls;
 
+  /// Whether the input was closed. No reply arrives after that.
+  std::atomic<bool> Closed = false;
+
   /// Number of maximum callbacks stored in the structure.
   /// Give an error to the oldest callback (least ID) while exceeding this
   /// value.
@@ -89,6 +93,8 @@ public:
 
   /// \brief Close the inbound port.
   void closeInbound() { In->close(); }
+
+  [[nodiscard]] bool isClosed() const { return Closed; }
   void run();
 
   void switchStreamStyle(JSONStreamStyle Style) { In->StreamStyle = Style; }
diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index a85db4a..6077b3a 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -12,7 +12,19 @@
 
 namespace lspserver {
 
-void LSPServer::run() { In->loop(*this); }
+void LSPServer::run() {
+  In->loop(*this);
+
+  // Nobody answers the calls which are still pending.
+  std::map<int, Callback<llvm::json::Value>> Calls;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Closed = true;
+    Calls.swap(PendingCalls);
+  }
+  for (auto &[ID, CB] : Calls)
+    CB(error("connection was closed, no reply for request ({0})", ID));
+}
 
 bool LSPServer::onNotify(llvm::StringRef Method, llvm::json::Value Params) {
   log("<-- {0}", Method);
@@ -87,7 +99,12 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
   {
     std::lock_guard<std::mutex> _(PendingCallsLock);
     Ret = TopID++;
-    PendingCalls[Ret] = std::move(CB);
+    if (Closed) {
+      OldestID = Ret;
+      OldestCallback = std::move(CB);
+    } else {
+      PendingCalls[Ret] = std::move(CB);
+    }
 
     // Check the limit
     if (PendingCalls.size() > MaxPendingCalls) {
@@ -99,8 +116,9 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
   }
   // Invoke the callback outside of the critical zone, it may call again.
   if (OldestCallback) {
-    elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, OldestID);
+    elog("too many outstanding LSP calls, or connection was closed, "
+         "forgetting about {0}",
+         OldestID);
     (*OldestCallback)(error(
         "failed to receive a client reply for request ({0})", OldestID));
   }
-- 
2.43.0


From 9eb9df45bb1692ce653c68ec46afc5d9e31bcd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 77/90] fix: survive dead workers, and release them

---
 nixd/include/nixd/Controller/Controller.h | 21 +++--
 nixd/include/nixd/Eval/AttrSetClient.h    |  9 ++-
 nixd/include/nixd/Support/StreamProc.h    |  7 ++
 nixd/lib/Controller/Completion.cpp        | 41 +++++-----
 nixd/lib/Controller/Configuration.cpp     | 14 +---
 nixd/lib/Controller/Definition.cpp        | 22 +++---
 nixd/lib/Controller/Hover.cpp             | 94 ++++++++++++-----------
 nixd/lib/Controller/InlayHints.cpp        | 10 ++-
 nixd/lib/Controller/LifeTime.cpp          |  4 +-
 nixd/lib/Controller/Support.cpp           | 31 ++++++++
 nixd/lib/Eval/Launch.cpp                  | 16 +++-
 nixd/lib/Support/ForkPiped.cpp            | 71 +++++++++++------
 nixd/lib/Support/StreamProc.cpp           | 18 ++++-
 nixd/tools/nixd.cpp                       |  5 ++
 14 files changed, 234 insertions(+), 129 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index f49fac5..68300ba 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -18,7 +18,7 @@ namespace nixd {
 
 class Controller : public lspserver::LSPServer {
 public:
-  using OptionMapTy = std::map<std::string, std::unique_ptr<AttrSetClientProc>>;
+  using OptionMapTy = std::map<std::string, std::shared_ptr<AttrSetClientProc>>;
 
 private:
   std::unique_ptr<OwnedEvalClient> Eval;
@@ -33,12 +33,21 @@ private:
   //      "home-manager" -> home-manager worker
   OptionMapTy Options; // GUARDED_BY(OptionsLock)
 
-  AttrSetClientProc &nixpkgsEval() {
-    assert(NixpkgsEval);
-    return *NixpkgsEval;
+  /// The workers may be asked without holding the lock.
+  OptionMapTy options() {
+    std::lock_guard _(OptionsLock);
+    return Options;
   }
 
-  AttrSetClient *nixpkgsClient() { return nixpkgsEval().client(); }
+  /// \brief Get the worker of an option provider, launch it if it does not
+  /// exist, or has died. OptionsLock must be held.
+  /// \returns nullptr if it cannot be launched.
+  AttrSetClient *optionClient(const std::string &Name);
+
+  /// \returns nullptr if there is no (living) worker.
+  AttrSetClient *nixpkgsClient() {
+    return NixpkgsEval ? NixpkgsEval->client() : nullptr;
+  }
 
   void evalExprWithProgress(AttrSetClient &Client, const EvalExprParams &Params,
                             std::string_view Description);
@@ -254,7 +263,7 @@ public:
   Controller(std::unique_ptr<lspserver::InboundPort> In,
              std::unique_ptr<lspserver::OutboundPort> Out);
 
-  ~Controller() override { Pool.join(); }
+  ~Controller() override;
 
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
diff --git a/nixd/include/nixd/Eval/AttrSetClient.h b/nixd/include/nixd/Eval/AttrSetClient.h
index 11931d9..d4369d7 100644
--- a/nixd/include/nixd/Eval/AttrSetClient.h
+++ b/nixd/include/nixd/Eval/AttrSetClient.h
@@ -82,11 +82,16 @@ public:
   /// \returns nullptr if it has been dead.
   AttrSetClient *client();
   ~AttrSetClientProc() {
-    Client.exit();
-    Client.closeInbound();
+    stop();
     Input.join();
   }
 
+  /// \brief End the process. Requests it did not answer yet are failed.
+  void stop() {
+    Proc.kill();
+    Client.closeInbound();
+  }
+
   /// \see StreamProc::StreamProc
   AttrSetClientProc(const std::function<int()> &Action);
 };
diff --git a/nixd/include/nixd/Support/StreamProc.h b/nixd/include/nixd/Support/StreamProc.h
index bfba46b..6224c0a 100644
--- a/nixd/include/nixd/Support/StreamProc.h
+++ b/nixd/include/nixd/Support/StreamProc.h
@@ -18,6 +18,13 @@ public:
   /// The value returned by \p Action will be interpreted as process's exit
   /// value.
   StreamProc(const std::function<int()> &Action);
+  StreamProc(const StreamProc &) = delete;
+
+  /// \brief Ends the process, and waits for it.
+  ~StreamProc();
+
+  /// \brief Ends the process. It does not answer any more.
+  void kill() const;
 
   [[nodiscard]] llvm::raw_fd_ostream &stream() const {
     assert(Stream);
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ebb22e7..591dd89 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -342,10 +342,11 @@ public:
 void completeAttrName(const lspserver::Range EditRange,
                       const std::vector<std::string> &Scope,
                       const std::string &Prefix,
-                      Controller::OptionMapTy &Options, bool CompletionSnippets,
+                      const Controller::OptionMapTy &Options,
+                      bool CompletionSnippets,
                       std::vector<CompletionItem> &List) {
   for (const auto &[Name, Provider] : Options) {
-    AttrSetClient *Client = Options.at(Name)->client();
+    AttrSetClient *Client = Provider->client();
     if (!Client) [[unlikely]] {
       elog("skipped client {0} as it is dead", Name);
       continue;
@@ -356,8 +357,8 @@ void completeAttrName(const lspserver::Range EditRange,
 }
 
 void completeAttrPath(const lspserver::Range EditRange, const Node &N,
-                      const ParentMapAnalysis &PM, std::mutex &OptionsLock,
-                      Controller::OptionMapTy &Options, bool Snippets,
+                      const ParentMapAnalysis &PM,
+                      const Controller::OptionMapTy &Options, bool Snippets,
                       std::vector<lspserver::CompletionItem> &Items) {
   std::vector<std::string> Scope;
   using PathResult = FindAttrPathResult;
@@ -366,10 +367,7 @@ void completeAttrPath(const lspserver::Range EditRange, const Node &N,
     // Construct request.
     std::string Prefix = Scope.back();
     Scope.pop_back();
-    {
-      std::lock_guard _(OptionsLock);
-      completeAttrName(EditRange, Scope, Prefix, Options, Snippets, Items);
-    }
+    completeAttrName(EditRange, Scope, Prefix, Options, Snippets, Items);
   }
 }
 
@@ -393,12 +391,15 @@ AttrPathCompleteParams mkParams(nixd::Selector Sel, bool IsComplete) {
 void completeVarName(const lspserver::Range EditRange,
                      const VariableLookupAnalysis &VLA,
                      const ParentMapAnalysis &PM, const nixf::ExprVar &N,
-                     AttrSetClient &Client, std::vector<CompletionItem> &List) {
+                     AttrSetClient *Client, std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/var"
 
   VLACompletionProvider VLAP(VLA);
   VLAP.complete(N, List, PM);
 
+  if (!Client)
+    return;
+
   // Try to complete the name by known idioms.
   try {
     Selector Sel = idioms::mkVarSelector(N, VLA, PM);
@@ -408,7 +409,7 @@ void completeVarName(const lspserver::Range EditRange,
       return;
 
     // Invoke nixpkgs provider to get the completion list.
-    NixpkgsCompletionProvider NCP(Client);
+    NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
     NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
   } catch (ExceedSizeError &) {
@@ -428,7 +429,7 @@ void completeVarName(const lspserver::Range EditRange,
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
 void completeSelect(const lspserver::Range EditRange,
-                    const nixf::ExprSelect &Select, AttrSetClient &Client,
+                    const nixf::ExprSelect &Select, AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
                     std::vector<CompletionItem> &List) {
@@ -439,13 +440,13 @@ void completeSelect(const lspserver::Range EditRange,
   // Determine that the name is one of special names interesting
   // for nix language. If it is not a simple variable, skip this
   // case.
-  if (BaseExpr.kind() != Node::NK_ExprVar) {
+  if (BaseExpr.kind() != Node::NK_ExprVar || !Client) {
     return;
   }
 
   const auto &Var = static_cast<const nixf::ExprVar &>(BaseExpr);
   // Ask nixpkgs provider to get idioms completion.
-  NixpkgsCompletionProvider NCP(Client);
+  NixpkgsCompletionProvider NCP(*Client);
 
   try {
     Selector Sel =
@@ -503,7 +504,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           case Node::NK_ExprVar: {
             completeVarName(EditRange, VLA, PM,
                             static_cast<const nixf::ExprVar &>(UpExpr),
-                            *nixpkgsClient(), List.items);
+                            nixpkgsClient(), List.items);
             return List;
           }
           // A "select" expression. e.g.
@@ -512,12 +513,12 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, *nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
           case Node::NK_ExprAttrs: {
-            completeAttrPath(EditRange, N, PM, OptionsLock, Options,
+            completeAttrPath(EditRange, N, PM, options(),
                              ClientCaps.CompletionSnippets, List.items);
             return List;
           }
@@ -553,8 +554,12 @@ void Controller::onCompletionItemResolve(const CompletionItem &Params,
     llvm::json::Path::Root Root;
     fromJSON(*EV, Req, Root);
 
-    // FIXME: handle null nixpkgsClient()
-    NixpkgsCompletionProvider NCP(*nixpkgsClient());
+    AttrSetClient *Client = nixpkgsClient();
+    if (!Client) {
+      Reply(Params);
+      return;
+    }
+    NixpkgsCompletionProvider NCP(*Client);
     CompletionItem Resp = Params;
     NCP.resolvePackage(Req.Scope, Params.label, Resp);
 
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 3bb28e8..67a5046 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -59,22 +59,16 @@ void Controller::updateConfig(Configuration NewConfig) {
 
   if (!Config.nixpkgs.expr.empty()) {
     /// Evaluate nixpkgs and options, using user-provided config.
-    if (nixpkgsClient()) {
-      evalExprWithProgress(*nixpkgsClient(), Config.nixpkgs.expr,
-                           "nixpkgs entries");
+    if (AttrSetClient *Client = nixpkgsClient()) {
+      evalExprWithProgress(*Client, Config.nixpkgs.expr, "nixpkgs entries");
     }
   }
   if (!Config.options.empty()) {
     std::lock_guard _(OptionsLock);
     // For each option configuration, update the worker.
     for (const auto &[Name, Opt] : Config.options) {
-      auto &Client = Options[Name];
-      if (!Client) {
-        // If it does not exist. Launch a new client.
-        startOption(Name, Client);
-      }
-      assert(Client);
-      evalExprWithProgress(*Client->client(), Opt.expr, Name);
+      if (AttrSetClient *Client = optionClient(Name))
+        evalExprWithProgress(*Client, Opt.expr, Name);
     }
   }
 
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 81f6011..cac7767 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -260,14 +260,12 @@ std::optional<Location> definePath(const ExprPath &Path,
 ///
 /// Usually this function will return a list of option declarations via RPC
 Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
-                         std::mutex &OptionsLock,
-                         Controller::OptionMapTy &Options) {
+                         const Controller::OptionMapTy &Options) {
   using PathResult = FindAttrPathResult;
   std::vector<std::string> Scope;
   auto R = findAttrPathForOptions(N, PM, Scope);
   Locations Locs;
   if (R == PathResult::OK) {
-    std::lock_guard _(OptionsLock);
     // For each option worker, try to get it's decl position.
     for (const auto &[_, Client] : Options) {
       if (AttrSetClient *C = Client->client()) {
@@ -281,10 +279,12 @@ Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
 
 /// \brief Get nixpkgs definition from a selector.
 Locations defineNixpkgsSelector(const Selector &Sel,
-                                AttrSetClient &NixpkgsClient) {
+                                AttrSetClient *NixpkgsClient) {
+  if (!NixpkgsClient)
+    return {};
   try {
     // Ask nixpkgs provider information about this selector.
-    NixpkgsDefinitionProvider NDP(NixpkgsClient);
+    NixpkgsDefinitionProvider NDP(*NixpkgsClient);
     return NDP.resolveSelector(Sel);
   } catch (NoLocationsFoundInNixpkgsException &E) {
     elog("definition/idiom: {0}", E.what());
@@ -297,7 +297,7 @@ Locations defineNixpkgsSelector(const Selector &Sel,
 /// \brief Get definiton of select expressions.
 Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
                        const ParentMapAnalysis &PM,
-                       AttrSetClient &NixpkgsClient) {
+                       AttrSetClient *NixpkgsClient) {
   // Currently we can only deal with idioms.
   // Maybe more data-flow analysis will be added though.
   try {
@@ -322,7 +322,7 @@ std::vector<T> mergeVec(std::vector<T> A, const std::vector<T> &B) {
 
 llvm::Expected<Locations>
 defineVar(const ExprVar &Var, const VariableLookupAnalysis &VLA,
-          const ParentMapAnalysis &PM, AttrSetClient &NixpkgsClient,
+          const ParentMapAnalysis &PM, AttrSetClient *NixpkgsClient,
           const URIForFile &URI, llvm::StringRef Src) {
   try {
     Locations StaticLocs = defineVarStatic(Var, VLA, URI, Src);
@@ -395,19 +395,19 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
 
       // Special case for inherited names.
       if (const ExprVar *Var = findInheritVar(N, PM, VLA))
-        return defineVar(*Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(*Var, VLA, PM, nixpkgsClient(), URI, TU->src());
 
       switch (UpExpr.kind()) {
       case Node::NK_ExprVar: {
         const auto &Var = static_cast<const ExprVar &>(UpExpr);
-        return defineVar(Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(Var, VLA, PM, nixpkgsClient(), URI, TU->src());
       }
       case Node::NK_ExprSelect: {
         const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-        return defineSelect(Sel, VLA, PM, *nixpkgsClient());
+        return defineSelect(Sel, VLA, PM, nixpkgsClient());
       }
       case Node::NK_ExprAttrs:
-        return defineAttrPath(N, PM, OptionsLock, Options);
+        return defineAttrPath(N, PM, options());
       case Node::NK_ExprPath: {
         const auto &Path = static_cast<const ExprPath &>(UpExpr);
         if (auto Loc = definePath(Path, File))
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 2abe835..2470dcc 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -222,59 +222,61 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
       const auto &UpExpr = *CheckDefault(PM.upExpr(N));
 
       // Try to get hover info from nixpkgs.
-      if (auto *Client = nixpkgsClient(); Client) {
-        switch (UpExpr.kind()) {
-        case Node::NK_ExprVar: {
-          const auto &Var = static_cast<const ExprVar &>(UpExpr);
-          if (auto H = hoverVar(Var, VLA, PM, *Client, TU->src()))
-            return *H;
+      AttrSetClient *Client = nixpkgsClient();
+      switch (UpExpr.kind()) {
+      case Node::NK_ExprVar: {
+        if (!Client)
           break;
-        }
-        case Node::NK_ExprSelect: {
-          const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-          if (auto H = hoverSelect(Sel, VLA, PM, *Client, TU->src()))
-            return *H;
+        const auto &Var = static_cast<const ExprVar &>(UpExpr);
+        if (auto H = hoverVar(Var, VLA, PM, *Client, TU->src()))
+          return *H;
+        break;
+      }
+      case Node::NK_ExprSelect: {
+        if (!Client)
           break;
-        }
-        case Node::NK_ExprAttrs: {
-          // Try to get hover info from options.
-          auto Scope = std::vector<std::string>();
-          const auto R = findAttrPathForOptions(N, PM, Scope);
-          if (R == FindAttrPathResult::OK) {
-            std::lock_guard _(OptionsLock);
-            for (const auto &[_, Client] : Options) {
-              if (AttrSetClient *C = Client->client()) {
-                OptionsHoverProvider OHP(*C);
-                std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
-                std::string Docs;
-                if (Desc) {
-                  if (Desc->Type) {
-                    std::string TypeName = Desc->Type->Name.value_or("");
-                    std::string TypeDesc = Desc->Type->Description.value_or("");
-                    Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
-                  } else {
-                    Docs += "? (missing type)";
-                  }
-                  if (Desc->Description) {
-                    Docs += "\n\n" + Desc->Description.value_or("");
-                  }
-                  return Hover{
-                      .contents =
-                          MarkupContent{
-                              .kind = MarkupKind::Markdown,
-                              .value = std::move(Docs),
-                          },
-                      .range = toLSPRange(TU->src(), N.range()),
-                  };
+        const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
+        if (auto H = hoverSelect(Sel, VLA, PM, *Client, TU->src()))
+          return *H;
+        break;
+      }
+      case Node::NK_ExprAttrs: {
+        // Try to get hover info from options.
+        auto Scope = std::vector<std::string>();
+        const auto R = findAttrPathForOptions(N, PM, Scope);
+        if (R == FindAttrPathResult::OK) {
+          for (const auto &[_, Worker] : options()) {
+            if (AttrSetClient *C = Worker->client()) {
+              OptionsHoverProvider OHP(*C);
+              std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
+              std::string Docs;
+              if (Desc) {
+                if (Desc->Type) {
+                  std::string TypeName = Desc->Type->Name.value_or("");
+                  std::string TypeDesc = Desc->Type->Description.value_or("");
+                  Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
+                } else {
+                  Docs += "? (missing type)";
+                }
+                if (Desc->Description) {
+                  Docs += "\n\n" + Desc->Description.value_or("");
                 }
+                return Hover{
+                    .contents =
+                        MarkupContent{
+                            .kind = MarkupKind::Markdown,
+                            .value = std::move(Docs),
+                        },
+                    .range = toLSPRange(TU->src(), N.range()),
+                };
               }
             }
           }
-          break;
-        }
-        default:
-          break;
         }
+        break;
+      }
+      default:
+        break;
       }
 
       return std::nullopt;
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 4e505fd..bf7370a 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -129,10 +129,12 @@ void Controller::onInlayHint(const InlayHintsParams &Params,
       const auto AST = CheckDefault(getAST(*TU));
       // Perform inlay hints computation on the range.
       std::vector<InlayHint> Response;
-      NixpkgsInlayHintsProvider NP(*nixpkgsClient(), *TU->variableLookup(),
-                                   *TU->parentMap(), Range, Response,
-                                   TU->src());
-      NP.dfs(AST.get());
+      if (AttrSetClient *Client = nixpkgsClient()) {
+        NixpkgsInlayHintsProvider NP(*Client, *TU->variableLookup(),
+                                     *TU->parentMap(), Range, Response,
+                                     TU->src());
+        NP.dfs(AST.get());
+      }
       return Response;
     }());
   };
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 0aac76d..f3c9ae1 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -182,9 +182,7 @@ void Controller::
   // Launch nixos worker also.
   {
     std::lock_guard _(OptionsLock);
-    startOption("nixos", Options["nixos"]);
-
-    if (AttrSetClient *Client = Options["nixos"]->client())
+    if (AttrSetClient *Client = optionClient("nixos"))
       evalExprWithProgress(*Client, getDefaultNixOSOptionsExpr(),
                            "nixos options");
   }
diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index d9c1670..54606f5 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -1,4 +1,6 @@
+#include "nixd/CommandLine/Options.h"
 #include "nixd/Controller/Controller.h"
+#include "nixd/Eval/Launch.h"
 
 #include <nixf/Basic/Diagnostic.h>
 #include <nixf/Parse/Parser.h>
@@ -57,6 +59,35 @@ void Controller::actOnDocumentAdd(PathRef File,
   Action();
 }
 
+AttrSetClient *Controller::optionClient(const std::string &Name) {
+  if (auto It = Options.find(Name); It != Options.end()) {
+    if (AttrSetClient *Client = It->second->client())
+      return Client;
+    Options.erase(It);
+  }
+  std::unique_ptr<AttrSetClientProc> Worker;
+  startOption(Name, Worker);
+  if (!Worker)
+    return nullptr;
+  return (Options[Name] = std::move(Worker))->client();
+}
+
+Controller::~Controller() {
+  // Nobody waits for the answers of the workers any more, they might not come.
+  // Tests however end their input before they look at the output.
+  if (!LitTest) {
+    if (NixpkgsEval)
+      NixpkgsEval->stop();
+    for (const auto &[Name, Worker] : options())
+      Worker->stop();
+  }
+  Pool.join();
+
+  // The workers use other members until they have ended.
+  NixpkgsEval.reset();
+  Options.clear();
+}
+
 void Controller::createWorkDoneProgress(
     const lspserver::WorkDoneProgressCreateParams &Params) {
   if (ClientCaps.WorkDoneProgress)
diff --git a/nixd/lib/Eval/Launch.cpp b/nixd/lib/Eval/Launch.cpp
index eeb2c05..2742cf3 100644
--- a/nixd/lib/Eval/Launch.cpp
+++ b/nixd/lib/Eval/Launch.cpp
@@ -1,8 +1,12 @@
 #include "nixd/Eval/Launch.h"
 #include "nixd/CommandLine/Options.h"
 
+#include "lspserver/Logger.h"
+
 #include <llvm/Support/CommandLine.h>
 
+#include <system_error>
+
 using namespace llvm::cl;
 using namespace nixd;
 
@@ -23,10 +27,14 @@ opt<std::string> NixpkgsWorkerStderr{
 
 void nixd::startAttrSetEval(const std::string &Name,
                             std::unique_ptr<AttrSetClientProc> &Worker) {
-  Worker = std::make_unique<AttrSetClientProc>([&Name]() {
-    freopen(Name.c_str(), "w", stderr);
-    return execl(AttrSetClient::getExe(), "nixd-attrset-eval", nullptr);
-  });
+  try {
+    Worker = std::make_unique<AttrSetClientProc>([&Name]() {
+      freopen(Name.c_str(), "w", stderr);
+      return execl(AttrSetClient::getExe(), "nixd-attrset-eval", nullptr);
+    });
+  } catch (const std::system_error &E) {
+    lspserver::elog("cannot launch worker: {0}", E.what());
+  }
 }
 
 void nixd::startNixpkgs(std::unique_ptr<AttrSetClientProc> &NixpkgsEval) {
diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..61908c8 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -1,45 +1,68 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <cerrno>
+#include <csignal>
 
+#include <fcntl.h>
+#include <mutex>
 #include <system_error>
 #include <unistd.h>
 
 int nixd::forkPiped(int &In, int &Out, int &Err) {
   static constexpr int READ = 0;
   static constexpr int WRITE = 1;
-  int PipeIn[2];
-  int PipeOut[2];
-  int PipeErr[2];
-  if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
-    throw std::system_error(errno, std::generic_category());
 
-  pid_t Child = fork();
+  // Pipes[N] becomes the file descriptor N of the child.
+  int Pipes[3][2] = {{-1, -1}, {-1, -1}, {-1, -1}};
+
+  // Other children must not inherit these descriptors, otherwise the pipes
+  // stay open as long as they live.
+  static std::mutex Lock;
+  std::lock_guard _(Lock);
+
+  bool Ok = true;
+  for (auto &Pipe : Pipes) {
+    Ok = Ok && pipe(Pipe) != -1;
+    for (int FD : Pipe) {
+      if (Ok)
+        Ok = fcntl(FD, F_SETFD, FD_CLOEXEC) != -1;
+    }
+  }
+
+  pid_t Child = Ok ? fork() : -1;
+
+  if (Child == -1) {
+    int Errno = errno;
+    for (auto &Pipe : Pipes) {
+      for (int FD : Pipe) {
+        if (FD != -1)
+          close(FD);
+      }
+    }
+    throw std::system_error(Errno, std::generic_category());
+  }
 
   if (Child == 0) {
     // Redirect stdin, stdout, stderr.
-    close(PipeIn[WRITE]);
-    close(PipeOut[READ]);
-    close(PipeErr[READ]);
-    dup2(PipeIn[READ], STDIN_FILENO);
-    dup2(PipeOut[WRITE], STDOUT_FILENO);
-    dup2(PipeErr[WRITE], STDERR_FILENO);
-    close(PipeIn[READ]);
-    close(PipeOut[WRITE]);
-    close(PipeErr[WRITE]);
+    dup2(Pipes[STDIN_FILENO][READ], STDIN_FILENO);
+    dup2(Pipes[STDOUT_FILENO][WRITE], STDOUT_FILENO);
+    dup2(Pipes[STDERR_FILENO][WRITE], STDERR_FILENO);
+    for (auto &Pipe : Pipes) {
+      close(Pipe[READ]);
+      close(Pipe[WRITE]);
+    }
+    // The parent may ignore this, programs do not expect that.
+    std::signal(SIGPIPE, SIG_DFL);
     // Child process.
     return 0;
   }
 
-  close(PipeIn[READ]);
-  close(PipeOut[WRITE]);
-  close(PipeErr[WRITE]);
-
-  if (Child == -1)
-    throw std::system_error(errno, std::generic_category());
+  close(Pipes[STDIN_FILENO][READ]);
+  close(Pipes[STDOUT_FILENO][WRITE]);
+  close(Pipes[STDERR_FILENO][WRITE]);
 
-  In = PipeIn[WRITE];
-  Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  In = Pipes[STDIN_FILENO][WRITE];
+  Out = Pipes[STDOUT_FILENO][READ];
+  Err = Pipes[STDERR_FILENO][READ];
   return Child;
 }
diff --git a/nixd/lib/Support/StreamProc.cpp b/nixd/lib/Support/StreamProc.cpp
index 6963b0d..d3d2e62 100644
--- a/nixd/lib/Support/StreamProc.cpp
+++ b/nixd/lib/Support/StreamProc.cpp
@@ -1,6 +1,12 @@
 #include "nixd/Support/StreamProc.h"
 #include "nixd/Support/ForkPiped.h"
 
+#include <cerrno>
+#include <csignal>
+
+#include <sys/wait.h>
+#include <unistd.h>
+
 using namespace nixd;
 using namespace util;
 using namespace lspserver;
@@ -21,9 +27,19 @@ StreamProc::StreamProc(const std::function<int()> &Action) {
 
   pid_t Child = forkPiped(In, Out, Err);
   if (Child == 0)
-    exit(Action());
+    _exit(Action());
 
   // Parent process.
   Proc = std::make_unique<PipedProc>(Child, In, Out, Err);
   Stream = std::make_unique<llvm::raw_fd_ostream>(In, false);
 }
+
+void StreamProc::kill() const { ::kill(Proc->PID, SIGKILL); }
+
+StreamProc::~StreamProc() {
+  // The process may have died before it read everything.
+  Stream->clear_error();
+  kill();
+  while (waitpid(Proc->PID, nullptr, 0) == -1 && errno == EINTR)
+    ;
+}
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 9417cf4..6092383 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -9,6 +9,8 @@
 #include <llvm/ADT/ArrayRef.h>
 #include <llvm/Support/CommandLine.h>
 
+#include <csignal>
+
 using namespace lspserver;
 using namespace nixd;
 
@@ -70,6 +72,9 @@ int main(int argc, char *argv[]) {
   StreamLogger Logger(llvm::errs(), LogLevel);
   LoggingSession Session(Logger);
 
+  // Writing to a process which went away is an error, not the end of nixd.
+  std::signal(SIGPIPE, SIG_IGN);
+
   auto In = std::make_unique<lspserver::InboundPort>(STDIN_FILENO, InputStyle);
 
   auto Out = std::make_unique<lspserver::OutboundPort>(PrettyPrint);
-- 
2.43.0


From 19be60ad645196228fd30a4a37bc5e385a1ad185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 78/90] fix: run the formatter without blocking on its pipes,
 and answer every failure

---
 nixd/lib/Controller/Format.cpp | 183 +++++++++++++++++++++++----------
 1 file changed, 127 insertions(+), 56 deletions(-)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 7368e42..06f05db 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -6,21 +6,134 @@
 /// For now nixd only support "external" formatting. That is, invokes an
 /// external command and then let that process do formatting.
 
+#include "nixd/CommandLine/Options.h"
 #include "nixd/Controller/Controller.h"
+#include "nixd/Support/AutoCloseFD.h"
 #include "nixd/Support/ForkPiped.h"
 
 #include <boost/asio/post.hpp>
+
+#include <csignal>
+#include <functional>
+#include <system_error>
+
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
+#include <unistd.h>
 
 using namespace nixd;
 using namespace lspserver;
 
+namespace {
+
+/// \brief Feed \p Code to the formatter, and get everything it writes.
+/// \param Cancelled polled from time to time, kills the formatter.
+llvm::Expected<std::string>
+runFormatter(const std::vector<std::string> &Command, llvm::StringRef Code,
+             const std::function<bool()> &Cancelled) {
+  // Convert vectors to syscall form. This should be cheap.
+  std::vector<char *> Syscall;
+  Syscall.reserve(Command.size() + 1);
+  for (const auto &Str : Command) {
+    // For compatibility with existing C code.
+    Syscall.emplace_back(const_cast<char *>(Str.c_str()));
+  }
+
+  // Null terminator.
+  Syscall.emplace_back(nullptr);
+
+  int In;
+  int Out;
+  int Err;
+  pid_t Child;
+  try {
+    Child = forkPiped(In, Out, Err);
+  } catch (const std::system_error &E) {
+    return error("cannot launch formatting command {0}: {1}", Command[0],
+                 E.what());
+  }
+  if (Child == 0) {
+    execvp(Syscall[0], Syscall.data());
+    _exit(127);
+  }
+
+  std::string Response;
+  {
+    util::AutoCloseFD OwnedOut(Out);
+    util::AutoCloseFD OwnedErr(Err);
+    fcntl(In, F_SETFL, fcntl(In, F_GETFL) | O_NONBLOCK);
+
+    // The formatter may write before it has read everything, and may write
+    // errors. Serve all of its pipes at once, or it might block forever.
+    std::string Message;
+    pollfd FDs[] = {{In, POLLOUT, 0}, {Out, POLLIN, 0}, {Err, POLLIN, 0}};
+    auto CloseInput = [&]() {
+      close(In);
+      FDs[0].fd = -1; // Ignored by poll(2).
+    };
+    if (Code.empty())
+      CloseInput();
+
+    while (FDs[1].fd != -1 || FDs[2].fd != -1) {
+      int Ready = poll(FDs, std::size(FDs), /*timeout=*/1000);
+      if (Cancelled())
+        kill(Child, SIGKILL);
+      if (Ready <= 0)
+        continue;
+
+      if (FDs[0].revents) {
+        ssize_t Written = write(In, Code.data(), Code.size());
+        if (Written >= 0)
+          Code = Code.drop_front(Written);
+        bool Retry = Written < 0 && (errno == EINTR || errno == EAGAIN);
+        // The formatter is free not to read its input.
+        if (Code.empty() || (Written < 0 && !Retry))
+          CloseInput();
+      }
+
+      for (int I : {1, 2}) {
+        if (!FDs[I].revents)
+          continue;
+        char Buf[4096];
+        ssize_t Read = read(FDs[I].fd, Buf, sizeof(Buf));
+        if (Read > 0)
+          (I == 1 ? Response : Message).append(Buf, Read);
+        else if (Read == 0 || (errno != EINTR && errno != EAGAIN))
+          FDs[I].fd = -1;
+      }
+    }
+    if (FDs[0].fd != -1)
+      CloseInput();
+    if (!Message.empty())
+      log("formatting command {0} says: {1}", Command[0], Message);
+  }
+
+  // And, wait for the process.
+  int Exit = 0;
+  while (waitpid(Child, &Exit, 0) == -1) {
+    if (errno != EINTR)
+      return error("formatting command {0} was lost", Command[0]);
+  }
+
+  if (Exit != 0)
+    return error("formatting {0} command exited with {1}", Command[0], Exit);
+  return Response;
+}
+
+} // namespace
+
 void Controller::onFormat(const DocumentFormattingParams &Params,
                           Callback<std::vector<TextEdit>> Reply) {
   auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
-    lspserver::PathRef File = Params.textDocument.uri.file();
-    const std::string &Code = *Store.getDraft(File)->Contents;
-    // Invokes another process and then read it's stdout.
+    // Keep the draft, the document may be changed in the meantime.
+    const auto Draft = Store.getDraft(Params.textDocument.uri.file());
+    if (!Draft) {
+      Reply(error("cannot format a document which is not open"));
+      return;
+    }
+    const std::string &Code = *Draft->Contents;
+
     std::vector<std::string> FormatCommand;
     {
       // Read from config, get format options.
@@ -33,68 +146,26 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
-    // Convert vectors to syscall form. This should be cheap.
-    std::vector<char *> Syscall;
-    Syscall.reserve(FormatCommand.size());
-    for (const auto &Str : FormatCommand) {
-      // For compatibility with existing C code.
-      Syscall.emplace_back(const_cast<char *>(Str.c_str()));
-    }
-
-    // Null terminator.
-    Syscall.emplace_back(nullptr);
-
-    int In;
-    int Out;
-    int Err;
-
-    pid_t Child = forkPiped(In, Out, Err);
-    if (Child == 0) {
-      execvp(Syscall[0], Syscall.data());
-      exit(-1);
-    }
-    // Firstly, send the document to the process stdin.
-    // Invoke POSIX write(2) to do such thing.
-    const char *Start = Code.c_str();
-    const char *End = Code.c_str() + Code.size();
-    while (Start != End) {
-      if (long Writen = write(In, Start, End - Start); Writen != -1) {
-        Start += Writen;
-      } else {
-        throw std::system_error(errno, std::generic_category());
-      }
-    }
-    close(In);
-
-    // And, wait for the process.
-    int Exit = 0;
-    waitpid(Child, &Exit, 0);
-
-    if (Exit != 0) {
-      Reply(error("formatting {0} command exited with {1}", FormatCommand[0],
-                  Exit));
+    // Invokes another process and then read it's stdout.
+    auto Response = runFormatter(FormatCommand, Code,
+                                 [this]() { return isClosed() && !LitTest; });
+    if (!Response) {
+      Reply(Response.takeError());
       return;
     }
 
-    // Okay, read stdout from it.
-    std::string Response;
-    while (true) {
-      char Buf[1024];
-      auto Read = read(Out, Buf, sizeof(Buf));
-      if (Read == 0)
-        break;
-      if (Read < 0)
-        throw std::system_error(errno, std::generic_category());
-      // Otherwise, append it to "response"
-      Response.append(Buf, Read);
+    if (!llvm::json::isUTF8(*Response)) {
+      Reply(error("formatting {0} command wrote text which is not UTF-8",
+                  FormatCommand[0]));
+      return;
     }
 
-    if (Response == Code) {
+    if (*Response == Code) {
       Reply(std::vector<TextEdit>{});
       return;
     }
 
-    TextEdit E{{{0, 0}, {INT_MAX, INT_MAX}}, Response};
+    TextEdit E{{{0, 0}, {INT_MAX, INT_MAX}}, *Response};
     Reply(std::vector{E});
   };
 
-- 
2.43.0


From 431ee2138222f348179d76db48eb4cc4b92ee17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 79/90] fix: exit status, clients of other users, and repeated
 initialization

---
 nixd/include/nixd/Controller/Controller.h | 4 ++++
 nixd/lib/Controller/LifeTime.cpp          | 8 ++++++++
 nixd/lspserver/src/Connection.cpp         | 3 ++-
 nixd/tools/nixd.cpp                       | 3 ++-
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 68300ba..bc76d21 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -169,6 +169,8 @@ private:
 
   void onInitialized(const lspserver::InitializedParams &Params);
 
+  bool Initialized = false;
+
   bool ReceivedShutdown = false;
 
   void onShutdown(const lspserver::NoParams &,
@@ -265,6 +267,8 @@ public:
 
   ~Controller() override;
 
+  [[nodiscard]] bool receivedShutdown() const { return ReceivedShutdown; }
+
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
 
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index f3c9ae1..685b1a0 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -88,6 +88,14 @@ void Controller::
         [[maybe_unused]] const InitializeParams &Params,
         Callback<Value> Reply) {
 
+  // The workers are in use since the first one.
+  if (Initialized) {
+    Reply(llvm::make_error<LSPError>("server is already initialized",
+                                     ErrorCode::InvalidRequest));
+    return;
+  }
+  Initialized = true;
+
   Object ServerCaps{
       {{"textDocumentSync",
         llvm::json::Object{
diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 5ca5f41..447f6ef 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -205,7 +205,8 @@ bool readLine(int fd, const std::atomic<bool> &Close,
       }
     }
 
-    if (kill(ClientProcessID, 0) < 0) {
+    // The process exists, if we are not permitted to send it signals.
+    if (kill(ClientProcessID, 0) < 0 && errno == ESRCH) {
       // Parent died.
       return false;
     }
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 6092383..87f3020 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -84,5 +84,6 @@ int main(int argc, char *argv[]) {
 
   Controller->run();
 
-  return 0;
+  // Sessions should be shut down before they end. Tests just end.
+  return Controller->receivedShutdown() || LitTest ? 0 : 1;
 }
-- 
2.43.0


From 603e74bb1c31c589cc67943bae12e1702e3ae578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 80/90] fix: ignore empty configuration answers

---
 nixd/lib/Controller/Configuration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 67a5046..9cb9868 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -90,8 +90,10 @@ void Controller::fetchConfig() {
     }
 
     // LSP response is a json array, just take the first.
-    if (Resp->kind() != llvm::json::Value::Array) {
-      lspserver::elog("workspace/configuration response is not an array: {0}",
+    if (Resp->kind() != llvm::json::Value::Array ||
+        Resp->getAsArray()->empty()) {
+      lspserver::elog("workspace/configuration response is not an array of "
+                      "configurations: {0}",
                       *Resp);
       return;
     }
-- 
2.43.0


From f57b8d70cf21e5d6198a56315025829f094299fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 81/90] fix: a later configuration replaces the earlier one
 entirely

---
 nixd/include/nixd/Controller/Controller.h | 11 ++++++-
 nixd/lib/Controller/Configuration.cpp     | 35 +++++++++++++++++------
 nixd/lib/Controller/LifeTime.cpp          | 10 +++----
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index bc76d21..2eb5555 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -49,6 +49,10 @@ private:
     return NixpkgsEval ? NixpkgsEval->client() : nullptr;
   }
 
+  /// What the workers evaluate unless it is configured.
+  static std::string getDefaultNixpkgsExpr();
+  static std::string getDefaultNixOSOptionsExpr();
+
   void evalExprWithProgress(AttrSetClient &Client, const EvalExprParams &Params,
                             std::string_view Description);
 
@@ -59,6 +63,11 @@ private:
   std::mutex ConfigLock;
   Configuration Config; // GUARDED_BY(ConfigLock)
 
+  // Number of configurations requested from the client.
+  unsigned ConfigRequests = 0;
+  // Which one of them is in effect.
+  unsigned ConfigRequest = 0; // GUARDED_BY(ConfigLock)
+
   llvm::unique_function<void(const lspserver::ConfigurationParams &,
                              lspserver::Callback<llvm::json::Value>)>
       WorkspaceConfiguration;
@@ -69,7 +78,7 @@ private:
   /// \brief Update the configuration, do necessary adjusting for updates.
   ///
   /// \example If asked to change eval settings, send eval requests to workers.
-  void updateConfig(Configuration NewConfig);
+  void updateConfig(Configuration NewConfig, unsigned Request);
 
   /// \brief Get configuration from LSP client. Update the config.
   void fetchConfig();
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 9cb9868..b98965e 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -53,18 +53,36 @@ void Controller::onDidChangeConfiguration(
   fetchConfig();
 }
 
-void Controller::updateConfig(Configuration NewConfig) {
+void Controller::updateConfig(Configuration NewConfig, unsigned Request) {
   std::lock_guard G(ConfigLock);
+  // Configurations might be handled out of order, keep the latest one.
+  if (Request < ConfigRequest)
+    return;
+  ConfigRequest = Request;
+  Configuration OldConfig = std::move(Config);
   Config = std::move(NewConfig);
 
-  if (!Config.nixpkgs.expr.empty()) {
-    /// Evaluate nixpkgs and options, using user-provided config.
+  // Evaluate nixpkgs and options, using user-provided config. Go back to the
+  // defaults if something is no longer configured.
+  if (!Config.nixpkgs.expr.empty() || !OldConfig.nixpkgs.expr.empty()) {
     if (AttrSetClient *Client = nixpkgsClient()) {
-      evalExprWithProgress(*Client, Config.nixpkgs.expr, "nixpkgs entries");
+      evalExprWithProgress(*Client,
+                           Config.nixpkgs.expr.empty() ? getDefaultNixpkgsExpr()
+                                                       : Config.nixpkgs.expr,
+                           "nixpkgs entries");
     }
   }
-  if (!Config.options.empty()) {
+  {
     std::lock_guard _(OptionsLock);
+    for (const auto &[Name, Opt] : OldConfig.options) {
+      if (Config.options.contains(Name))
+        continue;
+      if (Name != "nixos")
+        Options.erase(Name);
+      else if (AttrSetClient *Client = optionClient(Name))
+        evalExprWithProgress(*Client, getDefaultNixOSOptionsExpr(),
+                             "nixos options");
+    }
     // For each option configuration, update the worker.
     for (const auto &[Name, Opt] : Config.options) {
       if (AttrSetClient *Client = optionClient(Name))
@@ -83,7 +101,8 @@ void Controller::updateConfig(Configuration NewConfig) {
 }
 
 void Controller::fetchConfig() {
-  auto Action = [this](llvm::Expected<llvm::json::Value> Resp) mutable {
+  auto Action = [this, Request = ++ConfigRequests](
+                    llvm::Expected<llvm::json::Value> Resp) mutable {
     if (!Resp) {
       elog("workspace/configuration: {0}", Resp.takeError());
       return;
@@ -100,7 +119,7 @@ void Controller::fetchConfig() {
     const Value &FirstConfig = Resp->getAsArray()->front();
 
     // Run this job in the thread pool. Don't block input thread.
-    auto ConfigAction = [this, FirstConfig]() mutable {
+    auto ConfigAction = [this, FirstConfig, Request]() mutable {
       // Parse the config
       Configuration NewConfig;
       llvm::json::Path::Root P;
@@ -110,7 +129,7 @@ void Controller::fetchConfig() {
       }
 
       // OK, update the config
-      updateConfig(std::move(NewConfig));
+      updateConfig(std::move(NewConfig), Request);
     };
 
     boost::asio::post(Pool, std::move(ConfigAction));
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 685b1a0..f388efc 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -40,23 +40,23 @@ opt<bool> EnableSemanticTokens{"semantic-tokens",
                                desc("Enable/Disable semantic tokens"),
                                init(false), cat(NixdCategory)};
 
+} // namespace
+
 // Here we try to wrap nixpkgs, nixos options in a single emtpy attrset in test.
-std::string getDefaultNixpkgsExpr() {
+std::string Controller::getDefaultNixpkgsExpr() {
   if (LitTest && !DefaultNixpkgsExpr.getNumOccurrences()) {
     return "{ }";
   }
   return DefaultNixpkgsExpr;
 }
 
-std::string getDefaultNixOSOptionsExpr() {
+std::string Controller::getDefaultNixOSOptionsExpr() {
   if (LitTest && !DefaultNixOSOptionsExpr.getNumOccurrences()) {
     return "{ }";
   }
   return DefaultNixOSOptionsExpr;
 }
 
-} // namespace
-
 void Controller::evalExprWithProgress(AttrSetClient &Client,
                                       const EvalExprParams &Params,
                                       std::string_view Description) {
@@ -195,7 +195,7 @@ void Controller::
                            "nixos options");
   }
   try {
-    Config = parseCLIConfig();
+    updateConfig(parseCLIConfig(), /*Request=*/0);
   } catch (LLVMErrorException &Err) {
     lspserver::elog("parse CLI config error: {0}, {1}", Err.what(),
                     Err.takeError());
-- 
2.43.0


From 9536e32da1b522d1c14e4c4fbd7473b2e6ea38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 82/90] fix: the default expression of nixos options if none is
 configured

---
 nixd/lib/Controller/Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index b98965e..ce2f7d8 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -85,8 +85,10 @@ void Controller::updateConfig(Configuration NewConfig, unsigned Request) {
     }
     // For each option configuration, update the worker.
     for (const auto &[Name, Opt] : Config.options) {
+      bool Default = Name == "nixos" && Opt.expr.empty();
       if (AttrSetClient *Client = optionClient(Name))
-        evalExprWithProgress(*Client, Opt.expr, Name);
+        evalExprWithProgress(
+            *Client, Default ? getDefaultNixOSOptionsExpr() : Opt.expr, Name);
     }
   }
 
-- 
2.43.0


From 669593385ad96d6c4e53dc81ec89a194984012ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 83/90] fix: null is a configuration without settings

---
 nixd/lib/Controller/Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index ce2f7d8..b5dc8f2 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -122,10 +122,11 @@ void Controller::fetchConfig() {
 
     // Run this job in the thread pool. Don't block input thread.
     auto ConfigAction = [this, FirstConfig, Request]() mutable {
-      // Parse the config
+      // Parse the config. Clients answer null if nothing is configured.
       Configuration NewConfig;
       llvm::json::Path::Root P;
-      if (!fromJSON(FirstConfig, NewConfig, P)) {
+      if (FirstConfig.kind() != Value::Null &&
+          !fromJSON(FirstConfig, NewConfig, P)) {
         elog("workspace/configuration: parse error {0}", P.getError());
         return;
       }
-- 
2.43.0


From e0ddddc236cae635e6b31cfc734d2a00e68235e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 84/90] fix: publish diagnostics together with recording them

---
 nixd/lib/Controller/Support.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index 54606f5..fbc3c6b 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -26,8 +26,8 @@ void Controller::actOnDocumentAdd(PathRef File,
                                   std::optional<int64_t> Version) {
   auto Action = [this, File = std::string(File), Version]() {
     auto Draft = Store.getDraft(File);
-    std::shared_ptr<const std::string> Src = Draft->Contents;
     assert(Draft && "Added document is not in the store?");
+    std::shared_ptr<const std::string> Src = Draft->Contents;
 
     std::vector<nixf::Diagnostic> Diagnostics;
     std::shared_ptr<nixf::Node> AST =
@@ -46,10 +46,11 @@ void Controller::actOnDocumentAdd(PathRef File,
     auto VLA = std::make_unique<nixf::VariableLookupAnalysis>(Diagnostics);
     VLA->runOnAST(*AST);
 
-    publishDiagnostics(File, Version, *Src, Diagnostics);
-
     {
+      // Publish it together with the TU, a new configuration that comes between
+      // them would publish the diagnostics of the previous TU.
       std::lock_guard G(TUsLock);
+      publishDiagnostics(File, Version, *Src, Diagnostics);
       TUs.insert_or_assign(
           File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
                                         std::nullopt, std::move(VLA), Src));
-- 
2.43.0


From fe62cfe125317cc0524c54d30f3c5ccdde2d2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 85/90] fix: names in dynamic names of attribute sets are not
 nested values

---
 nixd/lib/Controller/AST.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index 4d45247..56bad4d 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -67,11 +67,6 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (Up->kind() != Node::NK_ExprAttrs)
     return;
 
-  std::vector<std::string_view> Basic;
-  // Recursively search up all nested entries
-  if (!PM.isRoot(*Up))
-    getValueAttrPath(*Up, PM, Path);
-
   // Find out how "N" gets nested.
   const auto &UpAttrs = static_cast<const nixf::ExprAttrs &>(*Up);
   assert(UpAttrs.binds() && "empty binds cannot nest anything!");
@@ -82,12 +77,14 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     assert(Attr->kind() == Node::NK_Binding);
     const auto &Binding = static_cast<const nixf::Binding &>(*Attr);
     if (Binding.value().get() == &N) {
+      // Recursively search up all nested entries
+      if (!PM.isRoot(*Up))
+        getValueAttrPath(*Up, PM, Path);
       getSelectAttrPath(*Binding.path().names().back(), PM, Path);
       return;
     }
   }
-  assert(false && "must have corresbonding value");
-  __builtin_unreachable();
+  // "N" is not a value here, e.g. it is in a dynamic name.
 }
 
 void getNestedAttrPath(const nixf::AttrName &N,
-- 
2.43.0


From 01a71ad6f204cb514229814a0b8227460c5eb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 86/90] fix: completing the option name "config" ended the
 server

---
 nixd/lib/Controller/AST.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index 56bad4d..f1c1ac3 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -366,7 +366,8 @@ nixd::findAttrPathForOptions(const nixf::Node &N,
   if (R == FindAttrPathResult::OK) {
     // FIXME: Only do this in NixOS module files and in flakes only in module
     // functions passed to nixpkgs.lib.nixosSystem.
-    if (!Path.empty() && Path[0] == "config") {
+    // The name itself might still be typed, keep it if nothing follows.
+    if (Path.size() > 1 && Path[0] == "config") {
       Path.erase(Path.begin());
     }
   }
-- 
2.43.0


From bf7eb70128508dcd35f68f69bc9440e1243cf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 87/90] fix: ignore empty names in completion

---
 nixd/lib/Controller/Completion.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 591dd89..2f959fb 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -163,7 +163,8 @@ public:
     Ready.acquire();
     // Now we have "Names", use these to fill "Items".
     for (const auto &Name : Names) {
-      if (Name.starts_with(Params.Prefix)) {
+      // Items must have a label.
+      if (!Name.empty() && Name.starts_with(Params.Prefix)) {
         addItem(Items, CompletionItem{
                            .label = Name,
                            .kind = CompletionItemKind::Field,
@@ -253,6 +254,9 @@ public:
       return lspserver::TextEdit{.range = EditRange, .newText = NewText.str()};
     };
     for (const nixd::OptionField &Field : Names) {
+      // Items must have a label.
+      if (Field.Name.empty())
+        continue;
       if (!Field.Description) {
         addItem(Items, CompletionItem{
                            .label = Field.Name,
-- 
2.43.0


From 32269da2cca0c24cfafc055f3c450e36325f8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:01 +0000
Subject: [PATCH 88/90] fix: complete a name of a selection by the names before
 it

---
 nixd/lib/Controller/Completion.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 2f959fb..0a33445 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -427,12 +427,13 @@ void completeVarName(const lspserver::Range EditRange,
 }
 
 /// \brief Complete a "select" expression.
+/// \param N the name or dot at the caret.
 /// \param IsComplete Whether or not the last element of the selector is
 /// effectively incomplete.
 /// e.g.
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
-void completeSelect(const lspserver::Range EditRange,
+void completeSelect(const lspserver::Range EditRange, const nixf::Node &N,
                     const nixf::ExprSelect &Select, AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
@@ -453,8 +454,17 @@ void completeSelect(const lspserver::Range EditRange,
   NixpkgsCompletionProvider NCP(*Client);
 
   try {
-    Selector Sel =
-        idioms::mkSelector(Select, idioms::mkVarSelector(Var, VLA, PM));
+    Selector Sel = idioms::mkVarSelector(Var, VLA, PM);
+    if (Select.path()) {
+      // Names behind the caret do not matter.
+      for (const auto &Name : Select.path()->names()) {
+        if (Name->lCur().offset() >= N.rCur().offset())
+          break;
+        if (!Name->isStatic())
+          throw idioms::DynamicNameException();
+        Sel.emplace_back(Name->staticName());
+      }
+    }
     NCP.completePackages(EditRange, mkParams(Sel, IsComplete), List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
@@ -517,7 +527,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, N, Select, nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
-- 
2.43.0


From 1e6953bf76ebba3303684ff961f035c35ce3fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:01 +0000
Subject: [PATCH 89/90] fix: tolerate package positions that are not file:line

---
 nixd/lib/Controller/Definition.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index cac7767..4e7f48b 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -18,6 +18,7 @@
 
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
+#include <llvm/Support/Path.h>
 
 #include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Basic.h>
@@ -157,18 +158,20 @@ class NixpkgsDefinitionProvider {
   AttrSetClient &NixpkgsClient;
 
   /// \brief Parse nix-rolled location: file:line -> lsp Location
-  static Location parseLocation(std::string_view Position) {
-    // Firstly, find ":"
-    auto Pos = Position.find_first_of(':');
-    if (Pos == std::string_view::npos) {
-      return Location{
-          .uri = URIForFile::canonicalize(Position, Position),
-          .range = {{0, 0}, {0, 0}},
-      };
+  ///
+  /// The position is arbitrary text of the package, it might be something else.
+  static std::optional<Location> parseLocation(llvm::StringRef Position) {
+    lspserver::Position P{0, 0};
+    llvm::StringRef File = Position;
+    // Firstly, find the last ":", file names may contain it
+    if (auto Pos = Position.rfind(':'); Pos != llvm::StringRef::npos) {
+      if (!Position.substr(Pos + 1).getAsInteger(10, P.line) && P.line >= 0)
+        File = Position.take_front(Pos);
+      else
+        P.line = 0;
     }
-    int PosL = std::stoi(std::string(Position.substr(Pos + 1)));
-    lspserver::Position P{PosL, 0};
-    std::string_view File = Position.substr(0, Pos);
+    if (!llvm::sys::path::is_absolute(File))
+      return std::nullopt;
     return Location{
         .uri = URIForFile::canonicalize(File, File),
         .range = {P, P},
@@ -197,7 +200,8 @@ public:
 
     // Prioritize package location if it exists.
     if (const std::optional<std::string> &Position = Desc->PackageDesc.Position)
-      return Locations{parseLocation(*Position)};
+      if (std::optional<Location> Loc = parseLocation(*Position))
+        return Locations{std::move(*Loc)};
 
     // Use the location in "ValueMeta".
     if (const auto &Loc = Desc->Meta.Location)
-- 
2.43.0


From 01a25b2fbdb6dc8de919bd9deaab420684f6e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:01 +0000
Subject: [PATCH 90/90] fix: no package hints at names the file defines

---
 nixd/lib/Controller/InlayHints.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index bf7370a..535a95f 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -72,7 +72,11 @@ public:
     if (!N)
       return;
     if (N->kind() == Node::NK_ExprVar) {
-      if (havePackageScope(*N, VLA, PMA)) {
+      // Names defined in the file are not packages.
+      using ResultKind = VariableLookupAnalysis::LookupResultKind;
+      if (VLA.query(static_cast<const ExprVar &>(*N)).Kind ==
+              ResultKind::FromWith &&
+          havePackageScope(*N, VLA, PMA)) {
         if (!rangeOK(N->positionRange()))
           return;
         // Ask nixpkgs eval to provide it's information.
-- 
2.43.0

