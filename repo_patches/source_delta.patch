From a89fd2d6f300c2e53081154e6ecc4ed941f5fe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 01/58] fix: including a file after a reference file must not
 disable the reference

---
 src/state.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..0c90657 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -306,9 +306,12 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   {
     return true;
   }
-  Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
+  if (isReference)
+  {
+    // other includes do not impact the reference
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From 7ab9f72dfdae81e0224e37b62e276beaf6cd9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 02/58] fix: do not silently ignore a reference to an already
 included file

---
 src/state.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 0c90657..e083ab9 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -302,9 +302,16 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return false;
   }
 
+  if (isReference && d_hasReference)
+  {
+    // cannot use more than one reference
+    return false;
+  }
   if (!markIncluded(inputPath))
   {
-    return true;
+    // if already included, its assertions were not recorded, hence it cannot
+    // be made the reference
+    return !isReference;
   }
   if (isReference)
   {
-- 
2.43.0


From 7cd54fb6ecfdca6cb9d2de6a2498db59525072f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 03/58] fix: validate assumptions made within local scopes
 against the reference

---
 src/cmd_parser.cpp | 2 +-
 src/state.cpp      | 7 ++++---
 src/state.h        | 7 +++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..0360c3d 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -117,7 +117,7 @@ bool CmdParser::parseNextCommand()
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, tok == Token::ASSUME_PUSH))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index e083ab9..f880ac2 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -459,13 +459,14 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
   if (d_hasReference)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    // Do not care about those that are introduced by assume-push, which are
+    // local. Note this includes ordinary assumptions in such a scope.
+    if (!isPush)
     {
       Expr aa = a;
       if (!d_referenceNf.isNull())
diff --git a/src/state.h b/src/state.h
index 7174e27..c010f0b 100644
--- a/src/state.h
+++ b/src/state.h
@@ -73,8 +73,11 @@ class State
   bool includeFile(const std::string& s, bool isSignature);
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
-  /** add assumption */
-  bool addAssumption(const Expr& a);
+  /**
+   * Add assumption, where isPush is whether it was introduced via assume-push.
+   * Returns false if it is not allowed by the reference file.
+   */
+  bool addAssumption(const Expr& a, bool isPush);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From 6786db4c826a89918f4c24c981361f3de7048a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 04/58] fix: reject an input from stdin that leaves an
 assumption scope open

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..6cbc07b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -176,6 +176,10 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: input did not preserve assumption scope.";
+    }
   }
   else
   {
-- 
2.43.0


From d6745798b645dbf29f284c19935d2162b4c87619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 05/58] fix: list operations on left associative operators must
 preserve the order of children

---
 src/type_checker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..b32172e 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1027,10 +1027,12 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    // the children are ordered starting from the outermost application, hence
+    // we process in reverse order in this case as well
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From 825e865e812b10ed229c570f8c546618de463dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 06/58] fix: evaluate the body of a program case when it is a
 ground program application

---
 src/type_checker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index b32172e..017297c 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -692,7 +692,9 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
                   // push a context
-- 
2.43.0


From 707497643944a623c2817574e0bd6ca61d3c69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 07/58] fix: eo::extract on bitvectors with a position equal to
 the width

---
 src/literal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..bc4e5b1 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -356,14 +356,14 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
           case Kind::BINARY:
           {
             Integer dsize(args[0]->d_bv.getSize());
-            if (i1.sgn()<0 || i2.sgn()<0 || i1>dsize || dsize.sgn()==0)
+            if (i1.sgn()<0 || i2.sgn()<0 || i1>=dsize || dsize.sgn()==0)
             {
               return Literal(ka, BitVector(0));
             }
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 63393961a14cccfc698b0d9219edf51a8d61c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 08/58] fix: print the leading zeroes of hexadecimal literals

---
 src/util/bitvector.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..497eaa2 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -50,6 +50,15 @@ std::string BitVector::toString(unsigned int base) const
     // special case, if size is zero, then print nothing
     return "";
   }
+  else if (base == 16)
+  {
+    // print all digits, including leading zeroes
+    size_t ndigits = (d_size + 3) / 4;
+    if (ndigits > str.size())
+    {
+      return std::string(ndigits - str.size(), '0') + str;
+    }
+  }
   return str;
 }
 
-- 
2.43.0


From ad635e0dca26c7f6d54519f10117d2f64eec3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 09/58] fix: eo::to_str does not evaluate on numerals that are
 not code points

---
 src/literal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index bc4e5b1..8c70f88 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -450,6 +450,8 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
               return Literal(String(vec));
             }
           }
+          // not a valid code point
+          break;
         }
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
-- 
2.43.0


From 11517b709adb601be0f34cdfd52ff03d5a3d433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 10/58] fix: do not drop whitespace and control characters from
 string literals

---
 src/expr_parser.cpp | 4 +++-
 src/util/string.cpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..d193770 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -1118,7 +1118,9 @@ void ExprParser::unescapeString(std::string& s)
   s = s.erase(s.size() - 1, 1);
   for (size_t i = 0, ssize = s.size(); i < ssize; i++)
   {
-    if ((unsigned)s[i] > 127 && !isprint(s[i]))
+    // printable and whitespace characters are allowed
+    unsigned char c = static_cast<unsigned char>(s[i]);
+    if (!isprint(c) && c != '\t' && c != '\n' && c != '\r')
     {
       d_lex.parseError(
           "Extended/unprintable characters are not "
diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..ae1dc3c 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,8 +54,9 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
+  // if not a printable or whitespace character
+  bool isWhitespace = (ch == '\t' || ch == '\n' || ch == '\r');
+  if (ch > 127 || (ch < 32 && !isWhitespace))
   {
     std::stringstream serr;
     serr << "Illegal string character: \"" << ch
-- 
2.43.0


From 13619ffef6de6ae65ec2de2f2dc0afd08efe4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 11/58] fix: symbols like -/5 are not rational literals

---
 src/lexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..4274136 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,8 +411,9 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i>1 && i+1<tsize && ret==Token::INTEGER_LITERAL)
           {
+            // a digit is required before and after the separator
             if (d_token[i]=='.')
             {
               ret = Token::DECIMAL_LITERAL;
-- 
2.43.0


From 16a4fe37d7bc4ec5fd374358d391cc4c6d05ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 12/58] fix: do not drop the character following a keyword of a
 single letter

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 4274136..2261b31 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -292,7 +292,7 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From 48c1109897fcd7d1985bfa13c6e6aec298f66a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 13/58] fix: list operations do not evaluate on arguments that
 failed to evaluate

---
 src/type_checker.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 017297c..13e2b59 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1335,7 +1335,15 @@ Expr TypeChecker::evaluateLiteralOpInternal(
   {
     return d_null;
   }
-  // otherwise, maybe a list operation
+  // otherwise, maybe a list operation, which only evaluate on values
+  for (ExprValue* e : args)
+  {
+    if (e->isEvaluatable())
+    {
+      Trace("type_checker") << "...does not evaluate (stuck argument)" << std::endl;
+      return d_null;
+    }
+  }
   ExprValue* op = args[0];
   // strip off parameterized to look up AppInfo
   op = op->getKind()==Kind::PARAMETERIZED ? (*op)[1] : op;
-- 
2.43.0


From f10180e502040b899d3457c8f9e42b475eedddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 14/58] fix: an associative operator without nil applied to one
 argument is a partial application

---
 src/state.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index f880ac2..1586ae1 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1030,6 +1030,11 @@ Expr State::mkApplyAttr(AppInfo* ai,
                         || ai->d_attrCons == Attr::LEFT_ASSOC_NS_NIL);
         bool isNil = (isNsNil || ai->d_attrCons == Attr::RIGHT_ASSOC_NIL
                       || ai->d_attrCons == Attr::LEFT_ASSOC_NIL);
+        if (!isNil && nchild == 2)
+        {
+          // without a nil terminator, this is an ordinary partial application
+          return d_null;
+        }
         size_t i = 1;
         ExprValue* curr = vchildren[isLeft ? i : nchild - i];
         std::vector<ExprValue*> cc{hd, nullptr, nullptr};
-- 
2.43.0


From 5342b1ace6485d54a56acd17584349aeaace5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 15/58] fix: binding a name to an existing term must not change
 the meaning of that term

---
 src/expr_parser.cpp | 21 ++++++++++++++-
 src/state.cpp       | 64 +++++++++++++++++++++++++++++++++++----------
 src/state.h         | 12 +++++++++
 3 files changed, 82 insertions(+), 15 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index d193770..cebcc69 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -101,6 +101,12 @@ public:
   ParseCtx d_ctx;
   size_t d_nscopes;
   std::vector<Expr> d_args;
+  /**
+   * The terms bound to the name that was used for the head of the application
+   * we are parsing, if it was overloaded and it was last bound to a term with
+   * another name (e.g. via define or let).
+   */
+  std::vector<Expr> d_overloads;
   void pop(State& s)
   {
     // process the scope change
@@ -222,6 +228,12 @@ Expr ExprParser::parseExpr()
               }
             }
             pstack.emplace_back(ParseCtx::NEXT_ARG, nscopes, args);
+            if (nscopes == 0
+                && (!isSymbol(v.getKind()) || v.getSymbol() != name))
+            {
+              // State::mkExpr handles overloading for symbols only
+              pstack.back().d_overloads = d_state.getOverloads(name);
+            }
           }
           break;
           case Token::UNTERMINATED_QUOTED_SYMBOL:
@@ -244,7 +256,14 @@ Expr ExprParser::parseExpr()
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
         // Construct the application term specified by tstack.back()
-        ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
+        if (!sf.d_overloads.empty())
+        {
+          ret = d_state.mkOverloadedApply(sf.d_overloads, sf.d_args);
+        }
+        if (ret.isNull())
+        {
+          ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
+        }
         //typeCheck(ret);
         // pop the stack
         sf.pop(d_state);
diff --git a/src/state.cpp b/src/state.cpp
index 1586ae1..719b63c 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -679,16 +679,17 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       if (ai->d_isOverloaded)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
-        Expr ret = getOverloadInternal(ov, children, nullptr, true);
-        if (!ret.isNull())
+        // note the symbol is no longer overloaded if the scope in which the
+        // other symbols of the same name were bound was closed
+        std::vector<Expr> ov = getOverloads(ai->d_overloadName);
+        if (!ov.empty())
         {
-          Trace("overload") << "...found overload " << ret << std::endl;
-          return ret;
+          Expr ret = mkOverloadedApply(ov, children);
+          if (!ret.isNull())
+          {
+            return ret;
+          }
         }
-        Warning() << "No overload found when constructing application "
-                  << children << std::endl;
       }
       // Compute the "constructor term" for the operator, which may involve
       // type inference. We store the constructor term in consTerm and operator
@@ -825,11 +826,14 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         dummyChildren.emplace_back(mkSymbol(Kind::CONST, "tmp", t));
       }
+      std::vector<Expr> ov;
       if (ai!=nullptr && ai->d_isOverloaded)
+      {
+        ov = getOverloads(ai->d_overloadName);
+      }
+      if (!ov.empty())
       {
         Trace("overload") << "...overloaded" << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
         reto = getOverloadInternal(
             ov, dummyChildren, ftype.second.getValue(), false);
       }
@@ -1288,10 +1292,16 @@ bool State::bind(const std::string& name, const Expr& e)
   if (its!=d_symTable.end())
   {
     Trace("overload") << "** overload: " << name << std::endl;
-    // if already bound, mark as overloaded
-    AppInfo& ain = d_appData[e.getValue()];
-    ain.d_isOverloaded = true;
-    ain.d_overloadName = name;
+    // If already bound, mark as overloaded. We do this only if we are binding
+    // a symbol to its own name. Otherwise (e.g. for definitions and let),
+    // we are binding another name to an existing term, whose meaning when used
+    // via its own name should not be impacted by the binding.
+    if (isSymbol(e.getKind()) && e.getSymbol() == name)
+    {
+      AppInfo& ain = d_appData[e.getValue()];
+      ain.d_isOverloaded = true;
+      ain.d_overloadName = name;
+    }
     std::vector<Expr>& ov = d_overloads[name];
     if (ov.empty())
     {
@@ -1367,6 +1377,32 @@ Expr State::getVar(const std::string& name) const
   return d_null;
 }
 
+std::vector<Expr> State::getOverloads(const std::string& name) const
+{
+  std::map<std::string, std::vector<Expr>>::const_iterator it =
+      d_overloads.find(name);
+  if (it != d_overloads.end())
+  {
+    Assert(it->second.size() >= 2);
+    return it->second;
+  }
+  return {};
+}
+
+Expr State::mkOverloadedApply(const std::vector<Expr>& overloads,
+                              const std::vector<Expr>& children)
+{
+  Expr ret = getOverloadInternal(overloads, children, nullptr, true);
+  if (!ret.isNull())
+  {
+    Trace("overload") << "...found overload " << ret << std::endl;
+    return ret;
+  }
+  Warning() << "No overload found when constructing application " << children
+            << std::endl;
+  return ret;
+}
+
 Expr State::getBoundVar(const std::string& name, const Expr& type)
 {
   if (!type.isGround())
diff --git a/src/state.h b/src/state.h
index c010f0b..d2ede35 100644
--- a/src/state.h
+++ b/src/state.h
@@ -191,6 +191,18 @@ class State
   Expr mkLetBinderList(const ExprValue* ev, const std::vector<std::pair<Expr, Expr>>& lls);
   /** Get the variable with the given name or nullptr if it does not exist */
   Expr getVar(const std::string& name) const;
+  /**
+   * Get the terms currently bound to the given name, in the order they were
+   * bound. This is empty if the name is not overloaded.
+   */
+  std::vector<Expr> getOverloads(const std::string& name) const;
+  /**
+   * Make the application of the appropriate overload to children[1] ...
+   * children[n], where overloads is non-empty. Returns the null expression
+   * if no overload leads to a well-typed term.
+   */
+  Expr mkOverloadedApply(const std::vector<Expr>& overloads,
+                         const std::vector<Expr>& children);
   /**
    * Get the bound variable with the given type. This method always returns the
    * same variable for the same name and type.
-- 
2.43.0


From 97bcc48bea54b793086f425668e83c68375a7338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 16/58] fix: push and pop must respect the scopes of local
 assumptions

---
 src/cmd_parser.cpp | 15 +++++++++++++++
 src/state.cpp      | 11 +++++++++++
 src/state.h        |  6 ++++++
 3 files changed, 32 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 0360c3d..fd29794 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -878,6 +878,12 @@ bool CmdParser::parseNextCommand()
         {
           d_lex.parseError("Cannot pop at level zero");
         }
+        if (!d_state.isInnermostAssumptionScope())
+        {
+          // otherwise, we would close the scope of the push instead
+          d_lex.parseError(
+              "Cannot close an assumption scope before popping its scopes");
+        }
       }
       std::string name = d_eparser.parseSymbol();
       Trace("step") << "Check step " << name << std::endl;
@@ -1011,6 +1017,15 @@ bool CmdParser::parseNextCommand()
         {
           d_state.pushScope();
         }
+        else if (d_state.getScopeLevel() == 0)
+        {
+          d_lex.parseError("Cannot pop at level zero");
+        }
+        else if (d_state.isInnermostAssumptionScope())
+        {
+          // this scope is closed by step-pop only
+          d_lex.parseError("Cannot pop the scope of an assumption");
+        }
         else
         {
           d_state.popScope();
diff --git a/src/state.cpp b/src/state.cpp
index 719b63c..d854d61 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -201,6 +201,7 @@ void State::reset()
   d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsScopeLevel.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -267,6 +268,7 @@ void State::pushAssumptionScope()
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
+  d_assumptionsScopeLevel.push_back(d_declsSizeCtx.size());
 }
 
 void State::popAssumptionScope()
@@ -274,6 +276,7 @@ void State::popAssumptionScope()
   // process assumptions
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
+  d_assumptionsScopeLevel.pop_back();
   d_assumptions.resize(lastSize);
   // pop the parsing scope
   popScope();
@@ -1648,6 +1651,14 @@ size_t State::getAssumptionLevel() const
   return d_assumptionsSizeCtx.size();
 }
 
+size_t State::getScopeLevel() const { return d_declsSizeCtx.size(); }
+
+bool State::isInnermostAssumptionScope() const
+{
+  return !d_assumptionsScopeLevel.empty()
+         && d_assumptionsScopeLevel.back() == d_declsSizeCtx.size();
+}
+
 std::vector<Expr> State::getCurrentAssumptions() const
 {
   size_t start = d_assumptionsSizeCtx.empty() ? 0 : d_assumptionsSizeCtx.back();
diff --git a/src/state.h b/src/state.h
index d2ede35..c0fef8b 100644
--- a/src/state.h
+++ b/src/state.h
@@ -249,6 +249,10 @@ class State
   Expr getProgram(const ExprValue* ev);
   /** */
   size_t getAssumptionLevel() const;
+  /** Get the number of open scopes, including those of assumptions */
+  size_t getScopeLevel() const;
+  /** Is the innermost open scope the scope of an assumption? */
+  bool isInnermostAssumptionScope() const;
   /** */
   std::vector<Expr> getCurrentAssumptions() const;
   /** Get hash for expression */
@@ -386,6 +390,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The scope level of each open assumption scope */
+  std::vector<size_t> d_assumptionsScopeLevel;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From 8300c628ea893f14f75bb3625220cc12e1bebb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 17/58] fix: reject rules declared in the scope of a push
 instead of failing an assertion

---
 src/cmd_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index fd29794..8332231 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -376,6 +376,10 @@ bool CmdParser::parseNextCommand()
       {
         d_lex.parseError("Rules must be declared at assumption level zero");
       }
+      if (d_state.getScopeLevel() > 0)
+      {
+        d_lex.parseError("Rules must be declared at the global scope");
+      }
       d_state.pushScope();
       std::string name = d_eparser.parseSymbol();
       std::vector<Expr> vs =
-- 
2.43.0


From be3b7921ca5bcc6d3d2d12273a3725ec19fea1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 18/58] fix: the arguments of define-fun in a reference are
 variables, as in any other lambda

---
 src/cmd_parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 8332231..bc90317 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -581,8 +581,11 @@ bool CmdParser::parseNextCommand()
       std::vector<Expr> impls;
       std::vector<Expr> opaques;
       std::map<ExprValue*, AttrMap> pattrMap;
-      std::vector<Expr> vars =
-          d_eparser.parseAndBindSortedVarList(Kind::LAMBDA, pattrMap);
+      // The arguments of define-fun are variables, since they are bound by the
+      // lambda in the reference assertion below. For define, they are
+      // parameters.
+      std::vector<Expr> vars = d_eparser.parseAndBindSortedVarList(
+          tok == Token::DEFINE_FUN ? Kind::NONE : Kind::LAMBDA, pattrMap);
       if (vars.size() < pattrMap.size())
       {
         // If there were implicit variables, we go back and refine what is
-- 
2.43.0


From 3afa6fa1b20b1b0e914d5d653798a74d12b36035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 19/58] fix: reject define-fun when the symbol lambda is not a
 binder instead of crashing

---
 src/cmd_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index bc90317..10757be 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -631,7 +631,8 @@ bool CmdParser::parseNextCommand()
         {
           // We assume that a symbol named "lambda" has been defined as a binder.
           Expr lambda = d_state.getVar("lambda");
-          if (lambda.isNull())
+          if (lambda.isNull()
+              || d_state.getConstructorKind(lambda.getValue()) != Attr::BINDER)
           {
             d_lex.parseError("Expected symbol 'lambda' to be defined when parsing define-fun.");
           }
-- 
2.43.0


From 1ae52138c1fb9e19cfe7cc74b07d0c272c72ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 20/58] fix: do not write to a deleted node when removing a
 term from the expression trie

---
 src/expr_trie.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..323d3d1 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -45,25 +45,23 @@ public:
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      if (etd == nullptr || et->d_data != nullptr || et->d_children.size() > 1)
       {
-        // etd is the candidate trie to delete from
+        // this child is the candidate to erase, since et is also used for
+        // other data
         etd = et;
         itetd = itet;
       }
       Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
-    // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    // note this must be done before erasing, which may delete et
+    et->d_data = nullptr;
+    // erase the subtree for which et->d_data occurs in a single path
+    if (etd != nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From f201e841177cecb2f94b1afafbc1755882fccca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 21/58] fix: reset must restore the builtin symbols and forget
 rules and overloads

---
 src/state.cpp | 20 +++++++++++++++++++-
 src/state.h   |  4 ++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index d854d61..22ddda2 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -192,13 +192,31 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+
+  // remember the builtin symbols, which are restored when resetting
+  d_builtinSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  // the proof rules must outlive the reset, since the statistics refer to them
+  for (const std::map<std::string, Expr>& t : {d_symTable, d_ruleSymTable})
+  {
+    for (const std::pair<const std::string, Expr>& s : t)
+    {
+      if (s.second.getKind() == Kind::PROOF_RULE)
+      {
+        d_resetRules.push_back(s.second);
+      }
+    }
+  }
+  // restore the builtin symbols
+  d_symTable = d_builtinSymTable;
+  d_ruleSymTable.clear();
+  d_overloads.clear();
+  d_overloadedDecls.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeLevel.clear();
diff --git a/src/state.h b/src/state.h
index c0fef8b..f4b885d 100644
--- a/src/state.h
+++ b/src/state.h
@@ -360,8 +360,12 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The symbol table initially, which contains the builtin symbols only */
+  std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
+  /** The proof rules that were declared before a reset */
+  std::vector<Expr> d_resetRules;
   /** The (canonical) bound variables for binders */
   std::map<std::pair<std::string, const ExprValue*>, Expr> d_boundVars;
   /**
-- 
2.43.0


From 1499181e9332ad47185ad178f230ae1a34542b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 22/58] fix: report the open assumption of an included file
 also if it leaves further scopes open

---
 src/state.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 22ddda2..18c4371 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -361,11 +361,14 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   Trace("state") << "...finished" << std::endl;
   if (getAssumptionLevel()!=0)
   {
-    Assert(!d_declsSizeCtx.empty() && d_declsSizeCtx.back() < d_decls.size());
+    // the first declaration of the innermost assumption scope, note there may
+    // be further scopes that are open within it
+    size_t index = d_declsSizeCtx[d_assumptionsScopeLevel.back() - 1];
+    Assert(index < d_decls.size());
     EO_FATAL() << "Including file " << inputPath.getRawPath()
                << " did not preserve assumption scope. The most recent open "
                   "assumption was "
-               << d_decls[d_declsSizeCtx.back()] << ".";
+               << d_decls[index] << ".";
   }
   if (d_plugin != nullptr)
   {
-- 
2.43.0


From 16368e00881b1c831da6ab23a90947dcf7a34652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 23/58] fix: do not take the byte 0xFF in a file for its end

---
 src/lexer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..77fda1a 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,7 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +110,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From db0f6be3a3230a52194135b66c8259f0c20666b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 24/58] fix: reject an input that cannot be read, such as a
 directory

---
 src/lexer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer.h b/src/lexer.h
index 77fda1a..c8e5d93 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -114,6 +114,11 @@ class Lexer
         d_bufferPos = 1;
       }
     }
+    if (d_ch == EOF && d_istream->bad())
+    {
+      // e.g. if the input is a directory, which is not an empty input
+      parseError("Error reading the input");
+    }
     return d_ch;
   }
   /** Get the next character */
-- 
2.43.0


From b9848f7860afbc4d3356ea4299e9a0c766f5d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 25/58] fix: eo::var and eo::nameof must not alter the
 characters of a name

---
 src/type_checker.cpp |  2 +-
 src/util/string.cpp  | 31 ++++++++++++++++++-------------
 src/util/string.h    |  7 +++++++
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 13e2b59..3a52715 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1219,7 +1219,7 @@ Expr TypeChecker::evaluateLiteralOpInternal(
         if (!tt.isNull() && tt.getKind()==Kind::TYPE)
         {
           const Literal* l = args[0]->asLiteral();
-          return d_state.getBoundVar(l->d_str.toString(), type);
+          return d_state.getBoundVar(l->d_str.toName(), type);
         }
       }
     }
diff --git a/src/util/string.cpp b/src/util/string.cpp
index ae1dc3c..fe14b3e 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,19 +54,7 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable or whitespace character
-  bool isWhitespace = (ch == '\t' || ch == '\n' || ch == '\r');
-  if (ch > 127 || (ch < 32 && !isWhitespace))
-  {
-    std::stringstream serr;
-    serr << "Illegal string character: \"" << ch
-         << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
-  }
-  else
-  {
-    str.push_back(static_cast<unsigned>(ch));
-  }
+  str.push_back(static_cast<unsigned>(ch));
 }
 
 std::vector<unsigned> String::toInternal(const std::string& s,
@@ -215,6 +203,23 @@ std::string String::toString(bool useEscSequences) const {
   return str.str();
 }
 
+std::string String::toName() const
+{
+  std::stringstream str;
+  for (unsigned c : d_str)
+  {
+    if (c < 256)
+    {
+      str << static_cast<char>(c);
+    }
+    else
+    {
+      str << "\\u{" << std::hex << c << "}";
+    }
+  }
+  return str.str();
+}
+
 bool String::isLeq(const String &y) const
 {
   for (unsigned i = 0; i < size(); ++i)
diff --git a/src/util/string.h b/src/util/string.h
index 97a120a..a99c6af 100644
--- a/src/util/string.h
+++ b/src/util/string.h
@@ -84,6 +84,13 @@ class String
    *    cvc5::internal::String( s ).toString() = s.
    */
   std::string toString(bool useEscSequences = false) const;
+  /**
+   * Converts this string to the name of a symbol, such that for all
+   * std::string s, we have that String( s ).toName() = s. Characters that are
+   * not representable in a std::string are converted to unicode escape
+   * sequences.
+   */
+  std::string toName() const;
   /** is less than or equal to string y */
   bool isLeq(const String& y) const;
   /** Return the length of the string */
-- 
2.43.0


From 5bf4cd29159015367949889a1461ef2ce9018a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 26/58] fix: a term must keep its hash when it is discarded and
 constructed again

---
 src/state.cpp | 1 +
 src/state.h   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 18c4371..4df4d25 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1697,6 +1697,7 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  d_hashedExprs.emplace_back(e);
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index f4b885d..f05d167 100644
--- a/src/state.h
+++ b/src/state.h
@@ -401,6 +401,11 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /**
+   * The expressions in the domain of the above map, which are not deleted so
+   * that they have the same hash when they are constructed again.
+   */
+  std::vector<Expr> d_hashedExprs;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From 99fcd933afb2d6e87c580913616a61498f1fad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 27/58] fix: reject function types over terms that are not
 types

---
 src/type_checker.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 3a52715..5cbdd2a 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -247,9 +247,25 @@ Expr TypeChecker::getTypeInternal(ExprValue* e, std::ostream* out)
       Assert(!ret.isNull());
       return d_state.mkFunctionType(args, ret);
     }
+    case Kind::FUNCTION_TYPE:
+      // the arguments and return of a function must be types
+      for (ExprValue* c : e->d_children)
+      {
+        ExprValue* ct = d_state.lookupType(c);
+        Assert(ct != nullptr);
+        if (!c->isEvaluatable() && c->getKind() != Kind::QUOTE_TYPE
+            && ct->isGround() && ct->getKind() != Kind::TYPE)
+        {
+          if (out)
+          {
+            (*out) << "Non-type " << Expr(c) << " in function type";
+          }
+          return d_null;
+        }
+      }
+      return d_state.mkType();
     case Kind::TYPE:
     case Kind::BOOL_TYPE:
-    case Kind::FUNCTION_TYPE:
     case Kind::PROGRAM_TYPE:
     case Kind::ANY: return d_state.mkType();
     case Kind::PROOF:
-- 
2.43.0


From 8be20d36d73414e3d1c94f7c2c0def95331d6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 28/58] fix: a name bound to an overloaded symbol denotes that
 symbol only

---
 src/expr_parser.cpp | 8 +++++++-
 src/state.cpp       | 6 ++++--
 src/state.h         | 9 +++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index cebcc69..524c084 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -107,6 +107,11 @@ public:
    * another name (e.g. via define or let).
    */
   std::vector<Expr> d_overloads;
+  /**
+   * Whether the name that was used for the head of the application we are
+   * parsing is the name of that symbol.
+   */
+  bool d_usesOwnName = true;
   void pop(State& s)
   {
     // process the scope change
@@ -233,6 +238,7 @@ Expr ExprParser::parseExpr()
             {
               // State::mkExpr handles overloading for symbols only
               pstack.back().d_overloads = d_state.getOverloads(name);
+              pstack.back().d_usesOwnName = false;
             }
           }
           break;
@@ -262,7 +268,7 @@ Expr ExprParser::parseExpr()
         }
         if (ret.isNull())
         {
-          ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
+          ret = d_state.mkExpr(Kind::APPLY, sf.d_args, sf.d_usesOwnName);
         }
         //typeCheck(ret);
         // pop the stack
diff --git a/src/state.cpp b/src/state.cpp
index 4df4d25..c36fce9 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -661,7 +661,9 @@ ExprValue* State::mkSymbolInternal(Kind k,
   return v;
 }
 
-Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
+Expr State::mkExpr(Kind k,
+                   const std::vector<Expr>& children,
+                   bool useOverloads)
 {
   std::vector<ExprValue*> vchildren;
   for (const Expr& c : children)
@@ -700,7 +702,7 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
+      if (ai->d_isOverloaded && useOverloads)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
         // note the symbol is no longer overloaded if the scope in which the
diff --git a/src/state.h b/src/state.h
index f05d167..831cc1f 100644
--- a/src/state.h
+++ b/src/state.h
@@ -138,8 +138,13 @@ class State
   Expr mkSelf() const;
   /** Make pair */
   Expr mkPair(const Expr& t1, const Expr& t2);
-  /** */
-  Expr mkExpr(Kind k, const std::vector<Expr>& children);
+  /**
+   * Make expression. If useOverloads is false, we do not consider the other
+   * symbols having the same name as the head symbol of an application.
+   */
+  Expr mkExpr(Kind k,
+              const std::vector<Expr>& children,
+              bool useOverloads = true);
   /** make true */
   Expr mkTrue() const;
   /** make false */
-- 
2.43.0


From 2170526a89c474a4f7f07d822c1c18cf4967f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 29/58] fix: an application of a macro with an overloaded name
 must be expanded

---
 src/state.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index c36fce9..d662d21 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1898,7 +1898,18 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     {
       Trace("overload") << "...return success" << std::endl;
       // return the operator, do not check the remainder
-      return retApply ? x : overloads[ii];
+      if (!retApply)
+      {
+        return overloads[ii];
+      }
+      if (hd->getKind() == Kind::LAMBDA)
+      {
+        // an application of a macro must be beta-reduced
+        std::vector<Expr> achildren = children;
+        achildren[0] = hde;
+        return mkExpr(Kind::APPLY, achildren, false);
+      }
+      return x;
     }
   }
   // otherwise, none found, return null
-- 
2.43.0


From 25508c75c27f60ec47fd5566f2b8edc5e5f1601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 30/58] fix: tokens with null characters must not be cut short

---
 src/lexer.cpp | 5 +++--
 src/lexer.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 2261b31..0260513 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -179,10 +179,11 @@ bool Lexer::eatTokenChoice(Token t, Token f)
 }
 
 
-const char* Lexer::tokenStr() const
+std::string Lexer::tokenStr() const
 {
   Assert(!d_token.empty() && d_token.back() == 0);
-  return d_token.data();
+  // note that the token may contain null characters
+  return std::string(d_token.data(), d_token.size() - 1);
 }
 
 Token Lexer::nextTokenInternal()
diff --git a/src/lexer.h b/src/lexer.h
index c8e5d93..da5742f 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -62,7 +62,7 @@ class Lexer
    * String corresponding to the last token (old top of stack). This is only
    * valid if no tokens are currently peeked.
    */
-  const char* tokenStr() const;
+  std::string tokenStr() const;
   /** Advance to the next token (pop from stack) */
   Token nextToken();
   /** Add a token back into the stream (push to stack) */
-- 
2.43.0


From c1facdcc1842a9ca569f06e830c197fd31e48f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 31/58] fix: the name of a parametric datatype must stay bound
 after its declaration

---
 src/expr_parser.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 524c084..68ec367 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -774,6 +774,7 @@ bool ExprParser::parseDatatypesDef(
   while (tok == Token::LPAREN)
   {
     std::vector<Expr> params;
+    std::vector<std::string> symList;
     if (i >= dnames.size())
     {
       d_lex.parseError("Too many datatypes defined in this block.");
@@ -783,22 +784,11 @@ bool ExprParser::parseDatatypesDef(
     if (tok == Token::PAR)
     {
       pushedScope = true;
-      d_state.pushScope();
-      std::vector<std::string> symList = parseSymbolList();
+      symList = parseSymbolList();
       if (symList.empty())
       {
         d_lex.parseError("Expected non-empty parameter list");
       }
-      // parameters are type variables
-      for (const std::string& sym : symList)
-      {
-        Expr t = d_state.mkSymbol(Kind::PARAM, sym, d_state.mkType());
-        if (!d_state.bind(sym, t))
-        {
-          return false;
-        }
-        params.push_back(t);
-      }
     }
     else
     {
@@ -808,8 +798,9 @@ bool ExprParser::parseDatatypesDef(
     }
     if (i >= arities.size())
     {
-      // if the arity is not yet fixed, bind it now
-      Expr t = d_state.mkTypeConstant(dnames[i], params.size());
+      // if the arity is not yet fixed, bind it now. Note that this must be done
+      // before the scope of the parameters is pushed.
+      Expr t = d_state.mkTypeConstant(dnames[i], symList.size());
       // bind
       if (!d_state.bind(dnames[i], t))
       {
@@ -817,12 +808,26 @@ bool ExprParser::parseDatatypesDef(
       }
       dtlist.push_back(t);
     }
-    else if (arities[i] >= 0 && params.size() != arities[i])
+    else if (symList.size() != arities[i])
     {
       // if the arity was fixed by prelude and is not equal to the number of
       // parameters
       d_lex.parseError("Wrong number of parameters for datatype.");
     }
+    if (pushedScope)
+    {
+      d_state.pushScope();
+      // parameters are type variables
+      for (const std::string& sym : symList)
+      {
+        Expr t = d_state.mkSymbol(Kind::PARAM, sym, d_state.mkType());
+        if (!d_state.bind(sym, t))
+        {
+          return false;
+        }
+        params.push_back(t);
+      }
+    }
     // read constructor definition list, populate into the current datatype
     Expr& dt = dtlist[i];
     Expr dti = dt;
-- 
2.43.0


From b79f84d6c2cd4a3c68d7272d708db09464fd11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 32/58] fix: every datatype of a declare-datatypes command must
 be defined

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 68ec367..86dcdce 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -856,7 +856,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From 8dc26e84710f03591cd885c90b2734990dba861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 33/58] fix: do not access an empty stack on mismatched
 parentheses

---
 src/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 86dcdce..2df8d74 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -254,13 +254,13 @@ Expr ExprParser::parseExpr()
       // ------------------- close paren
       case Token::RPAREN:
       {
-        StackFrame& sf = pstack.back();
         // should only be here if we are expecting arguments
-        if (pstack.empty() || sf.d_ctx != ParseCtx::NEXT_ARG)
+        if (pstack.empty() || pstack.back().d_ctx != ParseCtx::NEXT_ARG)
         {
           d_lex.unexpectedTokenError(
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
+        StackFrame& sf = pstack.back();
         // Construct the application term specified by tstack.back()
         if (!sf.d_overloads.empty())
         {
-- 
2.43.0


From 5803b168e43111fac0655c4acd32e065c0f8ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 34/58] fix: a closing parenthesis is not an s-expression

---
 src/expr_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 2df8d74..676a512 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -607,7 +607,15 @@ std::string ExprParser::parseSymbolicExpr()
     switch (tok)
     {
       case Token::LPAREN: nparen++; break;
-      case Token::RPAREN: nparen--; break;
+      case Token::RPAREN:
+      {
+        if (nparen == 0)
+        {
+          d_lex.unexpectedTokenError(tok, "Expected s-expression");
+        }
+        nparen--;
+      }
+      break;
       case Token::EOF_TOK:
       {
         d_lex.parseError("Expected s-expression");
-- 
2.43.0


From 7ab3a0fae78528eff6bfa02255dba76e2dcd50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 35/58] fix: negative or too large numerals must not wrap
 around in commands

---
 src/expr_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 676a512..3bd01b5 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -962,10 +962,17 @@ uint32_t ExprParser::tokenStrToUnsigned()
   {
     d_lex.parseError("Numeral with leading zeroes are forbidden");
   }
+  if (token[0] == '-')
+  {
+    d_lex.parseError("Expected a non-negative numeral");
+  }
   uint32_t result;
   std::stringstream ss;
-  ss << d_lex.tokenStr();
-  ss >> result;
+  ss << token;
+  if (!(ss >> result))
+  {
+    d_lex.parseError("Numeral is too large");
+  }
   return result;
 }
 
-- 
2.43.0


From e864f265b29e21cc40bc2510c1b098a50a163d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 36/58] fix: unknown keywords in a step must be rejected

---
 src/cmd_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 10757be..dc1a2bd 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -916,6 +916,7 @@ bool CmdParser::parseNextCommand()
         RuleStat::start(d_sts);
       }
       // parse premises, optionally
+      keyword.clear();
       if (d_lex.peekToken()==Token::KEYWORD)
       {
         keyword = d_eparser.parseKeyword();
@@ -924,6 +925,7 @@ bool CmdParser::parseNextCommand()
       if (keyword=="premises")
       {
         premises = d_eparser.parseExprList();
+        keyword.clear();
         if (d_lex.peekToken()==Token::KEYWORD)
         {
           keyword = d_eparser.parseKeyword();
@@ -935,6 +937,10 @@ bool CmdParser::parseNextCommand()
       {
         args = d_eparser.parseExprList();
       }
+      else if (!keyword.empty())
+      {
+        d_lex.parseError("Unexpected keyword :" + keyword + " in step");
+      }
       // compute the conclusion of the proof rule
       Expr concTerm;
       if (!d_state.notifyStep(
-- 
2.43.0


From deb8bbe93448fcdac569e1913f403e5dfba83a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 37/58] fix: no crash if a premise list operator without
 attributes gets no premises

---
 src/state.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index d662d21..6a115bc 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1583,8 +1583,7 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
-        if (isListNilAttr(ck))
+        if (aic != nullptr && isListNilAttr(aic->d_attrCons))
         {
           ap = aic->d_attrConsTerm;
         }
-- 
2.43.0


From 31b358882bdc01b5ff52928e010e90264187d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 38/58] fix: a declared program without a definition does not
 evaluate

---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 5cbdd2a..1777c24 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -917,7 +917,7 @@ Expr TypeChecker::evaluateProgramInternal(
     RuleStat* ps = &d_sts.d_pstats[hd];
     ps->d_count++;
   }
-  Assert(!prog.isNull());
+  // note the program may be declared but not defined, i.e. it has no cases
   if (!prog.isNull())
   {
     Trace("type_checker") << "INTERPRET program " << children << std::endl;
-- 
2.43.0


From 9594480e9a5dd84fb0661d7917755394e4bb6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:52 +0000
Subject: [PATCH 39/58] fix: setting the option parse-let must take effect in
 the file being read

---
 src/lexer.cpp  | 5 +++--
 src/lexer.h    | 8 ++++----
 src/parser.cpp | 6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 0260513..000c5a1 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -25,7 +25,7 @@ std::ostream& operator<<(std::ostream& o, const Span& l)
   return o << l.d_start << "-" << l.d_end;
 }
 
-Lexer::Lexer(bool lexLet, bool lexType)
+Lexer::Lexer(const bool* lexLet, bool lexType)
     : d_lexLet(lexLet),
       d_lexType(lexType),
       d_isInteractive(false),
@@ -452,7 +452,8 @@ Token Lexer::tokenizeCurrentSymbol() const
       break;
     case 'l':
       // only lex let if option is true (d_lexLet)
-      if (d_lexLet && d_token.size() == 3 && d_token[1] == 'e' && d_token[2] == 't')
+      if (d_lexLet != nullptr && *d_lexLet && d_token.size() == 3
+          && d_token[1] == 'e' && d_token[2] == 't')
       {
         return Token::LET;
       }
diff --git a/src/lexer.h b/src/lexer.h
index da5742f..74a36b8 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -47,10 +47,10 @@ class Lexer
 {
  public:
   /**
-   * @param lexLet whether to lex "let".
+   * @param lexLet if non-null, points to whether we (currently) lex "let".
    * @param lexType whether to lex "Type".
    */
-  Lexer(bool lexLet, bool lexType);
+  Lexer(const bool* lexLet, bool lexType);
   virtual ~Lexer() {}
   /**
    * Initialize the lexer to generate tokens from stream input.
@@ -182,8 +182,8 @@ class Lexer
  private:
   /** The input */
   std::istream* d_istream;
-  /** Are we lexing "let"? */
-  bool d_lexLet;
+  /** Are we lexing "let"? We are not if null. */
+  const bool* d_lexLet;
   /** Are we lexing "Type"? */
   bool d_lexType;
   /** True if the input stream is interactive */
diff --git a/src/parser.cpp b/src/parser.cpp
index f08a1e5..9e64f83 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -11,9 +11,9 @@
 namespace ethos {
 
 Parser::Parser(State& s, bool isSignature, bool isReference)
-    // only (optionally) lex let when reference parsing, only lex Type if
-    // signature.
-    : d_lex(!isSignature && s.getOptions().d_parseLet, isSignature),
+    // only (optionally) lex let when not signature parsing, where note that
+    // the option may be changed by a command, only lex Type if signature.
+    : d_lex(isSignature ? nullptr : &s.getOptions().d_parseLet, isSignature),
       d_state(s),
       d_eparser(d_lex, d_state, isSignature),
       d_cmdParser(d_lex, d_state, d_eparser, isReference)
-- 
2.43.0


From f643bfc9f3ec7c0aa4f58278653936f0342c3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 40/58] fix: quote a parameter that occurs in a later opaque
 argument

---
 src/cmd_parser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index dc1a2bd..4cb99c3 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -182,10 +182,15 @@ bool CmdParser::parseNextCommand()
           Expr p = params[ii];
           Expr pt = d_tc.getType(p);
           Expr qt;
-          // Check if the parameter is contained in the return type. If so,
-          // then it must be quoted.
+          // Check if the parameter is contained in the return type or in a
+          // subsequent argument. If so, then it must be quoted.
           std::unordered_set<const ExprValue*> vp{p.getValue()};
-          if (Expr::hasVariable(t, vp))
+          bool isUsed = Expr::hasVariable(t, vp);
+          for (size_t j = 0, nopaque = opaqueArgs.size(); j < nopaque; j++)
+          {
+            isUsed = isUsed || Expr::hasVariable(opaqueArgs[j], vp);
+          }
+          if (isUsed)
           {
             // If the type of the parameter is non-ground, then we throw an
             // error.
-- 
2.43.0


From 2f5a2a9cd18241043bd55a6f76a91a06412764d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 41/58] fix: reject a step that provides nothing to a rule that
 expects premises or arguments

---
 src/state.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 6a115bc..97dbad6 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1647,6 +1647,15 @@ bool State::notifyStep(const std::string& name,
     {
       // otherwise a nullary rule
       result = children[0];
+      if (result.isEvaluatable())
+      {
+        // the rule expects premises or arguments but none were provided
+        if (err)
+        {
+          (*err) << "No premises or arguments were provided" << std::endl;
+        }
+        return false;
+      }
     }
     Assert(!result.isNull() && !result.isEvaluatable());
     return true;
-- 
2.43.0


From 76ecd53ee6d8585e6828482c6e1783e0adb096b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 42/58] fix: eo::extract takes three arguments

---
 src/type_checker.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 1777c24..c9cfc99 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -196,10 +196,8 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_LIST_MINCLUDE:
     case Kind::EVAL_LIST_MEQ:
     case Kind::EVAL_LIST_DIFF:
-    case Kind::EVAL_LIST_INTER: ret = (nargs == 3); break;
-    case Kind::EVAL_EXTRACT:
-      ret = (nargs==3 || nargs==2);
-      break;
+    case Kind::EVAL_LIST_INTER:
+    case Kind::EVAL_EXTRACT: ret = (nargs == 3); break;
     default:
       if (isNaryLiteralOp(k))
       {
-- 
2.43.0


From 691893d9f690434f13d36ac1f3e5c6832693234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 43/58] fix: reject a builtin operator that is applied to
 nothing

---
 src/expr_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 3bd01b5..9dc4376 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -261,6 +261,12 @@ Expr ExprParser::parseExpr()
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
         StackFrame& sf = pstack.back();
+        // builtin operators do not denote terms on their own
+        if (sf.d_args.size() == 1
+            && sf.d_args[0].getKind() == Kind::BUILTIN_CONST)
+        {
+          d_lex.parseError("Expected an argument of a builtin operator");
+        }
         // Construct the application term specified by tstack.back()
         if (!sf.d_overloads.empty())
         {
-- 
2.43.0


From 53b2604949357ba4a28b34ebb15df4aa0e6157b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 44/58] fix: check the number of arguments of every evaluated
 operator

---
 src/type_checker.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index c9cfc99..7522858 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1068,6 +1068,13 @@ Expr TypeChecker::evaluateLiteralOpInternal(
 {
   Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
+  if (!checkArity(k, args.size()))
+  {
+    Warning() << "Wrong number of arguments when applying literal op " << k
+              << ", " << args.size() << " arguments (" << args << ")" << std::endl;
+    // does not evaluate if arity is wrong
+    return d_null;
+  }
   // special cases: ITE may evaluate if non-ground
   switch (k)
   {
@@ -1325,13 +1332,6 @@ Expr TypeChecker::evaluateLiteralOpInternal(
   // if all values, run the literal evaluator
   if (allValues)
   {
-    if (!checkArity(k, args.size()))
-    {
-      Warning() << "Wrong number of arguments when applying literal op " << k
-                << ", " << args.size() << " arguments (" << args << ")" << std::endl;
-      // does not evaluate if arity is wrong
-      return d_null;
-    }
     // evaluate
     Literal eval = Literal::evaluate(k, lits);
     if (eval.getKind()==Kind::NONE)
-- 
2.43.0


From 5e1d2e352946f482beaa8d0a22fa3c281d023a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 45/58] fix: the name of a bound variable of parameterized type
 is taken as is

---
 src/state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 97dbad6..6559001 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1435,7 +1435,10 @@ Expr State::getBoundVar(const std::string& name, const Expr& type)
   {
     // If the type is non-ground, we cannot evaluate it yet. Moreover this is
     // not cached here, instead it is cached as part of mkExpr.
-    Expr ename = mkLiteral(Kind::STRING, name);
+    // Note that the name is taken as is, i.e. escape sequences are not
+    // interpreted.
+    Literal lname{String(name)};
+    Expr ename(mkLiteralInternal(lname));
     return mkExpr(Kind::EVAL_VAR, {ename, type});
   }
   std::pair<std::string, const ExprValue*> key(name, type.getValue());
-- 
2.43.0


From 1b97e85749f24d7020122b38412ce642985a4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 46/58] fix: reset removes the declared types of literals

---
 src/state.cpp        | 13 +++++++++++++
 src/type_checker.cpp | 15 ++++++++++-----
 src/type_checker.h   |  2 ++
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 6559001..f74e046 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -222,6 +222,19 @@ void State::reset()
   d_assumptionsScopeLevel.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  // The types of literals are no longer declared. Hence, the types we computed
+  // are obsolete, apart from those of symbols.
+  d_tc.resetLiteralTypeRules();
+  std::map<const ExprValue*, Expr> types;
+  types.swap(d_typeCache);
+  for (const std::pair<const ExprValue* const, Expr>& t : types)
+  {
+    Kind k = t.first->getKind();
+    if (isSymbol(k) || k == Kind::BUILTIN_CONST)
+    {
+      d_typeCache.insert(t);
+    }
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 7522858..5ff34d9 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -22,6 +22,16 @@
 namespace ethos {
 
 TypeChecker::TypeChecker(State& s, Options& opts) : d_state(s), d_plugin(nullptr), d_sts(s.getStats())
+{
+  resetLiteralTypeRules();
+  d_statsEnabled = opts.d_stats;
+}
+
+TypeChecker::~TypeChecker()
+{
+}
+
+void TypeChecker::resetLiteralTypeRules()
 {
   std::set<Kind> literalKinds = { Kind::BOOLEAN, Kind::NUMERAL, Kind::RATIONAL, Kind::BINARY, Kind::STRING, Kind::DECIMAL, Kind::HEXADECIMAL };
   // initialize literal kinds 
@@ -29,11 +39,6 @@ TypeChecker::TypeChecker(State& s, Options& opts) : d_state(s), d_plugin(nullptr
   {
     d_literalTypeRules[k] = d_null;
   }
-  d_statsEnabled = opts.d_stats;
-}
-
-TypeChecker::~TypeChecker()
-{
 }
 
 void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..b07f4f1 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the type rules that were set for literals */
+  void resetLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From f4494b34644ea0c8ca1e669aec4b597413a9392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 47/58] fix: print symbols that look like negative literals, or
 contain backslashes, so that they can be read

---
 src/expr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..9e51a3f 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -217,7 +217,8 @@ std::string quoteSymbol(const std::string& s)
   if (s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
                           "0123456789~!@$%^&*_-+=<>.?/")
           == std::string::npos
-      && (s[0] < '0' || s[0] > '9'))
+      && (s[0] < '0' || s[0] > '9')
+      && (s[0] != '-' || s.length() == 1 || s[1] < '0' || s[1] > '9'))
   {
     return s;
   }
@@ -229,9 +230,9 @@ std::string quoteSymbol(const std::string& s)
     tmp = s.substr(1, s.length() - 2);
   }
 
-  // must quote the symbol, but it cannot contain | or \, we turn those into _
+  // must quote the symbol, but it cannot contain |, we turn those into _
   size_t p;
-  while ((p = tmp.find_first_of("\\|")) != std::string::npos)
+  while ((p = tmp.find('|')) != std::string::npos)
   {
     tmp = tmp.replace(p, 1, "_");
   }
-- 
2.43.0


From 7ba0b28d7875f5310fb50a04363e850d5ce090d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 48/58] fix: quote the string literals and the names of
 variables that are printed

---
 src/expr.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9e51a3f..20d022c 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -239,6 +239,19 @@ std::string quoteSymbol(const std::string& s)
   return "|" + tmp + "|";
 }
 
+/**
+ * The string literal that denotes s
+ */
+std::string quoteString(const String& s)
+{
+  std::string str = s.toString();
+  for (size_t p = 0; (p = str.find('"', p)) != std::string::npos; p += 2)
+  {
+    str.insert(p, 1, '"');
+  }
+  return "\"" + str + "\"";
+}
+
 std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
 {
   std::vector<Expr> ret;
@@ -348,7 +361,7 @@ void Expr::printDebugInternal(const Expr& e,
                 os << "#b" << l->toString();
               }
               break;
-            case Kind::STRING:os << "\"" << l->toString() << "\"";break;
+            case Kind::STRING:os << quoteString(l->d_str);break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
               // use attribute
@@ -379,7 +392,7 @@ void Expr::printDebugInternal(const Expr& e,
         Expr tt(ExprValue::d_state->lookupType(cur.first));
         const Literal* l = cur.first->asLiteral();
         Assert(l != nullptr);
-        os << "(eo::var \"" << l->toString() << "\" ";
+        os << "(eo::var " << quoteString(String(l->toString())) << " ";
         visit.back().second++;
         visit.emplace_back(tt.getValue(), 0);
       }
-- 
2.43.0


From 4dc748a8868c7d652c20405be2d307ee1824f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 49/58] fix: print partial applications of n-ary symbols so
 that they are not desugared when read

---
 src/expr.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 20d022c..2f5fe29 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -252,6 +252,28 @@ std::string quoteString(const String& s)
   return "\"" + str + "\"";
 }
 
+/**
+ * Is an application of e desugared when it is parsed? If so, it can only be
+ * written with "_".
+ */
+bool isDesugared(const State* state, const ExprValue* e)
+{
+  switch (state->getConstructorKind(e))
+  {
+    case Attr::RIGHT_ASSOC:
+    case Attr::LEFT_ASSOC:
+    case Attr::RIGHT_ASSOC_NIL:
+    case Attr::LEFT_ASSOC_NIL:
+    case Attr::RIGHT_ASSOC_NS_NIL:
+    case Attr::LEFT_ASSOC_NS_NIL:
+    case Attr::CHAINABLE:
+    case Attr::PAIRWISE:
+    case Attr::ARG_LIST: return true;
+    default: break;
+  }
+  return false;
+}
+
 std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
 {
   std::vector<Expr> ret;
@@ -409,7 +431,8 @@ void Expr::printDebugInternal(const Expr& e,
           }
           // otherwise printed as ordinary app
         }
-        else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0)
+        else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0
+                 || isDesugared(ExprValue::d_state, (*cur.first)[0]))
         {
           os << kindToTerm(k) << " ";
         }
-- 
2.43.0


From 0c4fcff29eb0baefee118442a01b6f0063aee4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:38 +0000
Subject: [PATCH 50/58] fix: print opaque applications, eo symbols with spaces
 and applied variables so that they can be read

---
 src/expr.cpp | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 2f5fe29..0426da9 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -206,17 +206,15 @@ std::string quoteSymbol(const std::string& s)
   {
     return "||";
   }
-  // special case: if an "eo::" symbol, it is not quoted
-  if (s.compare(0, 4, "eo::") == 0)
-  {
-    return s;
-  }
+  // special case: the colons of an "eo::" symbol are not quoted
+  bool isEo = s.compare(0, 4, "eo::") == 0;
 
   // this is the set of SMT-LIBv2 permitted characters in "simple" (non-quoted)
   // symbols
-  if (s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
-                          "0123456789~!@$%^&*_-+=<>.?/")
-          == std::string::npos
+  std::string simple =
+      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
+      "0123456789~!@$%^&*_-+=<>.?/";
+  if (s.find_first_not_of(isEo ? simple + ":" : simple) == std::string::npos
       && (s[0] < '0' || s[0] > '9')
       && (s[0] != '-' || s.length() == 1 || s[1] < '0' || s[1] > '9'))
   {
@@ -285,6 +283,14 @@ std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
     ret.push_back(tt);
     return ret;
   }
+  // special case: the opaque arguments of a symbol are given all at once
+  if (e->getKind() == Kind::APPLY_OPAQUE
+      && (*e)[0]->getKind() == Kind::APPLY_OPAQUE)
+  {
+    ret = getPrintChildren((*e)[0]);
+    ret.emplace_back((*e)[1]);
+    return ret;
+  }
   for (size_t i = 0, nchildren = e->getNumChildren(); i < nchildren; i++)
   {
     ret.emplace_back((*e)[i]);
@@ -431,26 +437,29 @@ void Expr::printDebugInternal(const Expr& e,
           }
           // otherwise printed as ordinary app
         }
-        else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0
+        else if (k != Kind::APPLY || !getPrintChildren((*cur.first)[0]).empty()
                  || isDesugared(ExprValue::d_state, (*cur.first)[0]))
         {
           os << kindToTerm(k) << " ";
         }
         visit.back().second++;
-        visit.emplace_back((*cur.first)[0], 0);
+        visit.emplace_back(printChildren[0].getValue(), 0);
       }
     }
-    else if (cur.second >= cur.first->getNumChildren())
-    {
-      os << ")";
-      visit.pop_back();
-    }
     else
     {
-      Assert (cur.second<cur.first->getNumChildren());
-      os << " ";
-      visit.back().second++;
-      visit.emplace_back((*cur.first)[cur.second], 0);
+      std::vector<Expr> printChildren = getPrintChildren(cur.first);
+      if (cur.second >= printChildren.size())
+      {
+        os << ")";
+        visit.pop_back();
+      }
+      else
+      {
+        os << " ";
+        visit.back().second++;
+        visit.emplace_back(printChildren[cur.second].getValue(), 0);
+      }
     }
   } while (!visit.empty());
 }
-- 
2.43.0


From c75031b03e6e80fa6763936d3f9c9a40af93151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 51/58] fix: nested include commands overflowed the stack, each
 having its input buffer on it

---
 src/state.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index f74e046..c192deb 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -362,12 +362,14 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   }
   Trace("state") << "Include " << inputPath << std::endl;
   Assert (getAssumptionLevel()==0);
-  Parser p(*this, isSignature, isReference);
-  p.setFileInput(inputPath.getRawPath());
+  // allocated on the heap, since a parser contains its input buffer and include
+  // commands may be nested
+  std::unique_ptr<Parser> p(new Parser(*this, isSignature, isReference));
+  p->setFileInput(inputPath.getRawPath());
   bool parsedCommand;
   do
   {
-    parsedCommand = p.parseNextCommand();
+    parsedCommand = p->parseNextCommand();
   }
   while (parsedCommand);
   d_inputFile = currentPath;
-- 
2.43.0


From cd0e90d427e33f6bcf022fa4d8bcfb3fffeac419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 52/58] fix: a file was included again when a relative path
 that leads upwards, or an absolute path, named it differently

---
 src/state.cpp           |  4 +++-
 src/util/filesystem.cpp | 21 +++++++++++++++++++++
 src/util/filesystem.h   |  6 ++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index c192deb..fd49e02 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -341,7 +341,9 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     // cannot use more than one reference
     return false;
   }
-  if (!markIncluded(inputPath))
+  // The path is made absolute, since a relative path that leads upwards may name
+  // the same file in several ways.
+  if (!markIncluded(inputPath.absolutePath()))
   {
     // if already included, its assertions were not recorded, hence it cannot
     // be made the reference
diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index b9de792..312fd7a 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 #include "util/filesystem.h"
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <vector>
@@ -185,6 +186,26 @@ void Filepath::makeCanonical()
 #endif
 }
 
+Filepath Filepath::absolutePath() const
+{
+#ifndef USE_CPP_FILESYSTEM
+#ifdef _WIN32
+  static_assert(false, "File system support for Windows not implemented.");
+#endif
+  char* path = realpath(rawPath.c_str(), nullptr);
+  if (path == nullptr)
+  {
+    return *this;
+  }
+  Filepath ret;
+  ret.rawPath = path;
+  free(path);
+  return ret;
+#else
+  return Filepath(std::filesystem::absolute(rawPath));
+#endif
+}
+
 Filepath Filepath::parentPath() const
 {
 #ifndef USE_CPP_FILESYSTEM
diff --git a/src/util/filesystem.h b/src/util/filesystem.h
index 6a10fdb..7af901a 100644
--- a/src/util/filesystem.h
+++ b/src/util/filesystem.h
@@ -73,6 +73,12 @@ class Filepath
    */
   void makeCanonical();
 
+  /**
+   * @return The absolute path of the file this path refers to, or this path if
+   * there is no such file.
+   */
+  Filepath absolutePath() const;
+
   /**
    * @return The current path, but with the filename cut off.
    */
-- 
2.43.0


From 27fd2064a51e8b5584a2754fcb7784eb8bfe4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 53/58] fix: the type of an unevaluated eo::cons was the type
 of its element instead of the type of the list

---
 src/type_checker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 5ff34d9..edabeca 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1769,8 +1769,9 @@ Expr TypeChecker::getLiteralOpType(Kind k,
     case Kind::EVAL_NOT:
       return Expr(childTypes[0]);
     case Kind::EVAL_IF_THEN_ELSE:
-    case Kind::EVAL_CONS:
       return Expr(childTypes[1]);
+    case Kind::EVAL_CONS:
+      // its type is the type of the list, which is the third child
     case Kind::EVAL_REQUIRES:
       return Expr(childTypes[2]);
     case Kind::EVAL_LIST_CONCAT:
-- 
2.43.0


From 879512d6155c5e531aaa9f38f20178f2698fe03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 54/58] fix: the terminator of an overloaded operator was
 inferred from the parameters of another symbol of that name

---
 src/state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index fd49e02..7f5c05c 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1910,7 +1910,10 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     if (ai != nullptr)
     {
       Trace("overload") << "...has property " << ai->d_attrCons << std::endl;
-      Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+      // note the parameters are inferred for the overload we are trying
+      std::vector<Expr> hchildren = children;
+      hchildren[0] = hde;
+      Expr consTerm = d_tc.computeConstructorTermInternal(ai, hchildren);
       x = mkApplyAttr(ai, vchildren, consTerm);
     }
     if (x.isNull())
-- 
2.43.0


From 3079f6cf4a10c61bff2ea897d3fdd864562773a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 55/58] fix: a printed term was captured by the names given to
 its shared subterms

---
 src/expr.cpp | 52 +++++++++++++++++++++++++++++++++++++++++++++++-----
 src/expr.h   |  8 +++++++-
 2 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 0426da9..5612a7f 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 #include "expr.h"
 
+#include <algorithm>
 #include <iostream>
 #include <set>
 
@@ -352,7 +353,8 @@ std::map<const ExprValue*, size_t> Expr::computeLetBinding(
 
 void Expr::printDebugInternal(const Expr& e,
                               std::ostream& os,
-                              std::map<const ExprValue*, size_t>& lbind)
+                              std::map<const ExprValue*, size_t>& lbind,
+                              const std::string& lprefix)
 {
   std::map<const ExprValue*, size_t>::iterator itl;
   std::vector<std::pair<ExprValue*, size_t>> visit;
@@ -365,7 +367,7 @@ void Expr::printDebugInternal(const Expr& e,
       itl = lbind.find(cur.first);
       if (itl!=lbind.end())
       {
-        os << "_v" << itl->second;
+        os << lprefix << itl->second;
         visit.pop_back();
         continue;
       }
@@ -464,29 +466,69 @@ void Expr::printDebugInternal(const Expr& e,
   } while (!visit.empty());
 }
 
+std::string Expr::getLetPrefix(const Expr& e)
+{
+  // collect the names of the symbols that are printed
+  std::vector<std::string> names;
+  std::unordered_set<const ExprValue*> visited;
+  std::vector<Expr> visit;
+  visit.push_back(e);
+  do
+  {
+    Expr cur = visit.back();
+    visit.pop_back();
+    const ExprValue* cv = cur.getValue();
+    if (!visited.insert(cv).second)
+    {
+      continue;
+    }
+    std::vector<Expr> printChildren = getPrintChildren(cv);
+    visit.insert(visit.end(), printChildren.begin(), printChildren.end());
+    if (printChildren.empty() && isSymbol(cv->getKind()))
+    {
+      names.push_back(cur.getSymbol());
+    }
+  } while (!visit.empty());
+  std::string prefix = "_v";
+  while (std::any_of(
+      names.begin(), names.end(), [&prefix](const std::string& n) {
+        return n.compare(0, prefix.size(), prefix) == 0;
+      }))
+  {
+    prefix.insert(0, "_");
+  }
+  return prefix;
+}
+
 void Expr::printDebug(const Expr& e, std::ostream& os)
 {
   std::map<const ExprValue*, size_t> lbind;
+  std::string lprefix;
   std::string cparen;
   if (ExprValue::d_state->getOptions().d_printDag)
   {
     std::vector<Expr> ll;
     lbind = computeLetBinding(e, ll);
+    if (!ll.empty())
+    {
+      // the names introduced here must not capture the symbols in e
+      lprefix = getLetPrefix(e);
+    }
     std::stringstream osc;
     for (const Expr& l : ll)
     {
       const ExprValue* lv = l.getValue();
       size_t id = lbind[lv];
-      os << "(eo::define ((_v" << id << " ";
+      os << "(eo::define ((" << lprefix << id << " ";
       lbind.erase(lv);
-      printDebugInternal(l, os, lbind);
+      printDebugInternal(l, os, lbind, lprefix);
       lbind[lv] = id;
       os << ")) ";
       osc << ")";
     }
     cparen = osc.str();
   }
-  printDebugInternal(e, os, lbind);
+  printDebugInternal(e, os, lbind, lprefix);
   os << cparen;
 }
 
diff --git a/src/expr.h b/src/expr.h
index ae283e0..db7018e 100644
--- a/src/expr.h
+++ b/src/expr.h
@@ -179,7 +179,13 @@ class Expr
   /** */
   static void printDebugInternal(const Expr& e,
                                  std::ostream& os,
-                                 std::map<const ExprValue*, size_t>& lbind);
+                                 std::map<const ExprValue*, size_t>& lbind,
+                                 const std::string& lprefix);
+  /**
+   * Get a prefix for the names of the shared subterms of e when printing it.
+   * No symbol in e has a name that begins with this prefix.
+   */
+  static std::string getLetPrefix(const Expr& e);
 };
 
 /**
-- 
2.43.0


From 19d0e118572d305b934fa0ab083090bc870920fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 56/58] fix: a variable of a let binder was not in scope when
 its type mentioned a type parameter

---
 src/expr_parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 9dc4376..dfe32ee 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -706,6 +706,7 @@ std::vector<Expr> ExprParser::parseAndBindSortedVarList(
 std::vector<std::pair<Expr, Expr>> ExprParser::parseAndBindLetList()
 {
   std::vector<std::pair<Expr, Expr>> letList;
+  std::vector<std::string> names;
   d_lex.eatToken(Token::LPAREN);
   std::string name;
   Expr v, t, tt;
@@ -718,11 +719,13 @@ std::vector<std::pair<Expr, Expr>> ExprParser::parseAndBindLetList()
     tt = typeCheck(t);
     v = d_state.getBoundVar(name, tt);
     letList.emplace_back(v, t);
+    names.push_back(name);
   }
-  // now perform the bindings, which bind to the variable, not its definition
-  for (std::pair<Expr, Expr>& ll : letList)
+  // now perform the bindings, which bind to the variable, not its definition.
+  // Note that a variable whose type is not ground is not a symbol yet.
+  for (size_t i = 0, nlets = letList.size(); i < nlets; i++)
   {
-    bind(ll.first.getSymbol(), ll.first);
+    bind(names[i], letList[i].first);
   }
   return letList;
 }
-- 
2.43.0


From 4099eaea147e2a811fdfbfab303d85e87b1e6a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 57/58] fix: a datatype declaration without constructors was
 accepted

---
 src/expr_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index dfe32ee..1464cbe 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -947,6 +947,10 @@ void ExprParser::parseConstructorDefinitionList(
       ambCons.insert(cons.getValue());
     }
   }
+  if (conslist.empty())
+  {
+    d_lex.parseError("Expected non-empty list of constructors");
+  }
 }
 
 std::string ExprParser::parseKeyword()
-- 
2.43.0


From b95e983e9ba2d2661bea04187f5fd5da8c582e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 58/58] fix: statistics requested with set-option lacked
 program calls and times

---
 src/cmd_parser.cpp   | 5 ++---
 src/cmd_parser.h     | 4 ++--
 src/type_checker.cpp | 3 +--
 src/type_checker.h   | 4 ++--
 4 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 4cb99c3..7465a7a 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -31,7 +31,8 @@ CmdParser::CmdParser(Lexer& lex,
       d_sts(state.getStats()),
       d_eparser(eparser),
       d_isReference(isReference),
-      d_isFinished(false)
+      d_isFinished(false),
+      d_statsEnabled(state.getOptions().d_stats)
 {
   // initialize the command tokens
   // commands supported in both inputs and proofs
@@ -73,8 +74,6 @@ CmdParser::CmdParser(Lexer& lex,
     d_table["step"] = Token::STEP;
     d_table["step-pop"] = Token::STEP_POP;
   }
-  
-  d_statsEnabled = d_state.getOptions().d_stats;
 }
 
 Token CmdParser::nextCommandToken()
diff --git a/src/cmd_parser.h b/src/cmd_parser.h
index 3d661a5..ceaaca5 100644
--- a/src/cmd_parser.h
+++ b/src/cmd_parser.h
@@ -52,8 +52,8 @@ class CmdParser
   bool d_isReference;
   /** Is finished */
   bool d_isFinished;
-  /** Stats enabled? */
-  bool d_statsEnabled;
+  /** Stats enabled? This may change during the run, via set-option. */
+  const bool& d_statsEnabled;
 };
 
 }  // namespace ethos
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index edabeca..5bf5a83 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -21,10 +21,9 @@
 
 namespace ethos {
 
-TypeChecker::TypeChecker(State& s, Options& opts) : d_state(s), d_plugin(nullptr), d_sts(s.getStats())
+TypeChecker::TypeChecker(State& s, Options& opts) : d_state(s), d_plugin(nullptr), d_statsEnabled(opts.d_stats), d_sts(s.getStats())
 {
   resetLiteralTypeRules();
-  d_statsEnabled = opts.d_stats;
 }
 
 TypeChecker::~TypeChecker()
diff --git a/src/type_checker.h b/src/type_checker.h
index b07f4f1..fce7e46 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -191,8 +191,8 @@ class TypeChecker
   /** The null expression */
   Expr d_null;
   Expr d_negOne;
-  /** Stats enabled? */
-  bool d_statsEnabled;
+  /** Stats enabled? This may change during the run, via set-option. */
+  const bool& d_statsEnabled;
   /** Reference to the stats */
   Stats& d_sts;
 };
-- 
2.43.0

