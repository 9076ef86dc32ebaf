From bc65ba129dd52f85bfbd69163516146d4d8be536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 001/120] fix: base64decode accepted a character after a
 padding character

---
 src/base64.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index 24a6639..8d48730 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -109,6 +109,8 @@ size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen) {
         outc++;
         err |= c3 = decoding[ibytes[ipos++]];
       }
+    } else if (ibytes[ipos + 1] != '=') {
+      err |= 128;
     }
 
     uint32_t n = (c0 << 18 | c1 << 12 | c2 << 6 | c3);
-- 
2.43.0


From 924030c3d01a32ad42cbee90425881df885e4975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 002/120] fix: deleting a field used the type of the field
 after it to adjust offsets

---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..3de1347 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -663,9 +663,10 @@ struct Fbfr32 {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
     }
 
+    auto type = Fldtype32(from->fieldid);
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From 8ee5949558c703053c8b35830a6edb28bc133b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 003/120] fix: creating missing occurrences of a nested buffer
 field read past the default value

---
 src/fbfr32.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3de1347..f83c42b 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value for all types, large enough for an empty nested buffer
+static char zeros[64] __attribute__((aligned(8))) = {0x0};
 
 struct fieldhead {
   FLDID32 fieldid;
-- 
2.43.0


From 778a72e47e7dcc9457a942b015d60bca506ee401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 004/120] fix: a field change past the end that does not fit
 left some of the missing occurrences behind

---
 src/fbfr32.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index f83c42b..336b648 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -167,11 +167,6 @@ struct Fbfr32 {
       oc = count;
     }
 
-    // Fill missing occurances with default values
-    for (FLDOCC32 o = count; o < oc; o++) {
-      chg(fieldid, o, zeros, 0);
-    }
-
     auto type = Fldtype32(fieldid);
     auto klass = fldclass(fieldid);
 
@@ -189,6 +184,21 @@ struct Fbfr32 {
       __builtin_unreachable();  // LCOV_EXCL_LINE
     }
 
+    // Fill missing occurances with default values, all of them or none
+    if (oc > static_cast<FLDOCC32>(count)) {
+      ssize_t gap = need;
+      if (klass == FIELDN) {
+        gap = sizeof(fieldn) + fieldn::size(value_len(type, zeros, 0));
+      }
+      if (len_ + gap * static_cast<ssize_t>(oc - count) + need > size_) {
+        FERROR(FNOSPACE, "");
+        return -1;
+      }
+    }
+    for (FLDOCC32 o = count; o < oc; o++) {
+      chg(fieldid, o, zeros, 0);
+    }
+
     auto field = where(fieldid, oc);
     size_t used = 0;
     if (field == nullptr) {
-- 
2.43.0


From 8fedd1ed262560bc9c3667f2920452a38f526442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 005/120] fix: conversions to byte arrays reported and stored
 one byte too many

---
 src/fml32.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index d50ef97..a85773f 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -403,7 +403,7 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
     COPY_N(static_cast<double>(from));                       \
   } else if (totype == FLD_STRING || totype == FLD_CARRAY) { \
     toval = std::to_string(from);                            \
-    *tolen = toval.size() + 1;                               \
+    *tolen = toval.size() + (totype == FLD_STRING ? 1 : 0);  \
   } else {                                                   \
     FERROR(FEBADOP, "");                                     \
     return nullptr;                                          \
@@ -422,7 +422,7 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
     COPY_N(static_cast<double>(atof(from.c_str())));         \
   } else if (totype == FLD_STRING || totype == FLD_CARRAY) { \
     toval = from;                                            \
-    *tolen = from.size() + 1;                                \
+    *tolen = from.size() + (totype == FLD_STRING ? 1 : 0);   \
   } else {                                                   \
     FERROR(FEBADOP, "");                                     \
     return nullptr;                                          \
@@ -436,7 +436,7 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
           if (totype == FLD_STRING || totype == FLD_CARRAY) {
             toval.resize(1);
             toval[0] = *fromval;
-            *tolen = toval.size() + 1;
+            *tolen = toval.size() + (totype == FLD_STRING ? 1 : 0);
           } else {
             TYPCVT(*reinterpret_cast<char *>(fromval));
           }
-- 
2.43.0


From c324d94fdd59b2eeef475be75d4d3b45746a78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 006/120] fix: Fjoin32 did not end when two or more occurrences
 had to be removed

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 336b648..dd0d022 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -599,6 +599,8 @@ struct Fbfr32 {
         return -1;
       } else if (r == 1) {
         end = reinterpret_cast<fieldhead *>(data_ + len_);
+        // another field has moved here, the same one keeps this occurrence
+        oc--;
       } else {
         it = next_(it);
       }
-- 
2.43.0


From 152034344999a44af8b8112ce988b7c5591fa9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 007/120] fix: checksums of equal buffers differed because of
 uninitialised padding

---
 src/fbfr32.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index dd0d022..49472ad 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -238,11 +238,16 @@ struct Fbfr32 {
       memset(f->data, 0x0, sizeof(f->data));
       std::copy_n(value, flen, reinterpret_cast<field8b *>(field)->data);
     } else if (klass == FIELD16) {
+      // Same for the bytes between field header and the value
+      std::fill(reinterpret_cast<char *>(field) + sizeof(*field),
+                reinterpret_cast<field16b *>(field)->data, 0x0);
       std::copy_n(value, flen, reinterpret_cast<field16b *>(field)->data);
     } else if (klass == FIELDN) {
       auto f = reinterpret_cast<fieldn *>(field);
       f->flen = flen;
       std::copy_n(value, flen, f->data);
+      // and for the bytes after the value
+      std::fill(f->data + flen, f->data + f->size(), 0x0);
       if (type == FLD_FML32) {
         FBFR32 *fbfr = reinterpret_cast<FBFR32 *>(f->data);
         fbfr->size_ = fbfr->len_;
-- 
2.43.0


From 37c4e10c69a281cef5e350cfb160ae6d89ec1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 008/120] fix: Fmkfldid32 accepted field numbers that do not
 fit and changed the type

---
 src/fbfr32fld.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 7e3db98..5ecfd71 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -47,7 +47,7 @@ struct Fbfr32fields {
       Ferror32 = FTYPERR;
       return -1;
     }
-    if (num < 1) {
+    if (num < 1 || num > 0xffffff) {
       Ferror32 = FBADFLD;
       return -1;
     }
-- 
2.43.0


From b71cbe579053408b7c83871448be8b3355416a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 009/120] fix: printing negative bytes and backslashes gave
 text that reads back differently

---
 src/fbfr32.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 49472ad..518e75a 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -665,10 +665,12 @@ struct Fbfr32 {
  private:
   void print_bytes(FILE *iop, const char *s, int len) {
     for (int i = 0; i < len; i++, s++) {
-      if (isprint(*s)) {
-        fputc(*s, iop);
+      auto c = static_cast<unsigned char>(*s);
+      // backslash starts an escape
+      if (isprint(c) && c != '\\') {
+        fputc(c, iop);
       } else {
-        fprintf(iop, "\\%02x", *s);
+        fprintf(iop, "\\%02x", c);
       }
     }
   }
-- 
2.43.0


From 777c022a4101d28428732b031857c27812d7b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 010/120] fix: byte arrays with zero bytes were cut when read
 from text

---
 src/extreader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extreader.h b/src/extreader.h
index 1403e88..416a7be 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -79,8 +79,8 @@ class extreader : public basic_parser {
       });
     } else {
       fml.mutate([&](FBFR32 *fbfr) {
-        return CFadd32(fbfr, fieldid, const_cast<char *>(fvalue.c_str()), 0,
-                       FLD_STRING);
+        return CFadd32(fbfr, fieldid, const_cast<char *>(fvalue.c_str()),
+                       fvalue.size(), FLD_CARRAY);
       });
     }
 
-- 
2.43.0


From dac689c3ebcffbecc609e1666b7205c8ffb5de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 011/120] fix: long strings in expressions overflowed the
 compiled expression

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..befdbf6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -76,7 +76,9 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
+      while (size_ - len_ < len) {
+        size_ *= 2;
+      }
       tree_ = (char *)realloc(tree_, size_);
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
-- 
2.43.0


From d1624e87a4ac36358587f1dc869de264254698e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 012/120] fix: strings with quotes, backslashes or zero bytes
 broke printed and compiled expressions

---
 src/expr.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index befdbf6..d532524 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -299,7 +299,8 @@ class expression_parser : public basic_parser {
                          sizeof(value));
       }
     } else if (string(&tok)) {
-      e = tree_.append(const_string, tok.c_str(), tok.size() + 1);
+      // the string ends at the first zero byte
+      e = tree_.append(const_string, tok.c_str(), strlen(tok.c_str()) + 1);
     } else if (accept('(')) {
       e = parse_expr();
       if (!accept(')')) {
@@ -396,9 +397,16 @@ static char *boolpr(char *tree, FILE *iop) {
     tree += sizeof(value);
     fprintf(iop, "( %f ) ", value);
   } else if (op == const_string) {
-    auto len = strlen(tree);
-    fprintf(iop, "( '%s' ) ", tree);
-    tree += len + 1;
+    fprintf(iop, "( '");
+    for (; *tree != '\0'; tree++) {
+      if (*tree == '\'' || *tree == '\\' || *tree == '\n') {
+        fprintf(iop, "\\%02x", *tree);
+      } else {
+        fputc(*tree, iop);
+      }
+    }
+    fprintf(iop, "' ) ");
+    tree++;
   } else if (op == field) {
     FLDID32 fieldid;
     std::copy_n(tree, sizeof(fieldid), reinterpret_cast<char *>(&fieldid));
-- 
2.43.0


From 7feb587d916d6564de2a8b8c549d4aba4702b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 013/120] fix: text after an expression was ignored

---
 src/expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index d532524..665eb05 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -134,6 +134,10 @@ class expression_parser : public basic_parser {
 
   char *parse() {
     if (parse_expr()) {
+      if (!eof()) {
+        throw basic_parser_error("Unknown binary operator", row_, col_,
+                                 "found '" + std::string(1, sym_) + "'");
+      }
       return tree_.take_tree();
     }
     return nullptr;
-- 
2.43.0


From 37871b2769bc809c33a7dfe289029651c29a185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 014/120] fix: decimal constants in expressions were rounded to
 float

---
 src/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 665eb05..c16a9c6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -294,7 +294,7 @@ class expression_parser : public basic_parser {
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-        double value = std::stof(tok);
+        double value = std::stod(tok);
         e = tree_.append(const_double, reinterpret_cast<char *>(&value),
                          sizeof(value));
       } else {
-- 
2.43.0


From 3f1d8bf34368127e9e19410e61f59d11cbf005a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 015/120] fix: expressions with fractions were negated and
 tested as integers, errors in evaluation ended the process

---
 src/expr.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index c16a9c6..06d616d 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -494,6 +494,13 @@ class eval_value {
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
+  bool to_bool() const {
+    if (type_ == eval_type::is_double) {
+      return d != 0;
+    }
+    return to_long() != 0;
+  }
+
   const char *to_string(char *buf) const {
     if (type_ == eval_type::is_long) {
       sprintf(buf, "%ld", l);
@@ -629,9 +636,12 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     auto val = boolev(fbfr, tree);
     tree = val.tree;
     if (op == unary_minus) {
+      if (val.is_double()) {
+        return eval_value(tree, -val.to_double());
+      }
       return eval_value(tree, -val.to_long());
     } else if (op == logical_negation) {
-      return eval_value(tree, !val.to_long());
+      return eval_value(tree, !val.to_bool());
     } else if (op == bitwise_negation) {
       return eval_value(tree, ~val.to_long());
     }
@@ -701,8 +711,8 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_long() != 0;
+  return fux::fml32::exception_boundary(
+      [&] { return boolev(fbfr, tree + 4).to_bool() ? 1 : 0; }, -1);
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
@@ -714,6 +724,6 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_double();
+  return fux::fml32::exception_boundary(
+      [&] { return boolev(fbfr, tree + 4).to_double(); }, -1);
 }
-- 
2.43.0


From 208f853a111a932b2cefab0183218b1806e9866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 016/120] fix: integer division by zero in an expression ended
 the process

---
 src/expr.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 06d616d..8dec9a6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -608,6 +609,15 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   throw std::runtime_error("unsupported comparison operator");
 }
 
+// The processor traps on these
+static void check_division(long lhs, long rhs) {
+  if (rhs == 0) {
+    throw std::domain_error("division by zero");
+  } else if (rhs == -1 && lhs == std::numeric_limits<long>::min()) {
+    throw std::overflow_error("quotient out of range");
+  }
+}
+
 eval_value boolev(FBFR32 *fbfr, char *tree) {
   char op = *tree++;
   if (op == const_long) {
@@ -654,9 +664,13 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     if (op == multiplication) {
       return apply<std::multiplies>(tree, lhs, rhs);
     } else if (op == division) {
+      if (!lhs.is_double() && !rhs.is_double()) {
+        check_division(lhs.to_long(), rhs.to_long());
+      }
       return apply<std::divides>(tree, lhs, rhs);
     } else if (op == modulus) {
       // Fail on double?
+      check_division(lhs.to_long(), rhs.to_long());
       return eval_value(tree, lhs.to_long() % rhs.to_long());
     } else if (op == addition) {
       return apply<std::plus>(tree, lhs, rhs);
-- 
2.43.0


From 8163007d551cefce10060128f54a16d3e95b3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 017/120] fix: numbers compared with strings or patterns
 overflowed a buffer or followed a bad pointer

---
 src/expr.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 8dec9a6..c0a9708 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -572,7 +572,8 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[64], rbuf[64];
+    // large enough for any double
+    char lbuf[512], rbuf[512];
     lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
     rhs = eval_value(nullptr, 0);
   }
@@ -591,17 +592,19 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
+    char lbuf[512];
     if (regcomp(&regex, rhs.s, 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string(lbuf), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
+    char lbuf[512];
     if (regcomp(&regex, rhs.s, 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string(lbuf), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From 79069595da04413c75e87571514559cbc2a36eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 018/120] fix: two characters or byte arrays in an expression
 always compared equal

---
 src/expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index c0a9708..23b29b9 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -466,6 +466,12 @@ class eval_value {
         s(value),
         type_(eval_type::is_string),
         is_const_(is_const) {}
+  eval_value(char *tree, std::shared_ptr<std::string> value)
+      : tree(tree),
+        s(value->c_str()),
+        type_(eval_type::is_string),
+        is_const_(false),
+        owned_(std::move(value)) {}
 
   bool is_long() const { return type_ == eval_type::is_long; }
   bool is_double() const { return type_ == eval_type::is_double; }
@@ -516,6 +522,7 @@ class eval_value {
  private:
   enum class eval_type { is_long, is_double, is_string } type_;
   bool is_const_;
+  std::shared_ptr<std::string> owned_;
 };
 
 template <template <class> class Op>
@@ -557,7 +564,8 @@ static eval_value boolev_field(FBFR32 *fbfr, char *tree, FLDID32 fieldid,
       auto value = reinterpret_cast<char *>(
           CFfind32(fbfr, fieldid, oc, nullptr, FLD_STRING));
       if (value != nullptr) {
-        return eval_value(tree, value);
+        // The next conversion reuses the memory of this one
+        return eval_value(tree, std::make_shared<std::string>(value));
       } else {
         return eval_value(tree, "");
       }
-- 
2.43.0


From 0c2cfb49e039c9cd0ee90693ec36768f41571fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 019/120] fix: tprealloc did not record the new size, later
 imports overflowed or truncated the buffer

---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..67fa4f8 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -109,6 +109,7 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From fdd18f79052b11a40cc235388200943f0d6f4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 020/120] fix: tpalloc and tprealloc crashed when memory could
 not be allocated

---
 src/mem.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 67fa4f8..8cdeef1 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -73,6 +73,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -108,7 +112,12 @@ char *tprealloc(char *ptr, long size) {
   }
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
-  mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  auto newmem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (newmem == nullptr) {
+    TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
+    return nullptr;
+  }
+  mem = newmem;
   mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
-- 
2.43.0


From e07dd92cf7d2808814521acf22f903f1e076b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 021/120] fix: tprealloc made fielded buffers smaller than
 their content

---
 src/mem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index 8cdeef1..a4be6f2 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -112,6 +112,10 @@ char *tprealloc(char *ptr, long size) {
   }
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
+  if (tptype->reinit != nullptr) {
+    // must not become smaller than its content
+    size = std::max(size, static_cast<long>(tptype->used(mem->data)));
+  }
   auto newmem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
   if (newmem == nullptr) {
     TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
-- 
2.43.0


From 3057cda6009f317306d5afee76e91a566ff6113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 022/120] fix: tpimport overwrote the receiving buffer with
 anything it was given

---
 src/mem.cpp | 65 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index a4be6f2..a5cd083 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstring>
+#include <vector>
 
 #include "misc.h"
 
@@ -53,7 +54,7 @@ static const tptype *typeptr(const char *type, const char *subtype) {
                  strncmp(t.subtype, subtype, sizeof(t.subtype)) == 0));
       });
   if (tptype == std::end(_tptypes)) {
-    TPERROR(TPENOENT, "unknown type [%s] and subtype[%s]", type,
+    TPERROR(TPENOENT, "unknown type [%.8s] and subtype[%.16s]", type,
             subtype == nullptr ? "" : subtype);
     return nullptr;
   }
@@ -189,37 +190,63 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  std::vector<char> exported;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
+    exported.resize(ilen / 4 * 3);
+    try {
+      exported.resize(
+          base64decode(istr, ilen, exported.data(), exported.size()));
+    } catch (const std::exception &e) {
+      TPERROR(TPEPROTO, "%s", e.what());
+      return -1;
+    }
   } else {
-    needed += ilen;
-  }
-
-  auto omem = memptr(*obuf);
-  if (needed > omem->size) {
-    *obuf = tprealloc(*obuf, needed);
-    omem = memptr(*obuf);
+    exported.assign(istr, istr + std::max(ilen, 0L));
   }
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
+  // Validate before anything is changed in the output buffer
+  const size_t header = offsetof(tpmem, data) - offsetof(tpmem, type);
+  if (exported.size() < header) {
+    TPERROR(TPEPROTO, "Not an exported buffer");
+    return -1;
   }
-
-  const auto tptype = typeptr(omem->type, omem->subtype);
+  auto size = static_cast<long>(exported.size() - header);
+  const auto tptype =
+      typeptr(exported.data(),
+              exported.data() + offsetof(tpmem, subtype) - offsetof(tpmem, type));
   if (tptype == nullptr) {
     return -1;
   }
+  if (tptype->used != nullptr) {
+    // Aligned and terminated copy
+    std::vector<long> data(std::max(size, long(tptype->default_size)) /
+                               sizeof(long) +
+                           1);
+    std::copy_n(exported.data() + header, size,
+                reinterpret_cast<char *>(data.data()));
+    if (tptype->used(data.data()) != static_cast<size_t>(size)) {
+      TPERROR(TPEPROTO, "Not an exported buffer");
+      return -1;
+    }
+  }
+
+  auto omem = memptr(*obuf);
+  if (size > omem->size) {
+    auto resized = tprealloc(*obuf, size);
+    if (resized == nullptr) {
+      return -1;
+    }
+    *obuf = resized;
+    omem = memptr(*obuf);
+  }
+  std::copy_n(exported.data(), exported.size(),
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
+
   if (tptype->reinit != nullptr) {
     tptype->reinit(omem->data, omem->size);
   }
-- 
2.43.0


From cb2d679140adb4dbe6d6e5a0ba947cb5be6aae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 023/120] fix: long messages arrived with a random category

---
 src/ipc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..68e1552 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -193,6 +193,7 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     msgfile fmsg;
     fmsg.mtype = data->mtype;
     fmsg.ttype = fux::ipc::file;
+    fmsg.cat = data->cat;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-- 
2.43.0


From cd82cbcdd45d9071159293c64258bc5552d76eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 024/120] fix: failed sends of long messages left temporary
 files and open descriptors behind

---
 src/ipc.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 68e1552..6b0fdea 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -17,6 +17,9 @@
 #include <algorithm>
 #include <cstring>
 #include <iostream>
+#include <utility>
+
+#include <gsl/gsl_util>
 
 namespace fux::ipc {
 
@@ -185,10 +188,19 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     char tmpname[] = "/tmp/msgbase-XXXXXX";
     int fd = mkstemp(tmpname);
     fail_if(fd == -1);
+    bool sent = false;
+    auto cleanup = gsl::finally([&] {
+      if (fd != -1) {
+        close(fd);
+      }
+      if (!sent) {
+        unlink(tmpname);
+      }
+    });
     fail_if(write(fd, data.buf() + sizeof(msgbase),
                   data.size() - sizeof(msgbase)) !=
             data.size() - sizeof(msgbase));
-    fail_if(close(fd) == -1);
+    fail_if(close(std::exchange(fd, -1)) == -1);
 
     msgfile fmsg;
     fmsg.mtype = data->mtype;
@@ -197,11 +209,8 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-    if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
-      unlink(tmpname);
-      return false;
-    }
-    return true;
+    sent = msgsnd_timed(msqid, &fmsg, len, flags, timeout);
+    return sent;
   } else {
     data->ttype = fux::ipc::queue;
     return msgsnd_timed(msqid, data.buf(), data.size(), flags, timeout);
@@ -221,13 +230,19 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   if (data->ttype == fux::ipc::file) {
     char filename[n];
     strcpy(filename, data.as_msgfile().filename);
+    int fd = -1;
+    auto cleanup = gsl::finally([&] {
+      if (fd != -1) {
+        close(fd);
+      }
+    });
     struct stat st;
     fail_if(stat(filename, &st) == -1);
-    int fd = open(filename, 0);
+    fd = open(filename, 0);
     fail_if(fd == -1);
     data.resize(sizeof(msgbase) + st.st_size);
     fail_if(read(fd, data.buf() + sizeof(msgbase), st.st_size) != st.st_size);
-    fail_if(close(fd) == -1);
+    fail_if(close(std::exchange(fd, -1)) == -1);
     fail_if(unlink(filename) == -1);
   }
 }
-- 
2.43.0


From e9e33fa59207ce4646e21806a70fc6a7fb153f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 025/120] fix: the last transactions were stored behind the end
 of the shared memory

---
 src/mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..d8e2bce 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -122,7 +122,7 @@ void mib::init_memory() {
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
 
-  mem_->transactions_off = off;
+  mem_->transactions_off = off - offsetof(mibmem, data);
   transactions().init(100, cfg_.maxgroups);
 
   off += nearest64(transaction_table::needed(transactions().size,
-- 
2.43.0


From 4802b8586834f26ea5ec088996b13e93292ce2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 026/120] fix: a refused client registration made the table
 longer than its capacity

---
 src/mib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index d8e2bce..80a7793 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -313,9 +313,12 @@ size_t mib::make_accesser(pid_t pid) {
     }
   }
   if (at == -1) {
-    at = accessers()->len++;
+    at = accessers()->len;
   }
   auto &accesser = accessers().at(at);
+  if (size_t(at) == accessers()->len) {
+    accessers()->len++;
+  }
   accesser.rpid_timeout = INVALID_TIME;
   accesser.pid = pid;
   return at;
-- 
2.43.0


From 8f55a67bf25c9af1052d38e9f78cda73a7892307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 027/120] fix: copied names kept the end of a longer name that
 was there before

---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..d55ac9a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From 9a6ad5d4a494566ef6ecdc51c8fef85b3cec1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 028/120] fix: transaction identifiers in text form were not
 checked and overflowed

---
 src/trx.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..55fefcb 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -50,6 +50,18 @@ inline XID to_xid(const std::string &s) {
   if (parts.size() != 2 && parts.size() != 3) {
     throw std::logic_error("Invalid XID string");
   }
+  for (size_t i = 0; i < parts.size(); i++) {
+    auto digits = i == 0 ? "0123456789" : "0123456789abcdefABCDEF";
+    auto start = i == 0 && parts[i].compare(0, 1, "-") == 0 ? 1 : 0;
+    if (parts[i].find_first_not_of(digits, start) != std::string::npos) {
+      throw std::logic_error("Invalid XID string");
+    }
+  }
+  if (parts[1].size() % 2 != 0 || parts[1].size() / 2 > XIDDATASIZE / 2 ||
+      (parts.size() == 3 && (parts[2].size() % 2 != 0 ||
+                             parts[2].size() / 2 > XIDDATASIZE / 2))) {
+    throw std::logic_error("Invalid XID string");
+  }
 
   xid.formatID = std::stol(parts[0]);
   xid.gtrid_length = parts[1].size() / 2;
-- 
2.43.0


From fd6e218adf63fd1a77fc37d9d871fb9143b903de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 029/120] fix: a refused transaction kept its place in the
 transaction table

---
 src/trx.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trx.h b/src/trx.h
index 55fefcb..d258c59 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -154,6 +154,9 @@ struct transaction_table {
   }
 
   fux::gttid start(const XID &xid, uint16_t group) {
+    if (group >= max_groups) {
+      throw std::out_of_range("group out of range");
+    }
     for (size_t i = 0; i < len; i++) {
       if ((*this)[i].xid.formatID == -1) {
         return init(i, xid, group);
-- 
2.43.0


From 5edf975019aa64d017faf1c959d8d7773b59faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 030/120] fix: an identifier of no transaction was found as a
 finished transaction

---
 src/trx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trx.h b/src/trx.h
index d258c59..7f604c1 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -171,7 +171,8 @@ struct transaction_table {
   fux::gttid find(XID &xid) {
     for (size_t i = 0; i < len; i++) {
       XID &x = (*this)[i].xid;
-      if (x.formatID == xid.formatID && x.gtrid_length == xid.gtrid_length &&
+      if (x.formatID != -1 && x.formatID == xid.formatID &&
+          x.gtrid_length == xid.gtrid_length &&
           x.bqual_length == xid.bqual_length &&
           memcmp(x.data, xid.data, xid.gtrid_length + xid.bqual_length) == 0) {
         return i;
-- 
2.43.0


From 034736958db3c632b7136b2aae5dc51065d615a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 031/120] fix: processes of other users were taken for dead

---
 src/misc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index d55ac9a..3b939b0 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -5,6 +5,7 @@
 #include <xatmi.h>
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <mutex>
@@ -194,4 +195,4 @@ static constexpr size_t nearest(size_t n, size_t what, size_t mult = 1) {
 
 static constexpr size_t nearest64(size_t n) { return nearest(n, 64); }
 
-inline bool alive(pid_t pid) { return kill(pid, 0) == 0; }
+inline bool alive(pid_t pid) { return kill(pid, 0) == 0 || errno == EPERM; }
-- 
2.43.0


From 815d03b00ff90cfa2cd89fac94f14994ff097465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 032/120] fix: places of dead clients kept the number of a
 queue that was not theirs

---
 src/BBL.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 9bdcb1c..3579371 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -85,11 +85,10 @@ static void monitor_clients() {
       continue;
     }
     if (!alive(accesser.pid)) {
-      accesser.pid = 0;
-      if (accesser.rpid != 0) {
+      if (accesser.rpid != -1) {
         fux::ipc::qdelete(accesser.rpid);
-        accesser.rpid = 0;
       }
+      accesser.invalidate();
     }
   }
 }
-- 
2.43.0


From e382ee2533be2d323d52ed8f1fc7b01b2c9d8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 033/120] fix: the monitor ended or waited for ever when a
 caller's queue was gone or full

---
 src/BBL.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 3579371..e3fdc95 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -55,7 +55,11 @@ static void handle_blocktime() {
       req->cat = fux::ipc::unblock;
       userlog("Sending unblock message to client=%d queue=%0x", int(i),
               acc.rpid);
-      fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::notime);
+      try {
+        fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::noblock);
+      } catch (const std::system_error &e) {
+        userlog("Failed to send unblock message: %s", e.what());
+      }
     }
   }
 }
-- 
2.43.0


From 151cc24ee7de3403d19083ac5432aae6f4cfc25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 034/120] fix: messages without data broke the receiver and
 lengths included the message header

---
 src/client.cpp | 4 ++--
 src/ipc.cpp    | 6 +++++-
 src/ipc.h      | 3 ++-
 src/mem.cpp    | 2 ++
 src/misc.h     | 2 ++
 src/server.cpp | 7 ++++---
 6 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..209c2e1 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -168,12 +168,12 @@ class client {
         }
       }
 
-      res.get_data(data);
+      auto size = res.get_data(data);
       tpurcode = res->rcode;
       *cd = res->cd;
       cds.release(*cd);
       if (len != nullptr) {
-        *len = res.size_data();
+        *len = size;
       }
       if (res->rval == TPMINVAL) {
         fux::atmi::reset_tperrno();
diff --git a/src/ipc.cpp b/src/ipc.cpp
index 6b0fdea..8fec391 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -261,10 +261,14 @@ void msg::set_data(char *data, long len) {
   }
 }
 
-void msg::get_data(char **data) {
+long msg::get_data(char **data) {
+  if (size_data() == 0) {
+    return 0;
+  }
   if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
+  return size_data() - fux::mem::headersize();
 }
 
 }  // namespace fux::ipc
diff --git a/src/ipc.h b/src/ipc.h
index 809518f..1fd8375 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -88,7 +88,8 @@ class msg {
   size_t size_data() const { return bytes_.size() - sizeof(msgmem); }
 
   void set_data(char *data, long len);
-  void get_data(char **data);
+  // Returns length of the data; buffer is not touched when there is none
+  long get_data(char **data);
 
  private:
   std::vector<char> bytes_;
diff --git a/src/mem.cpp b/src/mem.cpp
index a5cd083..e69c49f 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -303,6 +303,8 @@ int tpexport(char *ibuf, long ilen, char *ostr, long *olen, long flags) {
 
 void setowner(char *ptr, char **owner) { memptr(ptr)->owner = owner; }
 
+long headersize() { return offsetof(tpmem, data) - offsetof(tpmem, type); }
+
 long bufsize(char *ptr, long used) {
   auto mem = memptr(ptr);
   const auto tptype = typeptr(mem->type, mem->subtype);
diff --git a/src/misc.h b/src/misc.h
index 3b939b0..55ff9a9 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -143,6 +143,8 @@ namespace fux {
 namespace mem {
 void setowner(char *ptr, char **owner);
 long bufsize(char *ptr, long used = -1);
+// part of bufsize() that is not data
+long headersize();
 }  // namespace mem
 }  // namespace fux
 
diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..1bf3dcf 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -289,8 +289,10 @@ static void dispatch() {
                       main_ptr->mtype(), 0);
 
       thread_ptr->prepare();
-      thread_ptr->req.get_data(&thread_ptr->atmibuf);
-      tpsvcinfo.data = thread_ptr->atmibuf;
+      tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
+      // Requests without data have no buffer
+      tpsvcinfo.data =
+          thread_ptr->req.size_data() != 0 ? thread_ptr->atmibuf : nullptr;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
 
@@ -313,7 +315,6 @@ static void dispatch() {
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
     tpsvcinfo.flags = thread_ptr->req->flags;
-    tpsvcinfo.len = thread_ptr->req.size_data();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-- 
2.43.0


From 5d909f027312c8828f33b9b3f608722338ca074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 035/120] fix: tpgetrply went on with null arguments

---
 src/client.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 209c2e1..141eb00 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -113,8 +113,9 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
-    if (data == nullptr) {
-      TPERROR(TPEINVAL, "data is null");
+    if (data == nullptr || cd == nullptr) {
+      TPERROR(TPEINVAL, "data or cd is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
-- 
2.43.0


From 81fe4fe8b44c798dbc6972cd69bf56ec1c66fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 036/120] fix: late responses of cancelled calls were delivered

---
 src/client.cpp |  3 +++
 src/resp.h     | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 141eb00..38b9666 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -167,6 +167,9 @@ class client {
           cds.buffer(std::move(res));
           continue;
         }
+      } else if (!cds.has(res->cd)) {
+        // Late response for a cancelled or timed out call
+        continue;
       }
 
       auto size = res.get_data(data);
diff --git a/src/resp.h b/src/resp.h
index baa6759..2a3f5ee 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -53,6 +53,8 @@ class responses {
     return 0;
   }
 
+  bool has(int cd) { return calls_.find(cd) != calls_.end(); }
+
   int any_buffered() {
     for (auto it : calls_) {
       if (it.second.status == flags::buffered) {
@@ -63,8 +65,13 @@ class responses {
   }
 
   void buffer(fux::ipc::msg &&res) {
-    calls_[res->cd].res = res;
-    calls_[res->cd].status = flags::buffered;
+    auto it = calls_.find(res->cd);
+    if (it == calls_.end()) {
+      // Nobody waits for this response, e.g. the call was cancelled
+      return;
+    }
+    it->second.res = res;
+    it->second.status = flags::buffered;
   }
 
   bool is_buffered(int cd) { return calls_[cd].status == flags::buffered; }
-- 
2.43.0


From 97973e20292832c58f2d840f09fdeda306c20822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 037/120] fix: a wake-up meant for an earlier call timed out
 the next one

---
 src/client.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 38b9666..faa5cc2 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -121,6 +121,7 @@ class client {
       return -1;
     }
 
+    auto deadline = INVALID_TIME;
     while (true) {
       fux::ipc::msg res;
 
@@ -143,15 +144,21 @@ class client {
       }
 
       if (!has_res) {
-        mibcon_.accessers().at(client_).rpid_timeout =
-            std::chrono::steady_clock::now() +
-            std::chrono::milliseconds(next_blocktime());
+        if (deadline == INVALID_TIME) {
+          deadline = std::chrono::steady_clock::now() +
+                     std::chrono::milliseconds(next_blocktime());
+        }
+        mibcon_.accessers().at(client_).rpid_timeout = deadline;
         fux::ipc::qrecv(rpid, res, 0, 0);
         mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
         userlog("%s received on %0x", __func__, rpid);
       }
 
       if (res->cat == fux::ipc::unblock) {
+        if (std::chrono::steady_clock::now() < deadline) {
+          // Was sent because of some earlier call
+          continue;
+        }
         if (flags & TPGETANY) {
           *cd = 0;
         } else {
-- 
2.43.0


From b7d02777f78ebfb54a1f250ee4fce8a018fab5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 038/120] fix: call descriptors in use were given out again

---
 src/resp.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resp.h b/src/resp.h
index 2a3f5ee..2797a58 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -36,9 +36,9 @@ class responses {
       return -1;
     }
     auto cd = nextseq();
-    if (calls_.find(cd) != calls_.end()) {
-      // If cd wrapped around and cd has still no response
-      // assume it will never come
+    while (calls_.find(cd) != calls_.end()) {
+      // cd wrapped around and this one is still in use
+      cd = nextseq();
     }
     calls_[cd] = response{flags::none, {}};
     return cd;
@@ -78,6 +78,8 @@ class responses {
 
   fux::ipc::msg &buffered(int cd) { return calls_[cd].res; }
 
+  void forget(int cd) { calls_.erase(cd); }
+
   int release(int cd) {
     auto it = calls_.find(cd);
     if (it == calls_.end()) {
-- 
2.43.0


From 100894ca0f4ad2a04aed2ca3a70f92f5a20f9136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 039/120] fix: failed calls kept their call descriptors

---
 src/client.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index faa5cc2..7da535f 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -95,9 +95,14 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
-      fux::atmi::reset_tperrno();
-      return rq->cd;
+    try {
+      if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+        fux::atmi::reset_tperrno();
+        return rq->cd;
+      }
+    } catch (...) {
+      forget(rq->cd);
+      throw;
     }
 
     if (flags & TPNOBLOCK) {
@@ -196,6 +201,8 @@ class client {
     }
   }
 
+  void forget(int cd) { cds.forget(cd); }
+
   int tpcancel(int cd) {
     if (cds.release(cd) == -1) {
       return -1;
@@ -382,7 +389,11 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
         if (cd == -1) {
           return -1;
         }
-        return tpgetrply(&cd, odata, olen, flags);
+        const int call = cd;
+        int rc = tpgetrply(&cd, odata, olen, flags);
+        // No longer waiting for it, e.g. after timeout
+        getclient().forget(call);
+        return rc;
       },
       -1);
 }
-- 
2.43.0


From 0ec322a2a0cf60ebb93eec96850e4fa5b8d75aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 040/120] fix: calls with a null service name crashed

---
 src/client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index 7da535f..2bb75e5 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -60,6 +60,10 @@ class client {
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
                     long flags) try {
+    if (svc == nullptr) {
+      TPERROR(TPEINVAL, "svc is null");
+      return -1;
+    }
     int msqid = repo_.get_queue(grpno, svc);
     return tpacall_queue(msqid, svc, data, len, flags);
   } catch (const std::out_of_range &e) {
-- 
2.43.0


From 0b1f130149e6eb80a612832ce4ce04715c3d408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 041/120] fix: a stop request for another server was also
 treated as a service request

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 1bf3dcf..9ddecf8 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -309,6 +309,7 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
     }  // lock
-- 
2.43.0


From 326cc2dc0ef86428d6dc53ed48e48f1867013560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 042/120] fix: requests for services no longer advertised
 crashed the server

---
 src/server.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 9ddecf8..a1b9e63 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -259,6 +259,18 @@ struct server_thread {
     }
   }
 
+  // For requests that did not get a proper reply
+  void fail(int rval) {
+    try {
+      if (fux::tx::transactional()) {
+        fux::tx_end(false);
+      }
+      reply(rval, 0, nullptr, 0, TPNOFLAGS);
+    } catch (const std::exception &e) {
+      userlog("Failed to reply: %s", e.what());
+    }
+  }
+
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
       fux::tx_end(rval == TPSUCCESS);
@@ -322,8 +334,14 @@ static void dispatch() {
       fux::tx_join(thread_ptr->req->gttid);
     }
 
+    auto it = main_ptr->advertisements.find(tpsvcinfo.name);
+    if (it == main_ptr->advertisements.end()) {
+      userlog("Service %s is not advertised", tpsvcinfo.name);
+      thread_ptr->fail(TPENOENT);
+      continue;
+    }
+
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
       it->second(&tpsvcinfo);
     }
   }
-- 
2.43.0


From e5b065a364d14e1a614974ac0c8bc594507fa16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 043/120] fix: callers of services that did not return properly
 got no reply

---
 src/server.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index a1b9e63..7ed755b 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -342,7 +342,15 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      it->second(&tpsvcinfo);
+      try {
+        it->second(&tpsvcinfo);
+        userlog("Service %s returned without tpreturn", tpsvcinfo.name);
+      } catch (const std::exception &e) {
+        userlog("Service %s failed: %s", tpsvcinfo.name, e.what());
+      } catch (...) {
+        userlog("Service %s failed", tpsvcinfo.name);
+      }
+      thread_ptr->fail(TPESVCERR);
     }
   }
 }
-- 
2.43.0


From 859976681a0d7248e07123a0fc478a064cf05072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 044/120] fix: a failing tpforward used the data after freeing
 it

---
 src/server.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 7ed755b..f14d999 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -217,10 +217,6 @@ struct server_thread {
     int msqid = get_queue(svc);
     res.set_data(data, len);
 
-    if (data != nullptr && data != atmibuf) {
-      tpfree(data);
-    }
-
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
@@ -233,6 +229,10 @@ struct server_thread {
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
+
     longjmp(tpreturn_env, 1);
   }
 
-- 
2.43.0


From a8c9ac8b77cfe374154594bdd498493f31ce0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 045/120] fix: requests without reply could not be forwarded

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index f14d999..5ef7b82 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -223,7 +223,7 @@ struct server_thread {
     checked_copy(svc, res->servicename);
     res->flags = flags;
     res->replyq = req->replyq;
-    res->mtype = req->cd;
+    res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
 
-- 
2.43.0


From 22594186e2bc04cf736aaad715fabf125a0c0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 046/120] fix: no reply was sent when tpreturn could not send
 its data

---
 src/ipc.cpp    | 3 +++
 src/server.cpp | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 8fec391..7b44d5b 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -255,6 +255,9 @@ void msg::set_data(char *data, long len) {
     return;
   }
   auto needed = fux::mem::bufsize(data, len);
+  if (needed < 0) {
+    throw std::runtime_error("not a typed buffer");
+  }
   resize_data(needed);
   if (tpexport(data, len, (*this)->data, &needed, 0) == -1) {
     throw std::runtime_error("tpexport failed");
diff --git a/src/server.cpp b/src/server.cpp
index 5ef7b82..4450de8 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -275,7 +275,12 @@ struct server_thread {
     if (fux::tx::transactional()) {
       fux::tx_end(rval == TPSUCCESS);
     }
-    reply(rval, rcode, data, len, flags);
+    try {
+      reply(rval, rcode, data, len, flags);
+    } catch (const std::exception &e) {
+      userlog("tpreturn failed: %s", e.what());
+      fail(TPESVCERR);
+    }
     longjmp(tpreturn_env, 1);
   }
 };
-- 
2.43.0


From fb281165166c3b5164e1a02598948a0b52b3e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 047/120] fix: invalid requests ended the server

---
 src/server.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 4450de8..0162c26 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -306,12 +306,26 @@ static void dispatch() {
                       main_ptr->mtype(), 0);
 
       thread_ptr->prepare();
-      tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
+      try {
+        tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
+      } catch (const std::exception &e) {
+        userlog("Invalid request: %s", e.what());
+        thread_ptr->fail(TPESVCERR);
+        continue;
+      }
       // Requests without data have no buffer
       tpsvcinfo.data =
           thread_ptr->req.size_data() != 0 ? thread_ptr->atmibuf : nullptr;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
+        char type[8];
+        if (tptypes(tpsvcinfo.data, type, nullptr) == -1 ||
+            strncmp(type, "FML32", sizeof(type)) != 0 ||
+            buf.count(TA_SRVID) < 1 || buf.count(TA_GRPNO) < 1) {
+          userlog("Invalid stop request");
+          thread_ptr->fail(TPESVCERR);
+          continue;
+        }
 
         userlog("Received admin message");
         if (main_ptr->handle(thread_ptr->req->mtype, buf)) {
-- 
2.43.0


From 15804af17bc9fd3362ae6cb631ad82b0e0276641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 048/120] fix: opening and closing resource managers crashed in
 processes without a group

---
 src/tx.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..c7310e4 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -92,17 +92,21 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() {
-  char *info = getctxt().grpcfg->openinfo;
+  // Clients do not belong to a group
+  char noinfo[] = "";
+  auto *grpcfg = getctxt().grpcfg;
+  char *info = grpcfg != nullptr ? grpcfg->openinfo : noinfo;
   auto len = strlen(xasw->name);
-  if (strlen(getctxt().grpcfg->openinfo) > 0) {
+  if (strlen(info) > 0) {
     if (strncmp(xasw->name, info, len) != 0 || info[len] != ':') {
       userlog("Resource Manager mismatch %s and open info %s", xasw->name,
               info);
       return TX_ERROR;
     }
+    info += len + 1;
   }
 
-  auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
       getctxt().notrx();
@@ -119,8 +123,14 @@ int tx_close() {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
-  auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
-                                   TMNOFLAGS);
+  if (getctxt().state == tx_state::s0) {
+    return TX_OK;
+  }
+  char noinfo[] = "";
+  auto *grpcfg = getctxt().grpcfg;
+  auto xarc =
+      xasw->xa_close_entry(grpcfg != nullptr ? grpcfg->closeinfo : noinfo,
+                           fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     getctxt().state = tx_state::s0;
     return TX_OK;
-- 
2.43.0


From 45e22cf07b6341211d9e2a83c8d999ed5095299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 049/120] fix: transaction characteristics were not initialized

---
 src/tx.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index c7310e4..3722d07 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -54,6 +54,10 @@ enum class tx_state {
 struct tx_context {
   tx_context(mib &mibcon) : mibcon_(mibcon) {
     state = tx_state::s0;
+    info = {};
+    info.when_return = TX_COMMIT_COMPLETED;
+    info.transaction_control = TX_UNCHAINED;
+    info.transaction_state = TX_ACTIVE;
     if (fux::tx::grpno != 0) {
       grpcfg = &mibcon_.group_by_id(fux::tx::grpno);
       fux::tx::grpidx = mibcon_.find_group(fux::tx::grpno);
@@ -110,7 +114,9 @@ int tx_open() {
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
       getctxt().notrx();
-      getctxt().state = tx_state::s1;
+      getctxt().state = getctxt().info.transaction_control == TX_CHAINED
+                            ? tx_state::s2
+                            : tx_state::s1;
     }
     return TX_OK;
   }
-- 
2.43.0


From 5476f242171ae9876dbfbe62d429f5a6d2faea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 050/120] fix: tx_begin inside a transaction made its calls
 part of another transaction

---
 src/tx.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index 3722d07..9e34a67 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -179,6 +179,10 @@ int tx_begin() {
     // return TX_OK;
   }
 
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   info.xid = xid();
   getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
-- 
2.43.0


From 9d876201ceff44ecae3752258d9e13bb363f77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 051/120] fix: a transaction that could not be started was
 reported as active

---
 src/tx.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 9e34a67..b58d31f 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -174,6 +174,7 @@ static XID xid() {
   return xid;
 }
 
+static void finished(XID *xid);
 int tx_begin() {
   if (TMREGISTER) {
     // return TX_OK;
@@ -186,7 +187,16 @@ int tx_begin() {
   TXINFO info;
   info.xid = xid();
   getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
-  return _tx_start(&info);
+  auto rc = _tx_start(&info);
+  if (rc != TX_OK) {
+    finished(&info.xid);
+  }
+  return rc;
+}
+
+static void finished(XID *xid) {
+  auto &transactions = getmib().transactions();
+  transactions.end(transactions.find(*xid));
 }
 
 static bool tx_set1(int rc) {
@@ -380,6 +390,10 @@ static int _tx_start(TXINFO *info, long flags) {
     return TX_OK;
   }
 
+  if (info != nullptr) {
+    getctxt().notrx();
+  }
+
   if (xarc == XAER_RMERR) {
     return TX_ERROR;
   } else if (xarc == XAER_DUPID) {
-- 
2.43.0


From 63c4eeca1e8c372fc114bc925a214242e8195cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 052/120] fix: commit and rollback changed the transaction
 state twice and reported a wrong outcome

---
 src/tx.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index b58d31f..9621a81 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -217,7 +217,7 @@ static int change_state(int rc) {
     } else if (getctxt().state == tx_state::s4) {
       // Chained
       getctxt().state = tx_state::s2;
-      return tx_begin();
+      return tx_begin() == TX_OK ? rc : rc + TX_NO_BEGIN;
     }
   } else if (tx_set2(rc)) {
     if (getctxt().state == tx_state::s4) {
@@ -254,11 +254,11 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
-int _tx_end(TXINFO *info);
+static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
+  auto rc = _tx_end(&info, TMSUCCESS);
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
@@ -268,7 +268,7 @@ int tx_commit() {
 
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
-  bool commit = true;
+  bool commit = rc == TX_OK;
   for (auto &p : branches1) {
     if (p.result == XA_RDONLY) {
       // Nothing to do
@@ -290,14 +290,14 @@ int tx_commit() {
     return change_state(TX_OK);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
+    return change_state(TX_ROLLBACK);
   }
 }
 
 int tx_rollback() {
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
+  auto rc = _tx_end(&info, TMSUCCESS);
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
@@ -355,11 +355,6 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-int _tx_end(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUCCESS);
-  return change_state(rc);
-}
-
 int _tx_end(bool ok) {
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-- 
2.43.0


From 87d9bcaa49fed7121a3045191eb9828112b4dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 053/120] fix: finished transactions kept their place in the
 transaction table

---
 src/tx.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index 9621a81..4246ff9 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -287,9 +287,11 @@ int tx_commit() {
   if (commit) {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
+    finished(&info.xid);
     return change_state(TX_OK);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
+    finished(&info.xid);
     return change_state(TX_ROLLBACK);
   }
 }
@@ -304,6 +306,7 @@ int tx_rollback() {
   std::vector<branch> branches = collect(&info.xid);
 
   command(branches, &info.xid, fux::tm::rollback);
+  finished(&info.xid);
 
   return change_state(TX_OK);
 }
-- 
2.43.0


From 5a5aec128478c8710f567b8f1a17720318151b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 054/120] fix: participants were left without an outcome when
 another one could not be reached or did not answer

---
 src/tx.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 4246ff9..0c274ba 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -482,40 +482,39 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
 
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
-  fux::fml32buf buf;
-  int pending = 0;
-
   for (auto &p : branches) {
+    fux::fml32buf buf;
     buf.put(TA_XAFUNC, 0, command);
     buf.put(TA_XID, 0, fux::to_string(xid));
     buf.put(TA_RMID, 0, p.grpno);
     buf.put(TA_FLAGS, 0, 0);
     userlog("Calling TM in group %d for %s", p.grpno,
             fux::to_string(xid).c_str());
+    p.result = XAER_RMFAIL;
     p.cd = tpacall_group(p.grpno, const_cast<char *>(".TM"),
                          reinterpret_cast<char *>(*buf.ptrptr()), 0,
                          TPNOTIME | TPNOTRAN);
     if (p.cd == -1) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
-      p.result = TMER_TMERR;
-      break;
     }
-    pending++;
   }
 
-  while (pending > 0) {
-    int cd;
+  for (auto &p : branches) {
+    if (p.cd == -1) {
+      continue;
+    }
+    fux::fml32buf buf;
+    int cd = p.cd;
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    if (tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, 0) ==
+        -1) {
+      userlog("No answer from TM in group %d (%s)", p.grpno,
+              tpstrerror(tperrno));
+      tpcancel(p.cd);
+      continue;
     }
+    p.result = buf.get<long>(TA_XARET, 0, XAER_RMFAIL);
   }
 }
 
-- 
2.43.0


From edef50e061fd8880d3adbe18b7b5368f5efba087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 055/120] fix: commit was reported as successful when
 participants did not commit

---
 src/tx.cpp | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0c274ba..fd86a54 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -255,6 +255,37 @@ static std::vector<branch> collect(XID *xid) {
 }
 
 static int _tx_end(TXINFO *info, long flags);
+
+// Result of the 2nd phase
+static int outcome(const std::vector<branch> &branches, bool commit) {
+  size_t opposite = 0;
+  bool mixed = false;
+  bool hazard = false;
+  for (auto &p : branches) {
+    if (p.result == XA_HEURMIX) {
+      mixed = true;
+    } else if (p.result == XA_HEURHAZ) {
+      hazard = true;
+    } else if (commit) {
+      if (p.result == XA_HEURRB ||
+          (p.result >= (XA_RBBASE) && p.result <= (XA_RBEND))) {
+        opposite++;
+      } else if (p.result != XA_OK && p.result != XA_HEURCOM) {
+        hazard = true;
+      }
+    } else if (p.result == XA_HEURCOM) {
+      opposite++;
+    }
+  }
+  if (opposite > 0 && opposite == branches.size()) {
+    return commit ? TX_ROLLBACK : TX_COMMITTED;
+  }
+  if (mixed || opposite > 0) {
+    return TX_MIXED;
+  }
+  return hazard ? TX_HAZARD : TX_OK;
+}
+
 int tx_commit() {
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
@@ -288,11 +319,12 @@ int tx_commit() {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
     finished(&info.xid);
-    return change_state(TX_OK);
+    return change_state(outcome(branches2, true));
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
     finished(&info.xid);
-    return change_state(TX_ROLLBACK);
+    rc = outcome(branches2, false);
+    return change_state(rc == TX_OK ? TX_ROLLBACK : rc);
   }
 }
 
@@ -308,7 +340,7 @@ int tx_rollback() {
   command(branches, &info.xid, fux::tm::rollback);
   finished(&info.xid);
 
-  return change_state(TX_OK);
+  return change_state(outcome(branches, false));
 }
 
 static int _tx_end(TXINFO *info, long flags) {
-- 
2.43.0


From 856e1a361be3eeda0cb3c6d6e5bdbcca564a5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 056/120] fix: suspended transactions were lost by failures and
 resumed without their identifier

---
 src/trx.cpp | 13 ++++++++++++-
 src/tx.cpp  | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/trx.cpp b/src/trx.cpp
index a097296..56300f6 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -193,9 +193,16 @@ int tpresume(TPTRANID *tranid, long flags) {
     TPERROR(TPEINVAL, "Invalid TRANID, too big");
     return -1;
   }
-  TXINFO info;
+  TXINFO info = {};
   std::copy_n(reinterpret_cast<char *>(&tranid->info), sizeof(*tranid),
               reinterpret_cast<char *>(&info.xid));
+  const long datasize = sizeof(*tranid) - offsetof(XID, data);
+  if (info.xid.formatID == -1 || info.xid.gtrid_length < 0 ||
+      info.xid.gtrid_length > datasize || info.xid.bqual_length < 0 ||
+      info.xid.bqual_length > datasize - info.xid.gtrid_length) {
+    TPERROR(TPEINVAL, "Invalid TRANID");
+    return -1;
+  }
 
   int rc = _tx_resume(&info);
   if (rc == TX_OK) {
@@ -203,5 +210,9 @@ int tpresume(TPTRANID *tranid, long flags) {
     return 0;
   }
 
+  if (rc == TX_EINVAL) {
+    TPERROR(TPETRAN, "Transaction does not exist");
+    return -1;
+  }
   return trx_err(rc, "_tx_start");
 }
diff --git a/src/tx.cpp b/src/tx.cpp
index fd86a54..d1fa1af 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -66,6 +66,7 @@ struct tx_context {
   }
   void notrx() {
     info.xid.formatID = -1;
+    info.transaction_state = TX_ACTIVE;
     gttid = fux::bad_gttid;
   }
   tx_state state;
@@ -299,7 +300,7 @@ int tx_commit() {
 
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
-  bool commit = rc == TX_OK;
+  bool commit = rc == TX_OK && info.transaction_state == TX_ACTIVE;
   for (auto &p : branches1) {
     if (p.result == XA_RDONLY) {
       // Nothing to do
@@ -356,7 +357,9 @@ static int _tx_end(TXINFO *info, long flags) {
           xarc);
   if (info != nullptr) {
     *info = getctxt().info;
-    getctxt().notrx();
+    if (xarc == XA_OK || flags != TMSUSPEND) {
+      getctxt().notrx();
+    }
   }
 
   int rc = TX_OK;
@@ -441,12 +444,38 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  if (info == nullptr) {
+    return _tx_start(info, TMRESUME);
+  }
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+  fux::gttid gttid;
+  try {
+    gttid = getmib().transactions().find(info->xid);
+  } catch (const std::out_of_range &) {
+    return TX_EINVAL;
+  }
+  auto rc = _tx_start(info, TMRESUME);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  }
+  return rc;
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
 namespace fux {
-void tx_resume() { _tx_resume(nullptr); }
+void tx_resume() {
+  auto rc = _tx_resume(nullptr);
+  if (rc != TX_OK && rc != TX_PROTOCOL_ERROR) {
+    // Still inside the transaction but it can't be committed
+    getctxt().info.transaction_state = TX_ROLLBACK_ONLY;
+    getctxt().state = getctxt().state == tx_state::s2 ? tx_state::s4
+                                                      : tx_state::s3;
+  }
+}
 void tx_suspend() { _tx_suspend(nullptr); }
 void tx_end(bool ok) { _tx_end(ok); }
 void tx_join(fux::gttid gttid) {
-- 
2.43.0


From df3123b11c11863f0b605056a8b6694bc7384919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 057/120] fix: services joining a transaction did not pass it
 on and requests of unknown transactions ended the server

---
 src/server.cpp |  8 +++++++-
 src/tx.cpp     | 16 +++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 0162c26..b7ba918 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -350,7 +350,13 @@ static void dispatch() {
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-      fux::tx_join(thread_ptr->req->gttid);
+      try {
+        fux::tx_join(thread_ptr->req->gttid);
+      } catch (const std::exception &e) {
+        userlog("Failed to join transaction: %s", e.what());
+        thread_ptr->fail(TPESVCERR);
+        continue;
+      }
     }
 
     auto it = main_ptr->advertisements.find(tpsvcinfo.name);
diff --git a/src/tx.cpp b/src/tx.cpp
index d1fa1af..d48738e 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -479,10 +479,20 @@ void tx_resume() {
 void tx_suspend() { _tx_suspend(nullptr); }
 void tx_end(bool ok) { _tx_end(ok); }
 void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
+  if (getctxt().state == tx_state::s0) {
+    // Does not use resource managers
+    return;
+  }
   TXINFO info;
-  info.xid = t.xid;
-  _tx_start(&info, TMJOIN);
+  info.xid = getmib().transactions().at(gttid).xid;
+  if (info.xid.formatID == -1) {
+    throw std::out_of_range("Transaction not found");
+  }
+  getmib().transactions().join(gttid, fux::tx::grpidx);
+  if (_tx_start(&info, TMJOIN) != TX_OK) {
+    throw std::runtime_error("Failed to join transaction");
+  }
+  getctxt().gttid = gttid;
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From 11ea476fb311bee4c715a98a079f51cd07cd20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 058/120] fix: tx_commit reported a rolled back transaction as
 committed when all participants committed on their own

---
 src/tx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index d48738e..3f88c64 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -325,7 +325,12 @@ int tx_commit() {
     command(branches2, &info.xid, fux::tm::rollback);
     finished(&info.xid);
     rc = outcome(branches2, false);
-    return change_state(rc == TX_OK ? TX_ROLLBACK : rc);
+    if (rc == TX_OK) {
+      rc = TX_ROLLBACK;
+    } else if (rc == TX_COMMITTED) {
+      rc = TX_MIXED;
+    }
+    return change_state(rc);
   }
 }
 
-- 
2.43.0


From a495f0b9cf16463ea434284cf6a23c7f7f8038b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 059/120] fix: transactions of processes without a group
 included the first group

---
 src/tx.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 3f88c64..fbeb9d0 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -187,7 +187,12 @@ int tx_begin() {
 
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  auto &transactions = getmib().transactions();
+  getctxt().gttid = transactions.start(info.xid, fux::tx::grpidx);
+  if (fux::tx::grpno == 0) {
+    // Does not belong to any group
+    transactions.at(getctxt().gttid).groups[fux::tx::grpidx] = 0;
+  }
   auto rc = _tx_start(&info);
   if (rc != TX_OK) {
     finished(&info.xid);
-- 
2.43.0


From db529f41a0fc45c31dddf3a6834305a4e004cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 060/120] fix: services returning success marked their
 transaction as failed and could not join another one after a failure

---
 src/server.cpp |  8 +++++---
 src/trx.h      |  2 +-
 src/tx.cpp     | 12 +++++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index b7ba918..38239e1 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -210,8 +210,8 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
-      fux::tx_end(true);
+    if (fux::tx::transactional() && !fux::tx_end(true)) {
+      throw std::runtime_error("transaction failed");
     }
 
     int msqid = get_queue(svc);
@@ -273,7 +273,9 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+      if (!fux::tx_end(rval == TPMINVAL) && rval == TPMINVAL) {
+        rval = TPESVCERR;
+      }
     }
     try {
       reply(rval, rcode, data, len, flags);
diff --git a/src/trx.h b/src/trx.h
index 7f604c1..3d481e4 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -19,7 +19,7 @@ bool transactional();
 void tx_resume();
 void tx_suspend();
 void tx_join(fux::gttid id);
-void tx_end(bool ok);
+bool tx_end(bool ok);
 
 inline std::string to_string(XID *xid) {
   char buf[32];
diff --git a/src/tx.cpp b/src/tx.cpp
index fbeb9d0..dec7df2 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -403,10 +403,16 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-int _tx_end(bool ok) {
+static bool _tx_end(bool ok) {
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-  return change_state(rc);
+  // The transaction goes on without this process
+  if (getctxt().state == tx_state::s3) {
+    getctxt().state = tx_state::s1;
+  } else if (getctxt().state == tx_state::s4) {
+    getctxt().state = tx_state::s2;
+  }
+  return rc == TX_OK;
 }
 
 static int _tx_start(TXINFO *info, long flags) {
@@ -487,7 +493,7 @@ void tx_resume() {
   }
 }
 void tx_suspend() { _tx_suspend(nullptr); }
-void tx_end(bool ok) { _tx_end(ok); }
+bool tx_end(bool ok) { return _tx_end(ok); }
 void tx_join(fux::gttid gttid) {
   if (getctxt().state == tx_state::s0) {
     // Does not use resource managers
-- 
2.43.0


From 9ac160671174449465474cf0505b76f28f73f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 061/120] fix: services left their own transactions open and
 ended those of their callers

---
 src/tx.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index dec7df2..9fb7b4f 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -73,6 +73,7 @@ struct tx_context {
   group *grpcfg = nullptr;
   TXINFO info;
   fux::gttid gttid;
+  fux::gttid joined = fux::bad_gttid;
   mib &mibcon_;
 };
 
@@ -84,6 +85,12 @@ static tx_context &getctxt() {
   return *txctxt;
 }
 
+// Takes part in a transaction started by some other process
+static bool joined() {
+  return getctxt().gttid != fux::bad_gttid &&
+         getctxt().gttid == getctxt().joined;
+}
+
 int _tx_start(TXINFO *info);
 static int rm_err(int xarc, const char *func) {
   if (xarc == XAER_RMERR) {
@@ -189,6 +196,7 @@ int tx_begin() {
   info.xid = xid();
   auto &transactions = getmib().transactions();
   getctxt().gttid = transactions.start(info.xid, fux::tx::grpidx);
+  getctxt().joined = fux::bad_gttid;
   if (fux::tx::grpno == 0) {
     // Does not belong to any group
     transactions.at(getctxt().gttid).groups[fux::tx::grpidx] = 0;
@@ -293,6 +301,9 @@ static int outcome(const std::vector<branch> &branches, bool commit) {
 }
 
 int tx_commit() {
+  if (joined()) {
+    return TX_PROTOCOL_ERROR;
+  }
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
   if (rc == TX_PROTOCOL_ERROR) {
@@ -340,6 +351,9 @@ int tx_commit() {
 }
 
 int tx_rollback() {
+  if (joined()) {
+    return TX_PROTOCOL_ERROR;
+  }
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
   if (rc == TX_PROTOCOL_ERROR) {
@@ -404,6 +418,19 @@ int _tx_suspend(TXINFO *info) {
 }
 
 static bool _tx_end(bool ok) {
+  if (!joined()) {
+    // Started here and nobody else will end it
+    if (getctxt().state == tx_state::s4) {
+      getctxt().state = tx_state::s3;
+      tx_rollback();
+      getctxt().state = tx_state::s2;
+    } else {
+      tx_rollback();
+    }
+    return false;
+  }
+  getctxt().joined = fux::bad_gttid;
+
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
   // The transaction goes on without this process
@@ -509,6 +536,7 @@ void tx_join(fux::gttid gttid) {
     throw std::runtime_error("Failed to join transaction");
   }
   getctxt().gttid = gttid;
+  getctxt().joined = gttid;
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From 9cb53d7e6b34bd981cb7e6baa68f9bdfcf147f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 062/120] fix: forwarded requests lost their transaction

---
 src/server.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 38239e1..2ecc6ea 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -209,8 +209,9 @@ struct server_thread {
   jmp_buf tpreturn_env;
 
   void tpforward(char *svc, char *data, long len, long flags) {
-    auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional() && !fux::tx_end(true)) {
+    const bool transactional = fux::tx::transactional();
+    auto gttid = transactional ? fux::tx::gttid() : fux::bad_gttid;
+    if (transactional && !fux::tx_end(true)) {
       throw std::runtime_error("transaction failed");
     }
 
@@ -221,7 +222,7 @@ struct server_thread {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = transactional ? flags | TPTRAN : flags;
     res->replyq = req->replyq;
     res->mtype = req->mtype;
     res->cd = req->cd;
-- 
2.43.0


From 0e716947074f3ae8bceb621626343618ae47467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 063/120] fix: the transaction table was used without its lock

---
 src/tx.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 9fb7b4f..2f6fc2f 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -194,12 +194,15 @@ int tx_begin() {
 
   TXINFO info;
   info.xid = xid();
-  auto &transactions = getmib().transactions();
-  getctxt().gttid = transactions.start(info.xid, fux::tx::grpidx);
-  getctxt().joined = fux::bad_gttid;
-  if (fux::tx::grpno == 0) {
-    // Does not belong to any group
-    transactions.at(getctxt().gttid).groups[fux::tx::grpidx] = 0;
+  {
+    auto lock = getmib().data_lock();
+    auto &transactions = getmib().transactions();
+    getctxt().gttid = transactions.start(info.xid, fux::tx::grpidx);
+    getctxt().joined = fux::bad_gttid;
+    if (fux::tx::grpno == 0) {
+      // Does not belong to any group
+      transactions.at(getctxt().gttid).groups[fux::tx::grpidx] = 0;
+    }
   }
   auto rc = _tx_start(&info);
   if (rc != TX_OK) {
@@ -209,6 +212,7 @@ int tx_begin() {
 }
 
 static void finished(XID *xid) {
+  auto lock = getmib().data_lock();
   auto &transactions = getmib().transactions();
   transactions.end(transactions.find(*xid));
 }
@@ -258,6 +262,7 @@ static void clean_tlog(XID *xid) {
 
 static std::vector<branch> collect(XID *xid) {
   std::vector<branch> branches;
+  auto lock = getmib().data_lock();
   auto max = getmib().transactions().max_groups;
   auto &tx = getmib().transactions()[getmib().transactions().find(*xid)];
   for (size_t group = 0; group < max; group++) {
@@ -496,6 +501,7 @@ int _tx_resume(TXINFO *info) {
   }
   fux::gttid gttid;
   try {
+    auto lock = getmib().data_lock();
     gttid = getmib().transactions().find(info->xid);
   } catch (const std::out_of_range &) {
     return TX_EINVAL;
@@ -527,11 +533,14 @@ void tx_join(fux::gttid gttid) {
     return;
   }
   TXINFO info;
-  info.xid = getmib().transactions().at(gttid).xid;
-  if (info.xid.formatID == -1) {
-    throw std::out_of_range("Transaction not found");
+  {
+    auto lock = getmib().data_lock();
+    info.xid = getmib().transactions().at(gttid).xid;
+    if (info.xid.formatID == -1) {
+      throw std::out_of_range("Transaction not found");
+    }
+    getmib().transactions().join(gttid, fux::tx::grpidx);
   }
-  getmib().transactions().join(gttid, fux::tx::grpidx);
   if (_tx_start(&info, TMJOIN) != TX_OK) {
     throw std::runtime_error("Failed to join transaction");
   }
-- 
2.43.0


From e445be5bf7f07f6ffc3cd0d39bb2fc1bd611818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:20 +0000
Subject: [PATCH 064/120] fix: the transaction manager crashed on commands that
 are not FML32 buffers

---
 src/tx.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index 2f6fc2f..892bb72 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -678,6 +678,13 @@ static void tm(fux::fml32buf &buf) {
 }
 
 extern "C" void TM(TPSVCINFO *svcinfo) {
+  char type[8];
+  if (svcinfo->data == nullptr ||
+      tptypes(svcinfo->data, type, nullptr) == -1 ||
+      strncmp(type, "FML32", sizeof(type)) != 0) {
+    userlog("Invalid command for TM");
+    tpreturn(TPFAIL, 0, svcinfo->data, svcinfo->len, 0);
+  }
   fux::fml32buf buf(svcinfo);
   tm(buf);
   fux::tpreturn(TPSUCCESS, 0, buf);
-- 
2.43.0


From cbe13fcf4bba76ecf2877a63b0f5ba731956d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 065/120] fix: servers, the monitor and administrative requests
 changed the registry without its lock

---
 src/BBL.cpp       |  2 ++
 src/server.cpp    | 20 ++++++++++++++++----
 src/tpadmcall.cpp |  1 +
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index e3fdc95..674cde1 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -66,6 +66,7 @@ static void handle_blocktime() {
 
 static void monitor_servers() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto servers = m.servers();
 
   for (int i = servers->len - 1; i >= 0; i--) {
@@ -81,6 +82,7 @@ static void monitor_servers() {
 
 static void monitor_clients() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto accessers = m.accessers();
 
   for (int i = accessers->len - 1; i >= 0; i--) {
diff --git a/src/server.cpp b/src/server.cpp
index 2ecc6ea..aab232d 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -89,8 +89,14 @@ struct server_main {
     mtype_ = std::numeric_limits<long>::min();
   }
 
-  void active() { m_.servers().at(mib_server).state = state_t::ACTive; }
-  void inactive() { m_.servers().at(mib_server).state = state_t::INActive; }
+  void active() {
+    auto lock = m_.data_lock();
+    m_.servers().at(mib_server).state = state_t::ACTive;
+  }
+  void inactive() {
+    auto lock = m_.data_lock();
+    m_.servers().at(mib_server).state = state_t::INActive;
+  }
 
   int tpadvertisex(const char *svcname, void (*func)(TPSVCINFO *), long flags) {
     // TODO: flags
@@ -143,10 +149,13 @@ struct server_main {
     auto it = advertisements.find(svcname);
 
     if (it != advertisements.end()) {
+      {
+        auto lock = m_.data_lock();
+        m_.unadvertise(svcname, mib_queue, mib_server);
+      }
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
-      m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
       return -1;
@@ -458,7 +467,10 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   fux::tx::grpno = grpno;
 
   auto thread_count = m.servers().at(main_ptr->mib_server).mindispatchthreads;
-  main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  {
+    auto lock = m.data_lock();
+    main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  }
   main_ptr->mib_queue = m.servers().at(main_ptr->mib_server).rqaddr;
   main_ptr->argc = argc;
   main_ptr->argv = argv;
diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..d8d1c04 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -79,6 +79,7 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
   auto rqaddr = "a";
 
   auto &m = getmib();
+  auto lock = m.data_lock();
 
   auto group_idx = m.group_index(srvgrp);
   if (group_idx == mib::badoff) {
-- 
2.43.0


From 56242ac1bc93c8dd72370e528aa28686e372cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 066/120] fix: operations failed when a signal arrived while
 waiting for the registry lock

---
 src/ipc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 7b44d5b..722ded6 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -83,7 +83,11 @@ int seminit(key_t key, int nsems) {
 }
 
 static void semop(int semid, struct sembuf sop) {
-  if (semop(semid, &sop, 1) == -1) {
+  int rc;
+  do {
+    rc = semop(semid, &sop, 1);
+  } while (rc == -1 && errno == EINTR);
+  if (rc == -1) {
     throw std::system_error(errno, std::generic_category(),
                             "Semaphore lock failed");
   }
-- 
2.43.0


From 3fb9f05fa87e64c9748e70e6d796f7fb0744f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 067/120] fix: servers were reported in the wrong group

---
 src/tpadmcall.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index d8d1c04..fff256f 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -137,11 +137,13 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < srv.length(); i++) {
     auto &server = srv.at(i);
+    auto group_idx = m.find_group(server.grpno);
 
-    out.put(TA_SRVGRP, oc, m.groups().at(server.group_idx).srvgrp);
+    out.put(TA_SRVGRP, oc,
+            group_idx != mib::badoff ? m.groups().at(group_idx).srvgrp : "");
     out.put(TA_SRVID, oc, server.srvid);
     out.put(TA_SERVERNAME, oc, server.servername);
-    out.put(TA_GRPNO, oc, m.groups().at(server.group_idx).grpno);
+    out.put(TA_GRPNO, oc, server.grpno);
     out.put(TA_STATE, oc, to_string(server.state));
     out.put(TA_BASESRVID, oc, server.basesrvid);
     out.put(TA_CLOPT, oc, server.clopt);
-- 
2.43.0


From 3f7e40f0810353ac147182a770e47594eece5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 068/120] fix: reports of advertisements failed once a service
 was withdrawn

---
 src/tpadmcall.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index fff256f..2a036b6 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -179,6 +179,10 @@ static void t_svcgrp_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < svcgrp.length(); i++) {
     auto &adv = svcgrp.at(i);
+    if (adv.service == mib::badoff) {
+      // Withdrawn
+      continue;
+    }
     auto &service = m.services().at(adv.service);
     out.put(TA_SERVICENAME, oc, service.servicename);
     //    out.put(TA_SRVGRP, oc,
-- 
2.43.0


From 056ae82dce5cd400db07ec5f5e0ddfce9280c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 069/120] fix: groups were not reported

---
 src/tpadmcall.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 2a036b6..2fcdd55 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -243,16 +243,24 @@ static void t_queue_get(fml32buf &in, fml32buf &out) {
 }
 
 static void t_group_get(fml32buf &in, fml32buf &out) {
-  tuxconfig tuxcfg;
-  tuxcfg.size = 0;
-  tuxcfg.ipckey = 0;
-  tuxcfg.maxservers = 1;
-  tuxcfg.maxservices = 1;
-  tuxcfg.maxgroups = 1;
-  tuxcfg.maxqueues = 1;
-  mib m(tuxcfg, fux::mib::in_heap());
-
+  auto &m = getmib();
   auto groups = m.groups();
+
+  FLDOCC32 oc = 0;
+  for (size_t i = 0; i < groups.length(); i++) {
+    auto &group = groups.at(i);
+    out.put(TA_SRVGRP, oc, group.srvgrp);
+    out.put(TA_GRPNO, oc, group.grpno);
+    out.put(TA_LMID, oc, m.mach().lmid);
+    out.put(TA_STATE, oc, "ACT");
+    out.put(TA_OPENINFO, oc, group.openinfo);
+    out.put(TA_CLOSEINFO, oc, group.closeinfo);
+    out.put(TA_TMSNAME, oc, group.tmsname);
+    oc++;
+  }
+
+  out.put(TA_ERROR, 0, TAOK);
+  out.put(TA_OCCURS, 0, oc);
 }
 
 static std::map<std::tuple<std::string, std::string>,
-- 
2.43.0


From fef99bb8f423ce770332b5ca77b784b78c671611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 070/120] fix: administrative requests reported failure when
 they succeeded and nothing when they failed

---
 src/tpadmcall.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 2fcdd55..0093134 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -79,7 +79,6 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
   auto rqaddr = "a";
 
   auto &m = getmib();
-  auto lock = m.data_lock();
 
   auto group_idx = m.group_index(srvgrp);
   if (group_idx == mib::badoff) {
@@ -275,17 +274,35 @@ static std::map<std::tuple<std::string, std::string>,
                    {{"T_QUEUE", "GET"}, t_queue_get}};
 
 int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
-  fml32buf in(&inbuf);
-  fml32buf out(outbuf);
-
-  auto klass = in.get<std::string>(TA_CLASS, 0);
-  auto operation = in.get<std::string>(TA_OPERATION, 0);
-
-  auto func = implemented.find({klass, operation});
-  if (func == implemented.end()) {
-  } else {
-    func->second(in, out);
+  if (inbuf == nullptr || outbuf == nullptr || *outbuf == nullptr) {
+    TPERROR(TPEINVAL, "inbuf or outbuf is null");
+    return -1;
   }
 
-  return -1;
+  return fux::atmi::exception_boundary(
+      [&] {
+        fml32buf in(&inbuf);
+        fml32buf out(outbuf);
+
+        auto klass = in.get<std::string>(TA_CLASS, 0, "");
+        auto operation = in.get<std::string>(TA_OPERATION, 0, "");
+        if (*outbuf != inbuf) {
+          // Nothing but the answer
+          Finit32(*outbuf, Fsizeof32(*outbuf));
+        }
+
+        auto func = implemented.find({klass, operation});
+        if (func == implemented.end()) {
+          out.put(TA_ERROR, 0, -1);
+          out.put(TA_OCCURS, 0, 0);
+          TPERROR(TPEINVAL, "%s of %s is not supported", operation.c_str(),
+                  klass.c_str());
+          return -1;
+        }
+
+        auto lock = getmib().data_lock();
+        func->second(in, out);
+        return 0;
+      },
+      -1);
 }
-- 
2.43.0


From 68d74f69f04eaf914a09a744f7bae21584ad7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 071/120] fix: the BBL crashed on administrative requests that
 are not FML32 buffers

---
 src/BBL.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 674cde1..5a1f990 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -116,6 +116,13 @@ int tpsvrinit(int, char *[]) {
 }
 
 extern "C" void TMIB(TPSVCINFO *svcinfo) {
+  char type[8];
+  if (svcinfo->data == nullptr ||
+      tptypes(svcinfo->data, type, nullptr) == -1 ||
+      strncmp(type, "FML32", sizeof(type)) != 0) {
+    userlog("Invalid administrative request");
+    tpreturn(TPFAIL, 0, svcinfo->data, svcinfo->len, 0);
+  }
   fux::fml32buf rq(svcinfo);
   fux::fml32buf rs;
 
-- 
2.43.0


From 7f2a99038c5723512c865f7cd72cbd557c061721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 072/120] fix: scan units in seconds lost their last digits

---
 src/ubb2mib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0b4d3b1..0a791a8 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -69,7 +69,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
   // scanunit to milliseconds
   std::transform(scanunit.begin(), scanunit.end(), scanunit.begin(),
                  [](unsigned char c) { return std::tolower(c); });
-  if (scanunit.compare(scanunit.size() - 2, 2, "ms")) {
+  if (scanunit.size() > 2 &&
+      scanunit.compare(scanunit.size() - 2, 2, "ms") == 0) {
     scanunit = scanunit.substr(0, scanunit.size() - 2);
   } else {
     scanunit += "000";
-- 
2.43.0


From 8804097276fc5cdb26922ed7c6c599eb87c53a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 073/120] fix: configuration values that only start with a
 number were accepted

---
 src/misc.h       | 10 ++++++++++
 src/tmloadcf.cpp |  8 ++++++--
 src/ubb2mib.cpp  | 10 +++++++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index 55ff9a9..ceb8277 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -189,6 +189,16 @@ inline std::vector<std::string> split(const std::string &s,
   tokens.push_back(token);
   return tokens;
 }
+
+// All of the text is the number
+inline long to_long(const std::string &s) {
+  size_t end;
+  auto value = std::stol(s, &end);
+  if (end != s.size()) {
+    throw std::invalid_argument("Invalid number " + s);
+  }
+  return value;
+}
 }  // namespace fux
 
 static constexpr size_t nearest(size_t n, size_t what, size_t mult = 1) {
diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 9999622..21900eb 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <system_error>
 
@@ -30,7 +31,7 @@ long require(T &dict, const std::string &key, long min, long max,
     return defvalue;
     //    throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
+  auto value = fux::to_long(dict[key]);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -74,7 +75,10 @@ int main(int argc, char *argv[]) {
 
     tuxconfig tuxcfg;
     tuxcfg.size = sizeof(tuxcfg) + fs::file_size(file);
-    tuxcfg.ipckey = std::stoi(config.resources.at("IPCKEY"));
+    config.resources.at("IPCKEY");
+    tuxcfg.ipckey =
+        require(config.resources, "IPCKEY", std::numeric_limits<int>::min(),
+                std::numeric_limits<int>::max(), 0);
     tuxcfg.maxservers = require(config.resources, "MAXSERVERS", 1, 8192, 50);
     tuxcfg.maxservices =
         require(config.resources, "MAXSERVICES", 1, 1048575, 100);
diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0a791a8..900d116 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -15,7 +15,7 @@ static long checked_get(T &dict, const std::string &key, long min, long max) {
   if (dict.find(key) == dict.end()) {
     throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
+  auto value = fux::to_long(dict[key]);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -28,7 +28,7 @@ static long checked_get(T &dict, const std::string &key, long min, long max,
   if (dict.find(key) == dict.end()) {
     return defvalue;
   }
-  auto value = std::stol(dict[key]);
+  auto value = fux::to_long(dict[key]);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -76,7 +76,11 @@ void ubb2mib(ubbconfig &u, mib &m) {
     scanunit += "000";
   }
 
-  m.mach().blocktime = std::stol(blocktime) * std::stol(scanunit);
+  if (__builtin_mul_overflow(fux::to_long(blocktime), fux::to_long(scanunit),
+                             &m.mach().blocktime) ||
+      m.mach().blocktime < 0) {
+    throw std::out_of_range("BLOCKTIME out of range");
+  }
 
   auto &domain = m.domain();
   domain.ipckey = m.conf().ipckey;
-- 
2.43.0


From b80fe1aa94b7282edc358b3f53108031b30a856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 074/120] fix: refused configurations and syntax checks
 replaced the configuration file

---
 src/tmloadcf.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 21900eb..e2c64b2 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -87,18 +87,25 @@ int main(int argc, char *argv[]) {
     tuxcfg.maxaccessers =
         require(config.resources, "MAXACCESSERS", 1, 32768, 100);
 
-    std::ofstream fout(outfile, std::ios::binary);
+    mib m(tuxcfg, fux::mib::in_heap());
+
+    ubb2mib(config, m);
+
+    if (noop) {
+      return 0;
+    }
+
+    std::ofstream fout;
+    fout.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    fout.open(outfile, std::ios::binary);
     fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
 
     fin.clear();
     fin.seekg(0);
     fout << fin.rdbuf();
+    fout.close();
 
     //    tuxcfg.maxqueues = std::stoi(config.resources.at("MAXQUEUES"));
-
-    mib m(tuxcfg, fux::mib::in_heap());
-
-    ubb2mib(config, m);
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
     return -1;
-- 
2.43.0


From 3034acd9af0b6e23e25cae0332196d5742549d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 075/120] fix: the configured number of services was truncated

---
 src/mib.cpp    | 9 +++++++--
 src/mibtypes.h | 2 +-
 src/ubb.h      | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 80a7793..e681bc2 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -104,7 +104,8 @@ size_t mib::needed(const tuxconfig &cfg) {
          nearest64(cfg.maxservers * sizeof(server)) +
          nearest64(cfg.maxqueues * sizeof(queue)) +
          nearest64(cfg.maxservices * sizeof(service)) +
-         nearest64(cfg.maxservers * cfg.maxservices * sizeof(advertisement)) +
+         nearest64(size_t(cfg.maxservers) * cfg.maxservices *
+                   sizeof(advertisement)) +
          nearest64(cfg.maxgroups * sizeof(group)) +
          nearest64(cfg.maxaccessers * sizeof(accesser)) +
          nearest64(transaction_table::needed(100, cfg.maxgroups));
@@ -117,7 +118,8 @@ void mib::init_memory() {
   off +=
       init(mem_->services, cfg_.maxservices, off - offsetof(mibmem, services));
   off += init(mem_->groups, cfg_.maxgroups, off - offsetof(mibmem, groups));
-  off += init(mem_->advertisements, cfg_.maxservers * cfg_.maxservices,
+  off += init(mem_->advertisements,
+              size_t(cfg_.maxservers) * cfg_.maxservices,
               off - offsetof(mibmem, advertisements));
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
@@ -476,6 +478,9 @@ mib::mib(const tuxconfig &cfg) : cfg_(cfg) {
 
 mib::mib(const tuxconfig &cfg, fux::mib::in_heap) : cfg_(cfg) {
   mem_ = reinterpret_cast<mibmem *>(calloc(1, needed(cfg_)));
+  if (mem_ == nullptr) {
+    throw std::bad_alloc();
+  }
   init_memory();
 }
 
diff --git a/src/mibtypes.h b/src/mibtypes.h
index 96872b5..f972247 100644
--- a/src/mibtypes.h
+++ b/src/mibtypes.h
@@ -36,7 +36,7 @@ struct t_domain {
 
   uint32_t trantime;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
diff --git a/src/ubb.h b/src/ubb.h
index c7cb9e2..bb8dedb 100644
--- a/src/ubb.h
+++ b/src/ubb.h
@@ -33,7 +33,7 @@ struct tuxconfig {
   size_t size;  // Size and "signature" at the same time
   uint32_t ipckey;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
-- 
2.43.0


From b2b1b2799d479f7977b87451ce96a79c91a53dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 076/120] fix: large configured limits exhausted the stack

---
 src/misc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index ceb8277..16aeeed 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -201,8 +201,8 @@ inline long to_long(const std::string &s) {
 }
 }  // namespace fux
 
-static constexpr size_t nearest(size_t n, size_t what, size_t mult = 1) {
-  return n <= (mult * what) ? (mult * what) : nearest(n, what, mult + 1);
+static constexpr size_t nearest(size_t n, size_t what) {
+  return n == 0 ? what : (n + what - 1) / what * what;
 }
 
 static constexpr size_t nearest64(size_t n) { return nearest(n, 64); }
-- 
2.43.0


From 6dd1518dbfa7668bc8ae6a176688dc91e85e693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 077/120] fix: a zero byte was taken for a hexadecimal digit in
 text

---
 src/basic_parser.h | 9 +++++++--
 src/extreader.h    | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index efb1a90..4cec3e7 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -56,10 +56,10 @@ class basic_parser {
   }
 
   bool hex(std::string *s = nullptr) {
-    if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+    if (is_hex(sym_)) {
       char high = sym_;
       next();
-      if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+      if (is_hex(sym_)) {
         char low = sym_;
         next();
         if (s != nullptr) {
@@ -130,6 +130,11 @@ class basic_parser {
   int sym_;
 
  private:
+  static bool is_hex(int c) {
+    // strchr finds the terminating zero as well
+    return c > 0 && strchr("0123456789abcdefABCDEF", c) != nullptr;
+  }
+
   static constexpr int base16(int c) {
     if (c >= '0' && c <= '9') return c - '0';
     if (c >= 'A' && c <= 'F') return 10 + c - 'A';
diff --git a/src/extreader.h b/src/extreader.h
index 416a7be..c376e07 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -88,7 +88,7 @@ class extreader : public basic_parser {
   }
 
   bool flag(std::string *s = nullptr) {
-    if (accept([](int c) { return strchr("+-=", c) != nullptr; }, s)) {
+    if (accept([](int c) { return c != 0 && strchr("+-=", c) != nullptr; }, s)) {
       return true;
     }
     return false;
-- 
2.43.0


From 46eb9b7e31a62d6ebd37486ba6d19ea44cc6c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 078/120] fix: field numbers out of range gave other ids

---
 src/fieldtbl32.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fieldtbl32.h b/src/fieldtbl32.h
index 339eb0b..e60dce1 100644
--- a/src/fieldtbl32.h
+++ b/src/fieldtbl32.h
@@ -8,6 +8,7 @@
 #include <vector>
 
 #include "basic_parser.h"
+#include "misc.h"
 
 static const std::map<std::string, int> field_types = {
     {"char", FLD_CHAR},     {"short", FLD_SHORT},   {"float", FLD_FLOAT},
@@ -62,7 +63,10 @@ class field_table_parser : public basic_parser {
       if (!read || base != "base") {
         throw basic_parser_error("unrecognized input", row_, "*base\toffset");
       }
-      base_ = std::stol(num);
+      base_ = fux::to_long(num);
+      if (base_ > max_number) {
+        throw basic_parser_error("base out of range", row_, num);
+      }
 
       delim();
       if (accept('#')) {
@@ -89,8 +93,13 @@ class field_table_parser : public basic_parser {
                                        "double, string, carray, fml32");
         }
 
-        fields_.push_back(
-            {fname, Fmkfldid32(t->second, base_ + std::stol(num)), c});
+        auto number = fux::to_long(num);
+        if (number > max_number || base_ + number < 1 ||
+            base_ + number > max_number) {
+          throw basic_parser_error("field number out of range", row_, num);
+        }
+
+        fields_.push_back({fname, Fmkfldid32(t->second, base_ + number), c});
         entries_.push_back(
             {nullptr, nullptr, std::make_unique<field>(fields_.back())});
       } else {
@@ -110,6 +119,7 @@ class field_table_parser : public basic_parser {
     return false;
   }
 
+  static constexpr long max_number = 0xffffff;
   long base_;
   std::vector<field> fields_;
   std::vector<entry> entries_;
-- 
2.43.0


From 32bbb55bed22ad1e8e14c6117ace8c769a948f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 079/120] fix: field tables with errors were half loaded

---
 src/fbfr32fld.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 5ecfd71..fb791b4 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -59,8 +59,8 @@ struct Fbfr32fields {
   static constexpr long Fldno32(FLDID32 fieldid) { return fieldid & 0xffffff; }
 
   char *name(FLDID32 fieldid) {
-    if (!id_to_name_loaded) {
-      load_fieldtbls32();
+    if (!id_to_name_loaded && !load_fieldtbls32()) {
+      return nullptr;
     }
     std::shared_lock<std::shared_timed_mutex> lock(mutex);
     auto it = id_to_name.find(fieldid);
@@ -72,8 +72,8 @@ struct Fbfr32fields {
   }
 
   FLDID32 fldid(const char *name) {
-    if (!name_to_id_loaded) {
-      load_fieldtbls32();
+    if (!name_to_id_loaded && !load_fieldtbls32()) {
+      return BADFLDID;
     }
     std::shared_lock<std::shared_timed_mutex> lock(mutex);
     auto it = name_to_id.find(name);
@@ -113,12 +113,12 @@ struct Fbfr32fields {
     return true;
   }
 
-  void load_fieldtbls32() {
+  bool load_fieldtbls32() {
     auto fieldtbls32 = getenv("FIELDTBLS32");
     auto fldtbldir32 = getenv("FLDTBLDIR32");
 
     if (fieldtbls32 == nullptr || fldtbldir32 == nullptr) {
-      return;
+      return true;
     }
 
     auto files = fux::split(fieldtbls32, ",");
@@ -129,15 +129,26 @@ struct Fbfr32fields {
     id_to_name.clear();
     name_to_id.clear();
 
-    id_to_name_loaded = true;
-    name_to_id_loaded = true;
+    id_to_name_loaded = false;
+    name_to_id_loaded = false;
 
-    for (auto &fname : files) {
-      for (auto &dname : dirs) {
-        if (read_fld32_file(dname + "/" + fname)) {
-          break;
+    try {
+      for (auto &fname : files) {
+        for (auto &dname : dirs) {
+          if (read_fld32_file(dname + "/" + fname)) {
+            break;
+          }
         }
       }
+    } catch (const std::exception &e) {
+      id_to_name.clear();
+      name_to_id.clear();
+      FERROR32(FFTSYNTAX, "Invalid field table [%s]", e.what());
+      return false;
     }
+
+    id_to_name_loaded = true;
+    name_to_id_loaded = true;
+    return true;
   }
 };
-- 
2.43.0


From 5d44a3187d8cbf55ed8618778b47f846593cf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 080/120] fix: headers of views in other directories got a
 wrong name

---
 src/viewc32.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viewc32.cpp b/src/viewc32.cpp
index 0764278..422e67a 100644
--- a/src/viewc32.cpp
+++ b/src/viewc32.cpp
@@ -26,11 +26,11 @@ static void process_file(const std::string &file, bool no_fml,
     slash = 0;
   }
   auto dot = file.find_last_of('.');
-  if (dot != std::string::npos && dot < slash) {
-    dot = std::string::npos;
+  if (dot == std::string::npos || dot < slash) {
+    dot = file.size();
   }
   fout.exceptions(std::ifstream::failbit | std::ifstream::badbit);
-  fout.open(output_directory + "/" + file.substr(slash, dot) + ".h");
+  fout.open(output_directory + "/" + file.substr(slash, dot - slash) + ".h");
 
   for (auto &i : p.entries()) {
     if (i.r) {
-- 
2.43.0


From a73bae4df92d7a2bee3d454785cfc183f556f0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 081/120] fix: fields outside of a view were accepted

---
 src/view32.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view32.h b/src/view32.h
index d757c45..d1b7e8b 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -58,7 +58,7 @@ class view_parser : public basic_parser {
       std::string first;
       if (field_name(&first)) {
         if (first == "END") {
-          if (name_.empty()) {
+          if (name_.empty() || done_) {
             throw basic_parser_error("No view definition", row_,
                                      "VIEW\tVIEWNAME\nEND");
           }
@@ -79,6 +79,11 @@ class view_parser : public basic_parser {
         } else {
           std::string type = first;
 
+          if (name_.empty() || done_) {
+            throw basic_parser_error("Field outside of a view", row_,
+                                     "VIEW\tVIEWNAME\nEND");
+          }
+
           std::string cname, fbname, count, flag, size, nullv;
 
           // short, long, float, double, char, string, carray
-- 
2.43.0


From 3102574e5c64438b3cfef315e4a0d5f1de436690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 082/120] fix: view counts and sizes that only start with a
 number were accepted

---
 src/view32.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/view32.h b/src/view32.h
index d1b7e8b..b313d3c 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -8,6 +8,7 @@
 #include <vector>
 
 #include "basic_parser.h"
+#include "misc.h"
 
 static const std::string supported_flags = "CL";
 class view_parser : public basic_parser {
@@ -99,6 +100,7 @@ class view_parser : public basic_parser {
           }
 
           if (size.size() > 0) {
+            fux::to_long(size);
             if (type != "string" && type != "carray" && type != "dec_t") {
               throw basic_parser_error("Size supported only for string, carray and dec_t types", row_, "");
             }
@@ -110,7 +112,7 @@ class view_parser : public basic_parser {
             }
           }
 
-          fields_.push_back({type, cname, fbname, std::stol(count), flag, size, nullv});
+          fields_.push_back({type, cname, fbname, fux::to_long(count), flag, size, nullv});
           entries_.push_back(
               {nullptr, std::make_unique<field>(fields_.back()), nullptr, nullptr});
         }
-- 
2.43.0


From 27c57fbbe506c0e27f2be953c5014c83fe2e6fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 083/120] fix: long log messages were written past the buffer

---
 src/userlog.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..24965aa 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -13,6 +13,7 @@
 #include <cstdlib>
 #include <cstring>
 
+#include <algorithm>
 #include <string>
 
 #include <gsl/gsl_util>
@@ -66,10 +67,14 @@ int userlog(const char *fmt, ...) {
                  getpid());
   }
 
+  // Both may have been cut short, keep space for the newline and terminator
+  const ssize_t max = sizeof(buf) - 2;
+  n = std::min(std::max<ssize_t>(n, 0), max);
   va_list ap;
   va_start(ap, fmt);
-  n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
+  n += std::max(vsnprintf(buf + n, max - n + 1, fmt, ap), 0);
   va_end(ap);
+  n = std::min(n, max);
   buf[n++] = '\n';
   buf[n] = 0;
   fwrite(buf, n, 1, fout);
-- 
2.43.0


From e1b5827314e6735f1fbd92181710980a6a7cf62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 084/120] fix: exceptions escaped from the transaction calls

---
 src/tx.cpp | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 892bb72..6c984e7 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -92,6 +92,10 @@ static bool joined() {
 }
 
 int _tx_start(TXINFO *info);
+static int tx_fail(const char *func, const std::exception &e) {
+  userlog("%s failed: %s", func, e.what());
+  return TX_FAIL;
+}
 static int rm_err(int xarc, const char *func) {
   if (xarc == XAER_RMERR) {
     return TX_ERROR;
@@ -103,7 +107,7 @@ static int rm_err(int xarc, const char *func) {
   return TX_FAIL;
 }
 
-int tx_open() {
+int tx_open() try {
   // Clients do not belong to a group
   char noinfo[] = "";
   auto *grpcfg = getctxt().grpcfg;
@@ -130,9 +134,11 @@ int tx_open() {
   }
 
   return rm_err(xarc, "xa_open");
+} catch (const std::exception &e) {
+  return tx_fail("tx_open", e);
 }
 
-int tx_close() {
+int tx_close() try {
   if (!(getctxt().state == tx_state::s0 || getctxt().state == tx_state::s1 ||
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
@@ -151,9 +157,11 @@ int tx_close() {
   }
 
   return rm_err(xarc, "xa_close");
+} catch (const std::exception &e) {
+  return tx_fail("tx_close", e);
 }
 
-int tx_info(TXINFO *info) {
+int tx_info(TXINFO *info) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -164,6 +172,8 @@ int tx_info(TXINFO *info) {
   }
 
   return getctxt().info.xid.formatID == -1 ? 0 : 1;
+} catch (const std::exception &e) {
+  return tx_fail("tx_info", e);
 }
 
 static XID xid() {
@@ -183,7 +193,7 @@ static XID xid() {
 }
 
 static void finished(XID *xid);
-int tx_begin() {
+int tx_begin() try {
   if (TMREGISTER) {
     // return TX_OK;
   }
@@ -209,6 +219,8 @@ int tx_begin() {
     finished(&info.xid);
   }
   return rc;
+} catch (const std::exception &e) {
+  return tx_fail("tx_begin", e);
 }
 
 static void finished(XID *xid) {
@@ -305,7 +317,7 @@ static int outcome(const std::vector<branch> &branches, bool commit) {
   return hazard ? TX_HAZARD : TX_OK;
 }
 
-int tx_commit() {
+int tx_commit() try {
   if (joined()) {
     return TX_PROTOCOL_ERROR;
   }
@@ -353,9 +365,11 @@ int tx_commit() {
     }
     return change_state(rc);
   }
+} catch (const std::exception &e) {
+  return tx_fail("tx_commit", e);
 }
 
-int tx_rollback() {
+int tx_rollback() try {
   if (joined()) {
     return TX_PROTOCOL_ERROR;
   }
@@ -371,6 +385,8 @@ int tx_rollback() {
   finished(&info.xid);
 
   return change_state(outcome(branches, false));
+} catch (const std::exception &e) {
+  return tx_fail("tx_rollback", e);
 }
 
 static int _tx_end(TXINFO *info, long flags) {
@@ -409,7 +425,7 @@ static int _tx_end(TXINFO *info, long flags) {
 
 // The main difference is that suspend does not start a new transaction even in
 // chained mode
-int _tx_suspend(TXINFO *info) {
+int _tx_suspend(TXINFO *info) try {
   auto rc = _tx_end(info, TMSUSPEND);
   if (rc == TX_OK) {
     if (getctxt().state == tx_state::s3) {
@@ -420,6 +436,8 @@ int _tx_suspend(TXINFO *info) {
   }
 
   return rc;
+} catch (const std::exception &e) {
+  return tx_fail("_tx_suspend", e);
 }
 
 static bool _tx_end(bool ok) {
@@ -492,7 +510,7 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) {
+int _tx_resume(TXINFO *info) try {
   if (info == nullptr) {
     return _tx_start(info, TMRESUME);
   }
@@ -511,6 +529,8 @@ int _tx_resume(TXINFO *info) {
     getctxt().gttid = gttid;
   }
   return rc;
+} catch (const std::exception &e) {
+  return tx_fail("_tx_resume", e);
 }
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
@@ -553,7 +573,7 @@ bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
 };  // namespace fux
 
-int tx_set_commit_return(COMMIT_RETURN when_return) {
+int tx_set_commit_return(COMMIT_RETURN when_return) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -566,9 +586,11 @@ int tx_set_commit_return(COMMIT_RETURN when_return) {
 
   getctxt().info.when_return = when_return;
   return TX_OK;
+} catch (const std::exception &e) {
+  return tx_fail("tx_set_commit_return", e);
 }
 
-int tx_set_transaction_control(TRANSACTION_CONTROL control) {
+int tx_set_transaction_control(TRANSACTION_CONTROL control) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -587,9 +609,11 @@ int tx_set_transaction_control(TRANSACTION_CONTROL control) {
     getctxt().state = tx_state::s3;
   }
   return TX_OK;
+} catch (const std::exception &e) {
+  return tx_fail("tx_set_transaction_control", e);
 }
 
-int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
+int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -599,6 +623,8 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
   }
   getctxt().info.transaction_timeout = timeout;
   return TX_OK;
+} catch (const std::exception &e) {
+  return tx_fail("tx_set_transaction_timeout", e);
 }
 
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f8344dafc5f1a0852d8b34d5b80475114e554a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 085/120] fix: system errors were reported with an undefined
 error code

---
 src/misc.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index 16aeeed..4a64baf 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -11,6 +11,7 @@
 #include <mutex>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 #include <signal.h>
@@ -73,8 +74,10 @@ void exception_boundary(F &&f) noexcept {
   try {
     reset_tperrno();
     f();
+  } catch (const std::system_error &e) {
+    TPERROR(TPEOS, "Unhandled exception [%s]", e.what());
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
   }
 }
 
@@ -83,8 +86,11 @@ auto exception_boundary(F &&f, R &&r) noexcept -> decltype(f()) {
   try {
     reset_tperrno();
     return f();
+  } catch (const std::system_error &e) {
+    TPERROR(TPEOS, "Unhandled exception [%s]", e.what());
+    return r;
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
     return r;
   }
 }
-- 
2.43.0


From 2e4513fae139c75a73fbde803c4a54d25e21a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 086/120] fix: tpinit reported success without a registration

---
 src/client.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 2bb75e5..51b7a2c 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -321,8 +321,12 @@ int tpinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpterm() {
@@ -330,8 +334,12 @@ int tpterm() {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { current_client.reset(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        current_client.reset();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrinit(TPINIT *tpinfo) {
@@ -339,8 +347,12 @@ int tpappthrinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrterm() {
@@ -348,8 +360,12 @@ int tpappthrterm() {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { current_client.reset(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        current_client.reset();
+        return 0;
+      },
+      -1);
 }
 
 int tpcancel(int cd) {
-- 
2.43.0


From 96c5ef83409ca5e71a033d02915e49d7f0f6f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 087/120] fix: processes ended when a client could not
 unregister

---
 src/client.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 51b7a2c..3e47579 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -53,9 +53,13 @@ class client {
   }
 
   ~client() {
-    auto lock = mibcon_.data_lock();
-    fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
-    mibcon_.accessers().at(client_).invalidate();
+    try {
+      auto lock = mibcon_.data_lock();
+      fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
+      mibcon_.accessers().at(client_).invalidate();
+    } catch (const std::exception &e) {
+      userlog("Failed to unregister: %s", e.what());
+    }
   }
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
-- 
2.43.0


From a9ea9094c361347bcebe83ba65c4f51db22c1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 088/120] fix: clients without a reply queue stayed registered

---
 src/client.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 3e47579..841994f 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -49,7 +49,12 @@ class client {
       : mibcon_(mibcon), repo_(mibcon), blocktime_next(0), blocktime_all(0) {
     auto lock = mibcon_.data_lock();
     client_ = mibcon_.make_accesser(getpid());
-    rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
+    try {
+      rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
+    } catch (...) {
+      mibcon_.accessers().at(client_).invalidate();
+      throw;
+    }
   }
 
   ~client() {
-- 
2.43.0


From 6da6c18a98c91412a460fff0ca58d56d723740ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 089/120] fix: negative and large blocking times were accepted
 as other times

---
 src/client.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 841994f..1ba462a 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <memory>
 #include <vector>
@@ -230,8 +231,13 @@ class client {
     long what = flags - units;
     long timeout;
 
+    if (blktime < 0) {
+      TPERROR(TPEINVAL, "Negative blktime %d", blktime);
+      return -1;
+    }
+
     if (units == TPBLK_SECOND) {
-      timeout = blktime * 1000;
+      timeout = blktime * 1000L;
     } else if (units == TPBLK_MILLISECOND) {
       timeout = blktime;
     } else {
@@ -278,7 +284,7 @@ class client {
     }
 
     fux::atmi::reset_tperrno();
-    return timeout;
+    return std::min<long>(timeout, std::numeric_limits<int>::max());
   }
 
   long next_blocktime() {
-- 
2.43.0


From 33ee78ef56e0659453d9f2c2c65829b6284181c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 090/120] fix: exceptions escaped from advertising services

---
 src/server.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index aab232d..2c5e535 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -134,6 +134,9 @@ struct server_main {
       } catch (const std::out_of_range &e) {
         TPERROR(TPELIMIT, "%s", e.what());
         return -1;
+      } catch (const std::length_error &e) {
+        TPERROR(TPEINVAL, "%s", e.what());
+        return -1;
       }
       advertisements.insert(std::make_pair(strdup(svcname), func));
     }
@@ -533,7 +536,8 @@ int tpadvertisex(char *svcname, void (*func)(TPSVCINFO *), long flags) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
-  return main_ptr->tpadvertisex(svcname, func, flags);
+  return fux::atmi::exception_boundary(
+      [&] { return main_ptr->tpadvertisex(svcname, func, flags); }, -1);
 }
 
 int tpunadvertise(char *svcname) {
@@ -541,7 +545,8 @@ int tpunadvertise(char *svcname) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
-  return main_ptr->tpunadvertise(svcname);
+  return fux::atmi::exception_boundary(
+      [&] { return main_ptr->tpunadvertise(svcname); }, -1);
 }
 
 void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
-- 
2.43.0


From 329d164a950e274c41c937d664129f43ae84c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 091/120] fix: tpenqueue failed without an error code

---
 src/tmq.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tmq.cpp b/src/tmq.cpp
index 064a215..3e08d42 100644
--- a/src/tmq.cpp
+++ b/src/tmq.cpp
@@ -4,7 +4,10 @@
 #include <tpadm.h>
 #include <xatmi.h>
 
+#include "misc.h"
+
 int tpenqueue(char *qspace, char *qname, TPQCTL *ctl, char *data, long len,
               long flags) {
+  TPERROR(TPESYSTEM, "%s is not supported", __func__);
   return -1;
 }
-- 
2.43.0


From daaea9d585ffb2e5e4b413e98a92acc9e2ac876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:23 +0000
Subject: [PATCH 092/120] fix: services still registered for a restarted server
 could not be advertised

---
 src/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 2c5e535..5b65cd5 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -137,6 +137,9 @@ struct server_main {
       } catch (const std::length_error &e) {
         TPERROR(TPEINVAL, "%s", e.what());
         return -1;
+      } catch (const std::logic_error &e) {
+        // Already there since before this server was restarted
+        userlog("%s: %s", svcname, e.what());
       }
       advertisements.insert(std::make_pair(strdup(svcname), func));
     }
-- 
2.43.0


From 1af141d72393c98abf15f36476dee5cd7459d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 093/120] fix: buffers too large for their size were allocated
 uninitialised

---
 src/fbfr32.h  |  9 +++++++++
 src/fml32.cpp | 25 +++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 518e75a..eeb7af9 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -91,6 +91,11 @@ struct Fbfr32 {
   static constexpr long needed(FLDOCC32 F, FLDLEN32 V) {
     return F * (sizeof(FLDID32) + sizeof(uint32_t) + V) + sizeof(Fbfr32);
   }
+  // Sizes are kept as FLDLEN32
+  static constexpr bool can_hold(FLDOCC32 F, FLDLEN32 V) {
+    return F >= 0 && F <= (UINT32_MAX - sizeof(Fbfr32)) /
+                             (sizeof(FLDID32) + sizeof(uint32_t) + V);
+  }
 
   int init(FLDLEN32 buflen) {
     if (buflen < min_size()) {
@@ -658,6 +663,10 @@ struct Fbfr32 {
       *extralen = len;
     }
     char *loc = (char *)malloc(size);
+    if (loc == nullptr) {
+      FERROR(FMALLOC, "malloc of %zu failed", size);
+      return nullptr;
+    }
     std::copy_n(fvalue(field), len, loc);
     return loc;
   }
diff --git a/src/fml32.cpp b/src/fml32.cpp
index a85773f..b40355d 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -124,14 +124,28 @@ void Fnmid_unload32() {
 ////////////////////////////////////////////////////////////////////////////
 
 long Fneeded32(FLDOCC32 F, FLDLEN32 V) {
-  return fux::fml32::exception_boundary([&] { return Fbfr32::needed(F, V); },
-                                        -1);
+  return fux::fml32::exception_boundary(
+      [&]() -> long {
+        if (!Fbfr32::can_hold(F, V)) {
+          FERROR(FEINVAL, "Invalid arguments %d %u", F, V);
+          return -1;
+        }
+        return Fbfr32::needed(F, V);
+      },
+      -1);
 }
 
 FBFR32 *Falloc32(FLDOCC32 F, FLDLEN32 V) {
   fux::fml32::reset_Ferror32();
   long buflen = Fneeded32(F, V);
+  if (buflen == -1) {
+    return nullptr;
+  }
   FBFR32 *fbfr = (FBFR32 *)malloc(buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "malloc of %ld failed", buflen);
+    return nullptr;
+  }
   Finit32(fbfr, buflen);
   return fbfr;
 }
@@ -178,6 +192,9 @@ FBFR32 *Frealloc32(FBFR32 *fbfr, FLDOCC32 F, FLDLEN32 V) {
   }
 
   long buflen = Fneeded32(F, V);
+  if (buflen == -1) {
+    return nullptr;
+  }
   if (buflen < Fused32(fbfr)) {
     FERROR(FNOSPACE, "%ld is less than current size", buflen);
     return nullptr;
@@ -185,6 +202,10 @@ FBFR32 *Frealloc32(FBFR32 *fbfr, FLDOCC32 F, FLDLEN32 V) {
 
   fux::fml32::reset_Ferror32();
   fbfr = (FBFR32 *)realloc(fbfr, buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "realloc to %ld failed", buflen);
+    return nullptr;
+  }
   fbfr->reinit(buflen);
   return fbfr;
 }
-- 
2.43.0


From 81d2d9b07fb9dfc93d3e8c3f3db6d9926058a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 094/120] fix: values close to 4 GB were written past the
 buffer

---
 src/fbfr32.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index eeb7af9..4916f5c 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -177,6 +177,10 @@ struct Fbfr32 {
 
     // Fill in default values
     flen = value_len(type, value, flen);
+    if (klass == FIELDN && flen > size_) {
+      FERROR(FNOSPACE, "");
+      return -1;
+    }
 
     ssize_t need;
     if (klass == FIELD8) {
-- 
2.43.0


From ae9d19e3c1bb947073a27dd1ae30557cd861c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 095/120] fix: FML32 calls without a value, list or file ended
 the process

---
 src/expr.cpp    |  2 +-
 src/fbfr32.h    | 28 ++++++++++++++++++++++++++++
 src/fbfr32fld.h |  4 ++++
 src/fml32.cpp   |  8 +++++++-
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 23b29b9..e1b5338 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -441,7 +441,7 @@ static char *boolpr(char *tree, FILE *iop) {
 }
 
 void Fboolpr32(char *tree, FILE *iop) {
-  if (tree != nullptr) {
+  if (tree != nullptr && iop != nullptr) {
     boolpr(tree + 4, iop);
     fprintf(iop, "\n");
   }
diff --git a/src/fbfr32.h b/src/fbfr32.h
index 4916f5c..e3d8cae 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -131,6 +131,10 @@ struct Fbfr32 {
   }
 
   int write(FILE *iop) {
+    if (iop == nullptr) {
+      FERROR(FEINVAL, "iop is NULL");
+      return -1;
+    }
     // Writes out everything starting with len
     auto n = used() - sizeof(size_);
     if (fwrite(&len_, 1, n, iop) != n) {
@@ -141,6 +145,10 @@ struct Fbfr32 {
   }
 
   int read(FILE *iop) {
+    if (iop == nullptr) {
+      FERROR(FEINVAL, "iop is NULL");
+      return -1;
+    }
     uint32_t len;
     if (fread(&len, 1, sizeof(len), iop) != sizeof(len)) {
       FERROR(FEUNIX, "");
@@ -270,6 +278,10 @@ struct Fbfr32 {
   }
 
   FLDOCC32 findocc(FLDID32 fieldid, char *value, FLDLEN32 len) {
+    if (value == nullptr) {
+      FERROR(FEINVAL, "value is NULL");
+      return -1;
+    }
     auto it = where(fieldid, 0);
     FLDOCC32 oc = 0;
     auto type = Fldtype32(fieldid);
@@ -438,6 +450,10 @@ struct Fbfr32 {
   }
 
   int fprint(FILE *iop, int indent = 0) {
+    if (iop == nullptr) {
+      FERROR(FEINVAL, "iop is NULL");
+      return -1;
+    }
     iterate([&](auto it, auto) {
       auto name = Fname32(it->fieldid);
       for (int i = 0; i < indent; i++) {
@@ -541,6 +557,10 @@ struct Fbfr32 {
   }
 
   int xdelete(FLDID32 *fieldid) {
+    if (fieldid == nullptr) {
+      FERROR(FEINVAL, "fieldid is NULL");
+      return -1;
+    }
     FLDID32 *badfld = sort(fieldid);
 
     iterate([&](auto it, auto) {
@@ -554,6 +574,10 @@ struct Fbfr32 {
   }
 
   int projcpy(FBFR32 *src, FLDID32 *fieldid) {
+    if (fieldid == nullptr) {
+      FERROR(FEINVAL, "fieldid is NULL");
+      return -1;
+    }
     FLDID32 *badfld = sort(fieldid);
     init(size());
 
@@ -567,6 +591,10 @@ struct Fbfr32 {
   }
 
   int proj(FLDID32 *fieldid) {
+    if (fieldid == nullptr) {
+      FERROR(FEINVAL, "fieldid is NULL");
+      return -1;
+    }
     FLDID32 *badfld = sort(fieldid);
 
     return iterate([&](auto it, auto) {
diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index fb791b4..d7bcfe8 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -72,6 +72,10 @@ struct Fbfr32fields {
   }
 
   FLDID32 fldid(const char *name) {
+    if (name == nullptr) {
+      Ferror32 = FBADNAME;
+      return BADFLDID;
+    }
     if (!name_to_id_loaded && !load_fieldtbls32()) {
       return BADFLDID;
     }
diff --git a/src/fml32.cpp b/src/fml32.cpp
index b40355d..e772d67 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -581,7 +581,9 @@ int CFget32(FBFR32 *fbfr, FLDID32 fieldid, FLDOCC32 oc, char *buf,
     FERROR(FNOSPACE, "");
     return -1;
   }
-  std::copy_n(res, *len, buf);
+  if (buf != nullptr) {
+    std::copy_n(res, *len, buf);
+  }
   return 0;
 }
 
@@ -589,6 +591,10 @@ int Fextread32(FBFR32 *fbfr, FILE *iop) {
   FBFR32_CHECK(-1, fbfr);
   return fux::fml32::exception_boundary(
       [&] {
+        if (iop == nullptr) {
+          FERROR(FEINVAL, "iop is NULL");
+          return -1;
+        }
         auto p = extreader(iop);
         if (!p.parse()) {
           return -1;
-- 
2.43.0


From adad58ecbb04045d0ce2ad2ea83585784068c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 096/120] fix: bad input of Fextread32 was reported without an
 error code

---
 src/fml32.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index e772d67..794fbca 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -596,7 +596,13 @@ int Fextread32(FBFR32 *fbfr, FILE *iop) {
           return -1;
         }
         auto p = extreader(iop);
-        if (!p.parse()) {
+        try {
+          if (!p.parse()) {
+            FERROR(FEUNIX, "nothing to read");
+            return -1;
+          }
+        } catch (const basic_parser_error &e) {
+          FERROR(FSYNTAX, "%s", e.what());
           return -1;
         }
         return fbfr->cpy(p.get());
-- 
2.43.0


From c60925d77eb6e326ce35f5ab0ef897a34930fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:54 +0000
Subject: [PATCH 097/120] fix: misaligned buffers were reported as not fielded

---
 src/fml32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index 794fbca..6f6888b 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -157,7 +157,7 @@ FBFR32 *Falloc32(FLDOCC32 F, FLDLEN32 V) {
       return err;                                            \
     }                                                        \
     if ((reinterpret_cast<intptr_t>(fbfr) & (8 - 1)) != 0) { \
-      FERROR(FNOTFLD, "fbfr is aligned");                    \
+      FERROR(FALIGNERR, "fbfr not aligned");                   \
       return err;                                            \
     }                                                        \
   } while (false)
-- 
2.43.0


From b85ebbb43a32d9c79847173fa5d3339dbcc14644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 098/120] fix: unknown fields read by Fextread32 were reported
 without an error code

---
 src/extreader.h | 6 ++++++
 src/fml32.cpp   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/extreader.h b/src/extreader.h
index c376e07..8ff770c 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -8,6 +8,11 @@
 #include "basic_parser.h"
 #include "fux.h"
 
+class unknown_field : public basic_parser_error {
+ public:
+  using basic_parser_error::basic_parser_error;
+};
+
 class extreader : public basic_parser {
  public:
   extreader(std::istream &f) : basic_parser(f) {}
@@ -70,6 +75,7 @@ class extreader : public basic_parser {
 
     auto fieldid = Fldid32(const_cast<char *>(fname.c_str()));
     if (fieldid == BADFLDID) {
+      throw unknown_field("unknown field name", row_, col_, fname);
     }
 
     if (Fldtype32(fieldid) == FLD_FML32) {
diff --git a/src/fml32.cpp b/src/fml32.cpp
index 6f6888b..ff1bf82 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -601,6 +601,9 @@ int Fextread32(FBFR32 *fbfr, FILE *iop) {
             FERROR(FEUNIX, "nothing to read");
             return -1;
           }
+        } catch (const unknown_field &e) {
+          FERROR(FBADNAME, "%s", e.what());
+          return -1;
         } catch (const basic_parser_error &e) {
           FERROR(FSYNTAX, "%s", e.what());
           return -1;
-- 
2.43.0


From be644b811a6242deed3b2b3b42bc4dea644f08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 099/120] fix: a client that ended before it had a queue made
 queue 0 of the host removed

---
 src/mib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index e681bc2..7a113b3 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -322,6 +322,8 @@ size_t mib::make_accesser(pid_t pid) {
     accessers()->len++;
   }
   accesser.rpid_timeout = INVALID_TIME;
+  // Not the queue with id 0, if the process ends before it has a queue
+  accesser.rpid = -1;
   accesser.pid = pid;
   return at;
 }
-- 
2.43.0


From f4ff8446a685d61c77fb8098c086155a472f8c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 100/120] fix: tmipcrm asked for ever at the end of its input

---
 src/tmipcrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmipcrm.cpp b/src/tmipcrm.cpp
index acdc517..e8bc48c 100644
--- a/src/tmipcrm.cpp
+++ b/src/tmipcrm.cpp
@@ -67,7 +67,7 @@ int main(int argc, char *argv[]) {
     if (yes) {
       mib.remove(q, m, s);
     } else {
-      while (true) {
+      while (std::cin) {
         std::string in = input("Remove IPC resources (y/n)?: ");
         if (in.size() == 1) {
           if (in[0] == 'y') {
-- 
2.43.0


From d88ecbd2026625ab615f1b41f3efe74cee670c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 101/120] fix: tmboot did not report servers it could not
 create a process for

---
 src/tmboot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 8814da1..8003e07 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -54,7 +54,10 @@ static void start(server &srv, bool no, bool d1) {
     if (execvp(srv.servername, (char *const *)&argv[0]) == -1) {
       exit(-1);
     }
-  } else if (pid > 0) {
+  } else if (pid == -1) {
+    srv.pid = 0;
+    std::cout << "\tFailed." << std::endl;
+  } else {
     srv.pid = pid;
     for (;;) {
       if (srv.state == state_t::ACTive) {
-- 
2.43.0


From 30ca2dca22f175c5362e885c65fbeeffd784873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 102/120] fix: tmboot changed server entries without holding
 the lock

---
 src/tmboot.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 8003e07..f355d4d 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -15,7 +15,7 @@
 #include "mib.h"
 #include "misc.h"
 
-static void start(server &srv, bool no, bool d1) {
+static void start(mib &m, server &srv, bool no, bool d1) {
   std::vector<const char *> argv;
   argv.push_back(srv.servername);
   argv.push_back("-g");
@@ -40,7 +40,10 @@ static void start(server &srv, bool no, bool d1) {
     return;
   }
 
-  srv.state = state_t::INActive;
+  {
+    auto lock = m.data_lock();
+    srv.state = state_t::INActive;
+  }
   auto pid = fork();
   if (pid == 0) {
     argv.push_back(nullptr);
@@ -55,10 +58,16 @@ static void start(server &srv, bool no, bool d1) {
       exit(-1);
     }
   } else if (pid == -1) {
-    srv.pid = 0;
+    {
+      auto lock = m.data_lock();
+      srv.pid = 0;
+    }
     std::cout << "\tFailed." << std::endl;
   } else {
-    srv.pid = pid;
+    {
+      auto lock = m.data_lock();
+      srv.pid = pid;
+    }
     for (;;) {
       if (srv.state == state_t::ACTive) {
         break;
@@ -75,7 +84,10 @@ static void start(server &srv, bool no, bool d1) {
     if (alive(pid)) {
       std::cout << "\tprocess id=" << srv.pid << " ... Started." << std::endl;
     } else {
-      srv.pid = 0;
+      {
+        auto lock = m.data_lock();
+        srv.pid = 0;
+      }
       std::cout << "\tFailed." << std::endl;
     }
   }
@@ -129,7 +141,7 @@ int main(int argc, char *argv[]) {
     for (size_t i = 0; i < servers->len; i++) {
       auto &srv = servers[i];
       if (srv.autostart) {
-        start(srv, no, d1);
+        start(m, srv, no, d1);
       }
     }
   } catch (const std::exception &e) {
-- 
2.43.0


From 031d55bc18cd0355a350d6711530e84a723eaa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 103/120] fix: tmboot started all servers when asked for one
 server or group

---
 src/tmboot.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index f355d4d..b66d574 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -140,6 +140,14 @@ int main(int argc, char *argv[]) {
     auto servers = m.servers();
     for (size_t i = 0; i < servers->len; i++) {
       auto &srv = servers[i];
+      if (srvid != -1 && srvid != srv.srvid) {
+        continue;
+      }
+      if (!grpname.empty() &&
+          (m.group_index(grpname) == mib::badoff ||
+           m.find_group(srv.grpno) != m.group_index(grpname))) {
+        continue;
+      }
       if (srv.autostart) {
         start(m, srv, no, d1);
       }
-- 
2.43.0


From ab71252b1a078f7af8a568264d8cd0006f94c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 104/120] fix: tmshutdown changed server entries without
 holding the lock

---
 src/tmshutdown.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 87c7174..81b2ef8 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -63,7 +63,10 @@ int main(int argc, char *argv[]) {
       if (server.is_inactive()) {
         continue;
       }
-      server.suspend();
+      {
+        auto lock = m.data_lock();
+        server.suspend();
+      }
       auto &queue = queues.at(server.rqaddr);
 
       buf.put(TA_SRVID, 0, server.srvid);
-- 
2.43.0


From 6af0dfb3bace85294b0b5b635c1fa027989c0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 105/120] fix: tmshutdown stopped all servers and removed the
 system when asked for one group

---
 src/tmshutdown.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 81b2ef8..0e3f76d 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -57,6 +57,11 @@ int main(int argc, char *argv[]) {
       if (srvid != -1 && srvid != server.srvid) {
         continue;
       }
+      if (!grpname.empty() &&
+          (m.group_index(grpname) == mib::badoff ||
+           m.find_group(server.grpno) != m.group_index(grpname))) {
+        continue;
+      }
       if (server.pid == 0) {
         continue;
       }
@@ -99,7 +104,7 @@ int main(int argc, char *argv[]) {
     }
 
     tpterm();
-    if (srvid == -1) {
+    if (srvid == -1 && grpname.empty()) {
       m.remove();
     }
   } catch (const std::exception &e) {
-- 
2.43.0


From 13c5277a3f57cc84099edf3127b3e9b35d3c813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 106/120] fix: tmshutdown waited for servers whose processes
 are gone

---
 src/tmshutdown.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 0e3f76d..150b9f2 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -62,7 +62,7 @@ int main(int argc, char *argv[]) {
            m.find_group(server.grpno) != m.group_index(grpname))) {
         continue;
       }
-      if (server.pid == 0) {
+      if (server.pid == 0 || !alive(server.pid)) {
         continue;
       }
       if (server.is_inactive()) {
-- 
2.43.0


From 92e9486d6a7a534089096982361710c54a9e45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 107/120] fix: tmboot started the system when asked for help

---
 src/tmboot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index b66d574..eb6fcde 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -124,6 +124,10 @@ int main(int argc, char *argv[]) {
     std::cerr << parser;
     return -1;
   }
+  if (show_help) {
+    std::cout << parser;
+    return 0;
+  }
 
   try {
     mib &m = getmib();
-- 
2.43.0


From d2530f29bbad468e3d298638b5fbe856e38232b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 108/120] fix: tmipcrm went on to remove resources when asked
 for help

---
 src/tmipcrm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmipcrm.cpp b/src/tmipcrm.cpp
index e8bc48c..16bf314 100644
--- a/src/tmipcrm.cpp
+++ b/src/tmipcrm.cpp
@@ -48,6 +48,10 @@ int main(int argc, char *argv[]) {
     std::cerr << parser;
     return -1;
   }
+  if (show_help) {
+    std::cout << parser;
+    return 0;
+  }
 
   try {
     auto cfg = getconfig();
-- 
2.43.0


From 6aa45f9bee0e5540e7aab6703794af3ec950c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:20 +0000
Subject: [PATCH 109/120] fix: a client whose wait was interrupted kept being
 woken up

---
 src/client.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 1ba462a..7bd9644 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -168,7 +168,12 @@ class client {
                      std::chrono::milliseconds(next_blocktime());
         }
         mibcon_.accessers().at(client_).rpid_timeout = deadline;
-        fux::ipc::qrecv(rpid, res, 0, 0);
+        try {
+          fux::ipc::qrecv(rpid, res, 0, 0);
+        } catch (...) {
+          mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
+          throw;
+        }
         mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
         userlog("%s received on %0x", __func__, rpid);
       }
-- 
2.43.0


From 01d145d7cb04b0933d2947634aedfb61f8f92548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 110/120] fix: buildserver crashed on malformed resource
 manager lines

---
 src/build.h         | 4 ++++
 src/buildserver.cpp | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/build.h b/src/build.h
index 7662796..8b12a27 100644
--- a/src/build.h
+++ b/src/build.h
@@ -2,6 +2,7 @@
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
 #include <map>
+#include <stdexcept>
 #include <string>
 
 #include <unistd.h>
@@ -22,6 +23,9 @@ static std::map<std::string, rminfo> parse_rm(const std::string &filename) {
       continue;
     }
     auto parts = fux::split(line, ":");
+    if (parts.size() < 3) {
+      throw std::runtime_error("Invalid line in " + filename + ": " + line);
+    }
     rms.insert(std::make_pair(parts.at(0), rminfo{parts.at(1), parts.at(2)}));
   }
   return rms;
diff --git a/src/buildserver.cpp b/src/buildserver.cpp
index 3c4268b..3ea0885 100644
--- a/src/buildserver.cpp
+++ b/src/buildserver.cpp
@@ -128,7 +128,13 @@ int main(int argc, char *argv[]) {
 
   auto tuxdir = fux::util::getenv("TUXDIR", "");
 
-  auto rms = parse_rm();
+  std::map<std::string, rminfo> rms;
+  try {
+    rms = parse_rm();
+  } catch (const std::exception &e) {
+    std::cerr << e.what() << std::endl;
+    return -1;
+  }
   auto rm = rms.find(rmname);
   if (rm == rms.end() && !rmname.empty()) {
     std::cerr << "Unknown RM name: " << rmname << std::endl;
-- 
2.43.0


From c68aad6131f03f454b17b30eca92dad55ca22c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 111/120] fix: buildserver crashed where it could not create
 its source file

---
 src/buildserver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buildserver.cpp b/src/buildserver.cpp
index 3ea0885..bc0e426 100644
--- a/src/buildserver.cpp
+++ b/src/buildserver.cpp
@@ -146,7 +146,11 @@ int main(int argc, char *argv[]) {
 
   char tmpname[] = "fuxedo-XXXXXX";
   int fd = mkstemp(tmpname);
-  FILE *fout = fdopen(fd, "w");
+  FILE *fout = fd == -1 ? nullptr : fdopen(fd, "w");
+  if (fout == nullptr) {
+    std::cerr << "Can't create " << tmpname << std::endl;
+    return -1;
+  }
 
   gencode(fout, parse_services(services), threads,
           rmname.empty() ? "tmnull_switch" : rm->second.xaswitch);
-- 
2.43.0


From 2b25f2957658d1b4aa7c1444fc2c45f79776d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 112/120] fix: tpadvertise in a multi-threaded server waited
 for the next request

The mutex it took is held by the thread that waits for requests. The table of
services was searched without any.
---
 src/server.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 5b65cd5..afcd64c 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -80,6 +80,8 @@ struct server_main {
   struct tmsvrargs_t *tmsvrargs;
 
   std::mutex mutex;
+  // Not the same as above which is held while waiting for a request
+  std::mutex advertisements_mutex;
   std::map<const char *, void (*)(TPSVCINFO *), cmp_cstr> advertisements;
 
   mib &m_;
@@ -100,7 +102,7 @@ struct server_main {
 
   int tpadvertisex(const char *svcname, void (*func)(TPSVCINFO *), long flags) {
     // TODO: flags
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(advertisements_mutex);
 
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
@@ -147,7 +149,7 @@ struct server_main {
   }
 
   int tpunadvertise(const char *svcname) {
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(advertisements_mutex);
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
       return -1;
@@ -377,8 +379,15 @@ static void dispatch() {
       }
     }
 
-    auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-    if (it == main_ptr->advertisements.end()) {
+    void (*func)(TPSVCINFO *) = nullptr;
+    {
+      fux::scoped_fuxlock lock(main_ptr->advertisements_mutex);
+      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
+      if (it != main_ptr->advertisements.end()) {
+        func = it->second;
+      }
+    }
+    if (func == nullptr) {
       userlog("Service %s is not advertised", tpsvcinfo.name);
       thread_ptr->fail(TPENOENT);
       continue;
@@ -386,7 +395,7 @@ static void dispatch() {
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
       try {
-        it->second(&tpsvcinfo);
+        func(&tpsvcinfo);
         userlog("Service %s returned without tpreturn", tpsvcinfo.name);
       } catch (const std::exception &e) {
         userlog("Service %s failed: %s", tpsvcinfo.name, e.what());
-- 
2.43.0


From 57341342454eb38f551e989ba991bc4f4732ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 113/120] fix: ud32 used memory of its request after a larger
 reply

The reader and the service name kept pointing to the buffer the reply had
moved, so it was read and given back a second time. A request without a
service name went on with a null name.
---
 src/extreader.h |  1 +
 src/ud32.cpp    | 15 +++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/extreader.h b/src/extreader.h
index 8ff770c..f83f1e0 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -27,6 +27,7 @@ class extreader : public basic_parser {
     return true;
   }
   FBFR32 *get() { return buf.get(); }
+  FBFR32 **ptrptr() { return buf.ptrptr(); }
 
  private:
   fux::fml32ptr buf;
diff --git a/src/ud32.cpp b/src/ud32.cpp
index b9bd3fc..290ecaa 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -50,14 +50,17 @@ int main(int argc, char *argv[]) {
   try {
     extreader r(stdin);
     r.parse();
-    FBFR32 *fbfr = r.get();
-    fux::fml32buf rq(&fbfr);
+    // Replies may move the buffer
+    fux::fml32buf rq(r.ptrptr());
 
-    char *srvcnm = Ffind32(fbfr, SRVCNM, 0, nullptr);
-    if (srvcnm == nullptr) {
+    char *name = Ffind32(rq.ptr(), SRVCNM, 0, nullptr);
+    if (name == nullptr) {
       fprintf(stderr, "No service name found (%s)\n", Fstrerror32(Ferror32));
+      return -1;
     }
-    Fprint32(fbfr);
+    std::string service(name);
+    char *srvcnm = &service[0];
+    Fprint32(rq.ptr());
 
     if (timeout > 0) {
       tpbegin(timeout, 0);
@@ -76,7 +79,7 @@ int main(int argc, char *argv[]) {
               tpstrerror(tperrno));
     }
 
-    Fprint32(fbfr);
+    Fprint32(rq.ptr());
     if (cd == -1) {
       if (timeout > 0) {
         tpabort(0);
-- 
2.43.0


From 7cb2b718cf5e0355316205c3065f6f2793276e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 114/120] fix: ud32 ignored its options -h, -p, -r and -t

The buffers were printed although -p was given, a reply was asked for
although -r was given, and with -t no transaction was begun because the
resource manager had not been opened.
---
 src/ud32.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 290ecaa..9469f6d 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -27,7 +27,7 @@ int main(int argc, char *argv[]) {
       clara::Help(show_help) |
       clara::Opt(usrname, "usrname")["-U"](
           "Uses usrname as the username when joining the application.") |
-      clara::Opt(usrname, "cltname")["-C"](
+      clara::Opt(cltname, "cltname")["-C"](
           "Uses cltname as the client name when joining the application.") |
       clara::Opt(timeout, "timeout")["-t"](
           "timeout is the time, in seconds, before the transaction is timed "
@@ -43,6 +43,10 @@ int main(int argc, char *argv[]) {
     std::cerr << parser;
     return -1;
   }
+  if (show_help) {
+    std::cout << parser;
+    return 0;
+  }
 
   FLDID32 SRVCNM = Fldid32(const_cast<char *>("SRVCNM"));
   if (SRVCNM == BADFLDID) {
@@ -60,15 +64,21 @@ int main(int argc, char *argv[]) {
     }
     std::string service(name);
     char *srvcnm = &service[0];
-    Fprint32(rq.ptr());
+    if (!noprint) {
+      Fprint32(rq.ptr());
+    }
 
     if (timeout > 0) {
-      tpbegin(timeout, 0);
+      if (tpopen() == -1 || tpbegin(timeout, 0) == -1) {
+        fprintf(stderr, "Failed to begin transaction %d %s\n", tperrno,
+                tpstrerror(tperrno));
+        return -1;
+      }
     }
 
     int cd;
     if (noreply) {
-      cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOFLAGS);
+      cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOREPLY);
     } else {
       long olen = 0;
       cd = tpcall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0,
@@ -79,7 +89,9 @@ int main(int argc, char *argv[]) {
               tpstrerror(tperrno));
     }
 
-    Fprint32(rq.ptr());
+    if (!noprint) {
+      Fprint32(rq.ptr());
+    }
     if (cd == -1) {
       if (timeout > 0) {
         tpabort(0);
-- 
2.43.0


From 1ff4bb8691fa8035637147d8ac0c4304a88562a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:53 +0000
Subject: [PATCH 115/120] fix: tpcall did not wait for its reply as long as the
 block time of the call

---
 src/client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index 7bd9644..2c79c89 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -222,6 +222,10 @@ class client {
 
   void forget(int cd) { cds.forget(cd); }
 
+  // Block time of the next call only, 0 if there is none
+  long blocktime() const { return blocktime_next; }
+  void blocktime(long msec) { blocktime_next = msec; }
+
   int tpcancel(int cd) {
     if (cds.release(cd) == -1) {
       return -1;
@@ -425,12 +429,16 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
   return fux::atmi::exception_boundary(
       [&] {
         fux::suspend_guard g(!(flags & TPNOTRAN));
+        const long blocktime = getclient().blocktime();
         int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
         if (cd == -1) {
           return -1;
         }
         const int call = cd;
+        // Sending the request was only a half of the call
+        getclient().blocktime(blocktime);
         int rc = tpgetrply(&cd, odata, olen, flags);
+        getclient().blocktime(0);
         // No longer waiting for it, e.g. after timeout
         getclient().forget(call);
         return rc;
-- 
2.43.0


From df747756b04770d43fbc695f1b31b3e2a0184a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:53 +0000
Subject: [PATCH 116/120] fix: tpgetrply ignored TPNOBLOCK and TPNOTIME

---
 src/client.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 2c79c89..9d0d244 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -1,17 +1,21 @@
 // This file is part of Fuxedo
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
+#include <sys/ipc.h>
+
 #include <userlog.h>
 #include <xa.h>
 #include <xatmi.h>
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <limits>
 #include <map>
 #include <memory>
+#include <system_error>
 #include <vector>
 
 #include "ipc.h"
@@ -163,13 +167,20 @@ class client {
       }
 
       if (!has_res) {
-        if (deadline == INVALID_TIME) {
+        if (deadline == INVALID_TIME && !(flags & (TPNOTIME | TPNOBLOCK))) {
           deadline = std::chrono::steady_clock::now() +
                      std::chrono::milliseconds(next_blocktime());
         }
         mibcon_.accessers().at(client_).rpid_timeout = deadline;
         try {
-          fux::ipc::qrecv(rpid, res, 0, 0);
+          fux::ipc::qrecv(rpid, res, 0, flags & TPNOBLOCK ? IPC_NOWAIT : 0);
+        } catch (const std::system_error &e) {
+          mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
+          if ((flags & TPNOBLOCK) && e.code().value() == ENOMSG) {
+            TPERROR(TPEBLOCK, "Reply is not available");
+            return -1;
+          }
+          throw;
         } catch (...) {
           mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
           throw;
@@ -437,7 +448,8 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
         const int call = cd;
         // Sending the request was only a half of the call
         getclient().blocktime(blocktime);
-        int rc = tpgetrply(&cd, odata, olen, flags);
+        // TPNOBLOCK is for the request only
+        int rc = tpgetrply(&cd, odata, olen, flags & ~TPNOBLOCK);
         getclient().blocktime(0);
         // No longer waiting for it, e.g. after timeout
         getclient().forget(call);
-- 
2.43.0


From 147b4f577d5dae528975e72a14af040331d75dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 117/120] fix: calls with a block time of several years failed
 at once

---
 src/ipc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 722ded6..377061a 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -162,9 +162,9 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
     }
   } else {  // noflags
     const long interval_msec = 100;
-    int times = msec / interval_msec + 2;
+    long times = msec / interval_msec + 2;
 
-    for (int i = 0; i < times; i++) {
+    for (long i = 0; i < times; i++) {
       int n = msgsnd(msqid, ptr, len - sizeof(long), IPC_NOWAIT);
       if (n != -1) {
         return true;
-- 
2.43.0


From cf7aa6e84d4c4cfeebc50acb425066b35d4ae76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 118/120] fix: servers ignored the services named by their
 option -s

---
 src/server.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index afcd64c..c50e65f 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -422,6 +422,34 @@ namespace fux::glob {
 extern xa_switch_t *xasw;
 }
 
+// SERVICE[,SERVICE...][:FUNCTION]
+static bool advertise_option(const std::string &option,
+                             struct tmdsptchtbl_t *table) {
+  auto parts = fux::split(option, ":");
+  if (parts.empty() || parts.size() > 2) {
+    userlog("Invalid list of services %s", option.c_str());
+    return false;
+  }
+  for (const auto &svcname : fux::split(parts[0], ",")) {
+    auto rec = table;
+    while (rec->svcname != nullptr &&
+           (parts.size() == 2 ? parts[1] != rec->funcname
+                              : svcname != rec->svcname)) {
+      rec++;
+    }
+    if (rec->svcname == nullptr) {
+      userlog("No function for service %s", svcname.c_str());
+      return false;
+    }
+    if (tpadvertise(const_cast<char *>(svcname.c_str()), rec->svcfunc) == -1) {
+      userlog("Failed to advertise service %s / function %s : %s",
+              svcname.c_str(), rec->funcname, tpstrerror(tperrno));
+      return false;
+    }
+  }
+  return true;
+}
+
 int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   bool show_help = false;
   bool verbose = false;
@@ -501,6 +529,12 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   thread_ptr->prepare();
   main_thread_ptr = thread_ptr.get();
 
+  for (const auto &option : services) {
+    if (!advertise_option(option, tmsvrargs->tmdsptchtbl)) {
+      return -1;
+    }
+  }
+
   if (all) {
     struct tmdsptchtbl_t *rec = tmsvrargs->tmdsptchtbl;
     while (rec->svcname != nullptr && strlen(rec->svcname) > 0) {
-- 
2.43.0


From 99e03c2122fd205ca146b7a8daffe75ec6ad1315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:29 +0000
Subject: [PATCH 119/120] fix: a client that took over the place of a timed out
 one was woken up

---
 src/BBL.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 5a1f990..35dd05d 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -42,6 +42,7 @@ int main(int argc, char **argv) {
 
 static void handle_blocktime() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto now = std::chrono::steady_clock::now();
 
   auto accessers = m.accessers();
-- 
2.43.0


From 46f25c09e241dc7b59f6a238a71dc93f4f37aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:10 +0000
Subject: [PATCH 120/120] fix: names of fields dangled or were missed when
 threads asked for them at once

---
 src/fbfr32fld.h | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index d7bcfe8..90d68ff 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -59,10 +59,15 @@ struct Fbfr32fields {
   static constexpr long Fldno32(FLDID32 fieldid) { return fieldid & 0xffffff; }
 
   char *name(FLDID32 fieldid) {
-    if (!id_to_name_loaded && !load_fieldtbls32()) {
-      return nullptr;
-    }
     std::shared_lock<std::shared_timed_mutex> lock(mutex);
+    std::unique_lock<std::shared_timed_mutex> load_lock(mutex, std::defer_lock);
+    if (!id_to_name_loaded) {
+      lock.unlock();
+      load_lock.lock();
+      if (!load_fieldtbls32()) {
+        return nullptr;
+      }
+    }
     auto it = id_to_name.find(fieldid);
     if (it != id_to_name.end()) {
       return const_cast<char *>(it->second.c_str());
@@ -76,10 +81,15 @@ struct Fbfr32fields {
       Ferror32 = FBADNAME;
       return BADFLDID;
     }
-    if (!name_to_id_loaded && !load_fieldtbls32()) {
-      return BADFLDID;
-    }
     std::shared_lock<std::shared_timed_mutex> lock(mutex);
+    std::unique_lock<std::shared_timed_mutex> load_lock(mutex, std::defer_lock);
+    if (!name_to_id_loaded) {
+      lock.unlock();
+      load_lock.lock();
+      if (!load_fieldtbls32()) {
+        return BADFLDID;
+      }
+    }
     auto it = name_to_id.find(name);
     if (it != name_to_id.end()) {
       return it->second;
@@ -110,13 +120,19 @@ struct Fbfr32fields {
     field_table_parser p(fields);
     p.parse();
     for (auto field : p.fields()) {
-      id_to_name.insert(make_pair(field.fieldid, field.name));
-      name_to_id.insert(make_pair(field.name, field.fieldid));
+      if (!id_to_name_loaded) {
+        id_to_name.insert(make_pair(field.fieldid, field.name));
+      }
+      if (!name_to_id_loaded) {
+        name_to_id.insert(make_pair(field.name, field.fieldid));
+      }
     }
 
     return true;
   }
 
+  // Loads what is not loaded yet, names already returned must stay valid.
+  // The mutex must be locked exclusively.
   bool load_fieldtbls32() {
     auto fieldtbls32 = getenv("FIELDTBLS32");
     auto fldtbldir32 = getenv("FLDTBLDIR32");
@@ -128,14 +144,6 @@ struct Fbfr32fields {
     auto files = fux::split(fieldtbls32, ",");
     auto dirs = fux::split(fldtbldir32, ":");
 
-    std::unique_lock<std::shared_timed_mutex> lock(mutex);
-
-    id_to_name.clear();
-    name_to_id.clear();
-
-    id_to_name_loaded = false;
-    name_to_id_loaded = false;
-
     try {
       for (auto &fname : files) {
         for (auto &dname : dirs) {
@@ -145,8 +153,12 @@ struct Fbfr32fields {
         }
       }
     } catch (const std::exception &e) {
-      id_to_name.clear();
-      name_to_id.clear();
+      if (!id_to_name_loaded) {
+        id_to_name.clear();
+      }
+      if (!name_to_id_loaded) {
+        name_to_id.clear();
+      }
       FERROR32(FFTSYNTAX, "Invalid field table [%s]", e.what());
       return false;
     }
-- 
2.43.0

