From 582d07dfcd1f216cd40ae570df1ff4185e360472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 01/29] fix: refuse incomplete UUID texts

Uuid(Slice) took any text the state machine had not yet refused, so "",
"A/" or "abc+" (a missing word) parsed as ordinary UUIDs instead of the
error UUID. Require a final state.
---
 ragel/uuid-parser.rl | 2 +-
 ron/uuid-parser.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ragel/uuid-parser.rl b/ragel/uuid-parser.rl
index eceec05..fbd6b78 100644
--- a/ragel/uuid-parser.rl
+++ b/ragel/uuid-parser.rl
@@ -25,7 +25,7 @@ namespace ron {
             write exec;
         }%%
 
-        if (cs && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
+        if (cs>=UUID_first_final && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
             this->value = Word{ABC[variety], value};
             this->origin = Word{ABC[version], origin};
         } else {
diff --git a/ron/uuid-parser.cc b/ron/uuid-parser.cc
index 6b9cc52..b830b39 100644
--- a/ron/uuid-parser.cc
+++ b/ron/uuid-parser.cc
@@ -247,7 +247,7 @@ Uuid::Uuid(Slice data) noexcept {
 
 #line 26 "ragel/uuid-parser.rl"
 
-    if (cs && value.size() <= Word::MAX_BASE64_SIZE &&
+    if (cs >= UUID_first_final && value.size() <= Word::MAX_BASE64_SIZE &&
         origin.size() <= Word::MAX_BASE64_SIZE) {
         this->value = Word{ABC[variety], value};
         this->origin = Word{ABC[version], origin};
-- 
2.43.0


From 0764e8d74e67f12aed4e4a619e0e81a0ecf052c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 02/29] fix: bound form2uuid() by the number of forms

The bound was the byte size of the table, so unregistered numbers 20..159
read past its end instead of giving the error UUID.
---
 ron/form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 2a2ed67..478633e 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -108,7 +108,7 @@ inline FORM uuid2form(Uuid u) {
 }
 
 inline Uuid form2uuid(FORM form) {
-    if (form < sizeof(FORMS)) {
+    if (form < sizeof(FORMS) / sizeof(FORMS[0])) {
         return Uuid{FORMS[form], 0};
     } else {
         return Uuid::FATAL;
-- 
2.43.0


From 6a820baa154e308daa80f9463b2a56239b425229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 03/29] fix: advance inc_stack iterators within a span

operator+= moved the span iterator instead of the offset in the span and
ignored the current offset, so it ran off the vector.
---
 ron/inc_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 1e7a893..ef9faa3 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -42,11 +42,13 @@ class inc_stack {
         }
         void operator+=(len_t advance) {
             while (advance > 0) {
-                if (i_->size <= advance) {
-                    advance -= i_->size;
+                len_t rest = i_->size - off_;
+                if (rest <= advance) {
+                    advance -= rest;
                     ++i_;
+                    off_ = 0;
                 } else {
-                    i_ += advance;
+                    off_ += advance;
                     advance = 0;
                 }
             }
-- 
2.43.0


From 871f7a9735dda4e97ec0cd499f27dad5c45fe6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 04/29] fix: encode supplementary code points as UTF-16
 surrogate pairs

The 0x10000 offset was left out on both sides (U+10FFFF became dc3f dfff,
which is no surrogate pair) and U+D7FF was written as two units.
---
 ron/encdec.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..4d1e750 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -150,9 +150,10 @@ inline void utf8esc_append(String& to, Codepoint cp) {
 }
 
 inline void utf16append(std::u16string& to, Codepoint cp) {
-    if (cp < 0xd7ff || (cp < 0x10000 && cp >= 0xe000)) {
+    if (cp < 0x10000) {
         to.push_back(static_cast<char16_t>(cp));
     } else {
+        cp -= 0x10000;
         to.push_back(static_cast<char16_t>(0xd800 + (cp >> 10)));
         to.push_back(static_cast<char16_t>(0xdc00 + (cp & 1023)));
     }
@@ -218,7 +219,7 @@ inline Codepoint utf16read(std::u16string::const_iterator& at,
     ret <<= 10;
     ret |= next - 0xdc00;
     ++at;
-    return ret;
+    return ret + 0x10000;
 }
 
 void utf8utf16(std::u16string& to, const String& from);
-- 
2.43.0


From 9932e21bd0588e5aba4ea7551a592267d012e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 05/29] fix: decode the hash text in SHA2::ParseHex/ParseBase64

The decoder was given the (zero) number of known bits instead of the
length of the text, so nothing was decoded: every text gave a zero hash
said to be known, and texts with wrong characters were accepted.
---
 ron/hash.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..183e52a 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -61,22 +61,24 @@ struct SHA2 {
     }
 
     static SHA2 ParseHex(const String& hash) {
-        SHA2 ret;
         assert(hash.size() <= HEX_SIZE);
-        uint32_t b = uint32_t(hash.size()) << 2;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
-        return ret;
+        return Parse<4, ABC16>(hash);
     }
 
     static SHA2 ParseBase64(const String& hash) {
-        SHA2 ret;
         assert(hash.size() <= BASE64_SIZE);
-        uint32_t b = uint32_t(hash.size()) * 6;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
+        return Parse<6, ABC64>(hash);
+    }
+
+    template <int bit_width, const int8_t table[256]>
+    static SHA2 Parse(const String& hash) {
+        SHA2 ret;
+        String bits;
+        uint32_t b = uint32_t(hash.size()) * bit_width;
+        if (!decode<bit_width, table>(bits, hash, b)) return ret;
+        bits.resize(SIZE, 0);
+        std::swap(ret.bits_, bits);
+        ret.known_bits_ = b > BIT_SIZE ? BIT_SIZE : b;
         return ret;
     }
 
-- 
2.43.0


From 6befc0b471f8b8ec2bef9643db6f1dd4728263b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 06/29] fix: report over-limit numbers and UUID words in frames

The limit checks set the machine state that fbreak then overwrites, so an
over-limit value directly before a terminator read as the end of the frame;
ids and references were not checked at all and hit an assertion.
---
 ragel/text-grammar.rl |  10 +-
 ragel/text-parser.rl  |   3 +
 ron/text-parser.cc    | 531 +++++++++++++++++++++++++++++++++---------
 3 files changed, 426 insertions(+), 118 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ef32bff..f360483 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -7,15 +7,17 @@
     include UTF8 "./utf8-grammar.rl";
 
     action end_id {
+        if (word_too_big(value) || word_too_big(origin)) { over_limit = true; fbreak; }
         op_[0] = Uuid{variety, value, version, origin};
     }
     action end_ref {
+        if (word_too_big(value) || word_too_big(origin)) { over_limit = true; fbreak; }
         op_[1] = Uuid{variety, value, version, origin};
     }
     action begin_int { intb = p; }
     action end_int {
         Range range{buffer, intb, p};
-        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = 0; fbreak; }
+        if (range.size()>=19 && int_too_big(Slice{intb,p})) { over_limit = true; fbreak; }
         op_.emplace_back(INT, range);
         uuidb = nullptr; // sabotage uuid
     }
@@ -27,16 +29,16 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = 0; fbreak; }
+        if (range.size() > 24) { over_limit = true; fbreak; }
         op_.emplace_back(FLOAT, range);
     }
     action end_quoted_uuid {
-        if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+        if (word_too_big(value) || word_too_big(origin)) { over_limit = true; fbreak; }
         op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
         if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
-            if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+            if (word_too_big(value) || word_too_big(origin)) { over_limit = true; fbreak; }
             op_.push_back(Uuid{variety, value, version, origin}); 
         }
     }
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index cb66f71..0cbfff7 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -62,6 +62,7 @@ Status TextFrame::Cursor::Next () {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool over_limit{false};
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -78,6 +79,8 @@ Status TextFrame::Cursor::Next () {
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
+    if (over_limit) cs = RON_error;
+
     if (term && cs!=RON_error) {
         term_ = chr2term(term); // FIXME gen a fn
         return Status::OK;
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 4ca2a7c..c4f0c1f 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -74,6 +74,7 @@ Status TextFrame::Cursor::Next() {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool over_limit{false};
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -109,7 +110,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
+                over_limit = true;
                 {
                     p++;
                     cs = 74;
@@ -134,7 +135,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                over_limit = true;
                 {
                     p++;
                     cs = 74;
@@ -163,7 +164,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 74;
@@ -192,7 +193,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 74;
@@ -216,7 +217,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                cs = 0;
+                over_limit = true;
                 {
                     p++;
                     cs = 74;
@@ -234,7 +235,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 74;
@@ -265,7 +266,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 74;
@@ -296,7 +297,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 74;
@@ -321,7 +322,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                over_limit = true;
                 {
                     p++;
                     cs = 74;
@@ -338,7 +339,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 74;
@@ -363,7 +364,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
-                cs = 0;
+                over_limit = true;
                 {
                     p++;
                     cs = 74;
@@ -380,7 +381,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 74;
@@ -408,7 +409,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 74;
+                        goto _out;
+                    }
+                }
+                op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -427,7 +438,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 74;
+                        goto _out;
+                    }
+                }
+                op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -446,7 +467,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 74;
+                        goto _out;
+                    }
+                }
+                op_[1] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -465,7 +496,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+                if (word_too_big(value) || word_too_big(origin)) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 74;
+                        goto _out;
+                    }
+                }
+                op_[0] = Uuid{variety, value, version, origin};
+            }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -535,7 +576,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 1;
@@ -551,7 +592,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 1;
@@ -571,7 +612,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 1;
@@ -591,7 +632,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 1;
@@ -606,7 +647,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 1;
@@ -624,7 +665,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 1;
@@ -646,7 +687,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 1;
@@ -668,7 +709,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 1;
@@ -684,7 +725,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 1;
@@ -701,7 +742,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 1;
@@ -717,7 +758,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 1;
@@ -734,7 +775,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 1;
@@ -753,7 +794,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr195 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -763,7 +814,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr205 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -773,7 +834,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             tr215 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -783,7 +854,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -962,7 +1043,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 4;
@@ -985,7 +1066,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 4;
@@ -1012,7 +1093,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 4;
@@ -1039,7 +1120,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 4;
@@ -1061,7 +1142,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 4;
@@ -1079,7 +1160,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1108,7 +1189,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1137,7 +1218,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1160,7 +1241,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 4;
@@ -1177,7 +1258,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1200,7 +1281,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 4;
@@ -1217,7 +1298,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 4;
@@ -1243,7 +1324,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 4;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1260,7 +1351,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 4;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1330,7 +1431,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 5;
@@ -1346,7 +1447,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 5;
@@ -1366,7 +1467,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 5;
@@ -1386,7 +1487,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 5;
@@ -1401,7 +1502,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 5;
@@ -1419,7 +1520,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1441,7 +1542,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1463,7 +1564,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1479,7 +1580,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 5;
@@ -1496,7 +1597,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1512,7 +1613,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 5;
@@ -1529,7 +1630,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 5;
@@ -1548,7 +1649,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 5;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr196 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -1558,7 +1669,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 5;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr206 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1568,7 +1689,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 5;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             tr216 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1578,7 +1709,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 5;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -2195,7 +2336,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 25;
@@ -2211,7 +2352,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 25;
@@ -2231,7 +2372,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 25;
@@ -2251,7 +2392,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 25;
@@ -2266,7 +2407,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 25;
@@ -2284,7 +2425,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2306,7 +2447,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2328,7 +2469,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2344,7 +2485,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 25;
@@ -2361,7 +2502,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2377,7 +2518,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 25;
@@ -2394,7 +2535,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 25;
@@ -2413,7 +2554,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 25;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr199 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2423,7 +2574,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 25;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr208 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2433,7 +2594,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 25;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             tr219 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2443,7 +2614,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 25;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st25;
             st25:
                 if (++p == pe) goto _test_eof25;
@@ -2529,7 +2710,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 28;
@@ -2545,7 +2726,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 28;
@@ -2565,7 +2746,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 28;
@@ -2585,7 +2766,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 28;
@@ -2600,7 +2781,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 28;
@@ -2618,7 +2799,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2640,7 +2821,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2662,7 +2843,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2678,7 +2859,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 28;
@@ -2695,7 +2876,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2711,7 +2892,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 28;
@@ -2728,7 +2909,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 28;
@@ -2747,7 +2928,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 28;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr200 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2757,7 +2948,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 28;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr209 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2767,7 +2968,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 28;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             tr220 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2777,7 +2988,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 28;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st28;
             st28:
                 if (++p == pe) goto _test_eof28;
@@ -2953,7 +3174,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 32;
@@ -2969,7 +3190,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 32;
@@ -2989,7 +3210,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 32;
@@ -3009,7 +3230,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
-                        cs = 0;
+                        over_limit = true;
                         {
                             p++;
                             cs = 32;
@@ -3024,7 +3245,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 32;
@@ -3042,7 +3263,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3064,7 +3285,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3086,7 +3307,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3102,7 +3323,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 32;
@@ -3119,7 +3340,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3135,7 +3356,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
-                    cs = 0;
+                    over_limit = true;
                     {
                         p++;
                         cs = 32;
@@ -3152,7 +3373,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
-                            cs = 0;
+                            over_limit = true;
                             {
                                 p++;
                                 cs = 32;
@@ -3171,7 +3392,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 32;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr201 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -3181,7 +3412,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 32;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr210 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3191,7 +3432,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 32;
+                            goto _out;
+                        }
+                    }
+                    op_[1] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             tr221 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3201,7 +3452,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 32;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st32;
             st32:
                 if (++p == pe) goto _test_eof32;
@@ -4230,7 +4491,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 63;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4247,7 +4518,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 63;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4313,7 +4594,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 64;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             tr218 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -4323,7 +4614,17 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+                    if (word_too_big(value) || word_too_big(origin)) {
+                        over_limit = true;
+                        {
+                            p++;
+                            cs = 64;
+                            goto _out;
+                        }
+                    }
+                    op_[0] = Uuid{variety, value, version, origin};
+                }
                 goto st64;
             st64:
                 if (++p == pe) goto _test_eof64;
@@ -4967,6 +5268,8 @@ Status TextFrame::Cursor::Next() {
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
+    if (over_limit) cs = RON_error;
+
     if (term && cs != RON_error) {
         term_ = chr2term(term);  // FIXME gen a fn
         return Status::OK;
-- 
2.43.0


From 3c969df4958a57d6a54bfa46d24924a5c0b13f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 07/29] fix: refuse empty and overflowing op spans

(0) and ('') wrapped the remaining-op counter around, a long count
overflowed it, and a syntax error after a span left it set.
---
 ragel/text-grammar.rl |  3 +++
 ragel/text-parser.rl  |  1 +
 ron/text-parser.cc    | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index f360483..48593f3 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -61,13 +61,16 @@
     action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
 
     action span_size_digit {
+        if (span_size_ > FSIZE_MAX/10) { over_limit = true; fbreak; }
         span_size_ *= 10;
         span_size_ += fc - '0';
     }
     action end_span_size {
+        if (!span_size_) { over_limit = true; fbreak; }
         --span_size_;
     }
     action end_spread {
+        if (!cp_size) { over_limit = true; fbreak; }
         if (op_.back().value.cp_size) { NextCodepoint(op_.back()); }
         span_size_ = cp_size-1;
     }
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 0cbfff7..40240ad 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -89,6 +89,7 @@ Status TextFrame::Cursor::Next () {
         return Status::ENDOFFRAME;
     } else {
         cs = RON_error;
+        span_size_ = 0;
         char msg[64];
         size_t msglen = sprintf((char*)msg, "syntax error at line %d col %d (offset %d)", line, (int)(p-lineb), (int)(p-pb));
         return Status::BAD_STATE.comment(msg);
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index c4f0c1f..10cdd25 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -1896,6 +1896,14 @@ Status TextFrame::Cursor::Next() {
             tr39 :
 #line 68 "ragel/./text-grammar.rl"
             {
+                if (!cp_size) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 9;
+                        goto _out;
+                    }
+                }
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
                 }
@@ -1912,6 +1920,14 @@ Status TextFrame::Cursor::Next() {
             tr59 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 9;
+                        goto _out;
+                    }
+                }
                 --span_size_;
             }
 #line 52 "ragel/./text-grammar.rl"
@@ -1948,6 +1964,14 @@ Status TextFrame::Cursor::Next() {
             tr40 :
 #line 68 "ragel/./text-grammar.rl"
             {
+                if (!cp_size) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 10;
+                        goto _out;
+                    }
+                }
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
                 }
@@ -1957,6 +1981,14 @@ Status TextFrame::Cursor::Next() {
             tr60 :
 #line 65 "ragel/./text-grammar.rl"
             {
+                if (!span_size_) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 10;
+                        goto _out;
+                    }
+                }
                 --span_size_;
             }
                 goto st10;
@@ -2208,6 +2240,14 @@ Status TextFrame::Cursor::Next() {
             tr26 :
 #line 61 "ragel/./text-grammar.rl"
             {
+                if (span_size_ > FSIZE_MAX / 10) {
+                    over_limit = true;
+                    {
+                        p++;
+                        cs = 20;
+                        goto _out;
+                    }
+                }
                 span_size_ *= 10;
                 span_size_ += (*p) - '0';
             }
@@ -5278,6 +5318,7 @@ Status TextFrame::Cursor::Next() {
         return Status::ENDOFFRAME;
     } else {
         cs = RON_error;
+        span_size_ = 0;
         char msg[64];
         size_t msglen =
             sprintf((char *)msg, "syntax error at line %d col %d (offset %d)",
-- 
2.43.0


From 50414462ab3bbaf4972aae40be708758bc43682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 08/29] fix: read and write the full int64 range

Sign and leading zeros were counted as digits by the size check, INT64_MIN
was refused, and writing it overflowed the buffer by one byte.
---
 ron/text-builder.cc |  2 +-
 ron/text.cc         | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..7609ba0 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -37,7 +37,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[24];
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..5ca437c 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -15,13 +15,14 @@ Result TextFrame::Cursor::ParseInteger(Atom& a) const {
     } else if (*i == '+') {
         i++;
     }
-    int64_t& ret = a.value.as_integer;
+    uint64_t ret = 0;
     while (i < range.end()) {
         ret *= 10;
         ret += *i - '0';
         i++;
     }
     if (neg) ret = -ret;
+    a.value.as_integer = static_cast<int64_t>(ret);
     return OK;
 }
 
@@ -68,21 +69,25 @@ Status TextFrame::Split(std::vector<TextFrame>& to) {
 }
 
 bool TextFrame::Cursor::int_too_big(const Slice& data) {
-    static const char* MAXINTSTR = "9223372036854775807";
+    const char* limit = "9223372036854775807";
     if (data.size() < 19) {
         return false;
     }
     CharRef mem = data.begin();
     size_t sz = data.size();
     if (*mem == '-' || *mem == '+') {
+        if (*mem == '-') limit = "9223372036854775808";
         ++mem;
         --sz;
     }
-    if (sz > 19) {
-        return true;
+    while (sz > 19 && *mem == '0') {
+        ++mem;
+        --sz;
+    }
+    if (sz != 19) {
+        return sz > 19;
     }
-    int res = memcmp(mem, MAXINTSTR, sz);
-    return res > 0;
+    return memcmp(mem, limit, sz) > 0;
 }
 
 Codepoint TextFrame::decode_hex_cp(Slice data) {
-- 
2.43.0


From aae75da9ecf859a2c042f1744d456beaf86a721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 09/29] fix: floats read back as floats

An integral double was written as an INT text, a float with an exponent and
no fraction was read as a float and a UUID, and a UUID spelled like a float
was not quoted.
---
 ragel/text-grammar.rl |  1 +
 ron/text-builder.cc   |  5 +++++
 ron/text-parser.cc    | 21 +++++++++++++++++++++
 ron/uuid.cc           | 16 ++++++++++++++++
 ron/uuid.hpp          |  5 ++---
 5 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 48593f3..902ad34 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -31,6 +31,7 @@
         Range range{buffer, floatb, p};
         if (range.size() > 24) { over_limit = true; fbreak; }
         op_.emplace_back(FLOAT, range);
+        uuidb = nullptr; // sabotage uuid
     }
     action end_quoted_uuid {
         if (word_too_big(value) || word_too_big(origin)) { over_limit = true; fbreak; }
diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 7609ba0..697eb1f 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -1,4 +1,5 @@
 #include <cinttypes>
+#include <cstring>
 #include "text.hpp"
 
 namespace ron {
@@ -55,6 +56,10 @@ void TextFrame::Builder::WriteFloat(double value) {
     // 17 is DBL_DECIMAL_DIG, enough to express 64 bit ISO floats
     int len = sprintf(tmp, "%.17G", value);
     data_.append(tmp, static_cast<size_t>(len));
+    // an integral value must not read back as an INT
+    if (strspn(tmp, "-0123456789") == static_cast<size_t>(len)) {
+        data_.append(".0");
+    }
 }
 
 void TextFrame::Builder::WriteString(const String& value) {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 10cdd25..a2ccec5 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -143,6 +143,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // sabotage uuid
         }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -330,6 +331,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // sabotage uuid
         }
 #line 17 "ragel/././uuid-grammar.rl"
             { origin = Slice{wordb, p}; }
@@ -372,6 +374,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // sabotage uuid
         }
 #line 14 "ragel/././uuid-grammar.rl"
             { value = Slice{wordb, p}; }
@@ -600,6 +603,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st1;
             tr89 :
@@ -733,6 +737,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -766,6 +771,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1074,6 +1080,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1249,6 +1256,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1289,6 +1297,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1455,6 +1464,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st5;
             tr90 :
@@ -1588,6 +1598,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1621,6 +1632,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2400,6 +2412,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st25;
             tr93 :
@@ -2533,6 +2546,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2566,6 +2580,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2774,6 +2789,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st28;
             tr94 :
@@ -2907,6 +2923,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2940,6 +2957,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -3238,6 +3256,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
                 goto st32;
             tr95 :
@@ -3371,6 +3390,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -3404,6 +3424,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // sabotage uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..9e26735 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -44,6 +44,22 @@ bool Word::is_all_digits() const {
     return true;
 }
 
+bool Uuid::is_ambiguous() const {
+    if (value.is_all_digits()) return origin.is_zero();
+    static const char* const DIGITS = "0123456789";
+    ron::String text = value.str();
+    size_t at = text.find_first_not_of(DIGITS);
+    if (at == 0 || (text[at] != 'e' && text[at] != 'E')) return false;
+    ron::String exp = text.substr(at + 1);
+    if (version() == UUID::TIME || version() == UUID::DERIVED) {
+        if (!exp.empty()) return false;
+        exp = origin.str();
+    } else if (!origin.is_zero()) {
+        return false;
+    }
+    return !exp.empty() && exp.find_first_not_of(DIGITS) == ron::String::npos;
+}
+
 void Uuid::write_base64(ron::String& ret) const {
     size_t len = 0;
     int vrt = variety();
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..987415a 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** Whether the text form might be taken for a number (12, 1e2, 1e+2). */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From e4aa0a11f0a0329d4ef39b822e0b96ad6bc7a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 10/29] fix: string escapes the builder and other writers
 produce

The builder escapes form feeds as \f, which the grammar refused; a \u escape
ending a string was decoded as no character.
---
 ragel/text-grammar.rl |  6 +++---
 ron/cp-parser.cc      | 38 +++++++++++---------------------------
 ron/text-parser.cc    |  4 ++++
 3 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 902ad34..fd1124e 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -59,7 +59,7 @@
         }
     }
     action string_esc { cp = decode_esc(fc); }
-    action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
+    action string_uesc { cp = decode_hex_cp(Slice{p-3,4}); }
 
     action span_size_digit {
         if (span_size_ > FSIZE_MAX/10) { over_limit = true; fbreak; }
@@ -92,8 +92,8 @@
     # UTF8 = TODO;
 
     # JSON-ey string
-    UNIESC = "\\u" [0-9a-fA-F]{4} %string_uesc;
-    ESC = "\\" [nrt\\b'/"] @string_esc;
+    UNIESC = "\\u" [0-9a-fA-F]{3} [0-9a-fA-F] @string_uesc;
+    ESC = "\\" [nrt\\bf'/"] @string_esc;
     CHAR = CODEPOINT - ['\n\r\\\0];
     CP = (UNIESC|ESC|CHAR) %end_cp;
     STRING = ( CP* ) >begin_string %end_string;
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 65fa874..2ad6392 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -106,10 +106,6 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp = (*p); }
                 goto st10;
             tr20 :
-#line 59 "ragel/./text-grammar.rl"
-            {
-                cp = decode_hex_cp(Slice{p - 4, 4});
-            }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
@@ -169,10 +165,6 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 }
                 goto st1;
             tr21 :
-#line 59 "ragel/./text-grammar.rl"
-            {
-                cp = decode_hex_cp(Slice{p - 4, 4});
-            }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
@@ -200,6 +192,8 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                         goto tr0;
                     case 98u:
                         goto tr0;
+                    case 102u:
+                        goto tr0;
                     case 110u:
                         goto tr0;
                     case 114u:
@@ -244,12 +238,18 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 if (++p == pe) goto _test_eof5;
             case 5:
                 if ((*p) < 65u) {
-                    if (48u <= (*p) && (*p) <= 57u) goto st11;
+                    if (48u <= (*p) && (*p) <= 57u) goto tr25;
                 } else if ((*p) > 70u) {
-                    if (97u <= (*p) && (*p) <= 102u) goto st11;
+                    if (97u <= (*p) && (*p) <= 102u) goto tr25;
                 } else
-                    goto st11;
+                    goto tr25;
                 goto st0;
+            tr25 :
+#line 59 "ragel/./text-grammar.rl"
+            {
+                cp = decode_hex_cp(Slice{p - 3, 4});
+            }
+                goto st11;
             st11:
                 if (++p == pe) goto _test_eof11;
             case 11:
@@ -308,10 +308,6 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp = (*p) & 0x1f; }
                 goto st6;
             tr22 :
-#line 59 "ragel/./text-grammar.rl"
-            {
-                cp = decode_hex_cp(Slice{p - 4, 4});
-            }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
@@ -362,10 +358,6 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp = (*p) & 0xf; }
                 goto st7;
             tr23 :
-#line 59 "ragel/./text-grammar.rl"
-            {
-                cp = decode_hex_cp(Slice{p - 4, 4});
-            }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
@@ -410,10 +402,6 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp = (*p) & 7; }
                 goto st8;
             tr24 :
-#line 59 "ragel/./text-grammar.rl"
-            {
-                cp = decode_hex_cp(Slice{p - 4, 4});
-            }
 #line 43 "ragel/./text-grammar.rl"
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
@@ -485,10 +473,6 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     }
                     break;
                 case 11:
-#line 59 "ragel/./text-grammar.rl"
-                {
-                    cp = decode_hex_cp(Slice{p - 4, 4});
-                }
 #line 43 "ragel/./text-grammar.rl"
                     { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index a2ccec5..ad375ae 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -2060,6 +2060,8 @@ Status TextFrame::Cursor::Next() {
                         goto tr44;
                     case 98u:
                         goto tr44;
+                    case 102u:
+                        goto tr44;
                     case 110u:
                         goto tr44;
                     case 114u:
@@ -4256,6 +4258,8 @@ Status TextFrame::Cursor::Next() {
                         goto tr159;
                     case 98u:
                         goto tr159;
+                    case 102u:
+                        goto tr159;
                     case 110u:
                         goto tr159;
                     case 114u:
-- 
2.43.0


From 5163d36e032c714da85fd0bdbba082462fe71ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 11/29] fix: frame builder compression loses no data

WriteSpec left the id out when only the reference matched, a span was
continued across a chunk boundary, and ExtendSpan moved bytes of the
quoted value around.
---
 ron/text.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..329212d 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -172,13 +172,13 @@ class TextFrame {
         void WriteSpec(Uuid id, Uuid ref) {
             WriteTerm();
             span_size_ = 1;
-            bool seq_id = id == prev_id_.inc();
-            if (!seq_id) {
+            // the grammar has no ref without an id
+            if (id != prev_id_.inc() || ref != prev_id_) {
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
             }
             if (ref != prev_id_) {
-                if (!seq_id) Write(' ');
+                Write(' ');
                 Write(SPEC_PUNCT[REF]);
                 WriteUuid(ref);
             }
@@ -241,7 +241,7 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
-            if (cur.ref() != prev_id_) {
+            if (!span_size_ || cur.ref() != prev_id_) {
                 return false;
             }
             if (cur.id() != prev_id_.inc()) {
@@ -255,19 +255,10 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
-                    data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
+                    // ends with a one-character value: 'a', '\\n', '\\u0416'
                     data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    size_t open = data_.rfind(" '", data_.size() - 2);
+                    data_.insert(open + 1, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
@@ -330,6 +321,8 @@ class TextFrame {
             }
             std::swap(data_, to);
             data_.clear();
+            prev_id_ = Uuid::NIL;
+            prev_2_ = Uuid::FATAL;
             return OK;
         }
 
-- 
2.43.0


From 171d718492a606aba2e35549290179f888422c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 12/29] fix: Slice::str() copies the slice

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..307bf3c 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -207,8 +207,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From 1e5eec519fadc78e79af6c7856ff96c5665e4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 13/29] fix: only the last op of a span has the span's term

Otherwise copying a frame splits the chunk into one chunk per op.
---
 ragel/text-parser.rl | 5 +++++
 ron/text-parser.cc   | 5 +++++
 ron/text.hpp         | 5 ++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 40240ad..32b9a98 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -21,6 +21,7 @@ Status TextFrame::Cursor::Next () {
         if (atoms.back().type()==STRING && atoms.back().value.cp) {
             NextCodepoint(atoms.back());
         }
+        term_ = span_size_ ? REDUCED : span_term_;
         return Status::OK;
     }
 
@@ -83,6 +84,10 @@ Status TextFrame::Cursor::Next () {
 
     if (term && cs!=RON_error) {
         term_ = chr2term(term); // FIXME gen a fn
+        if (span_size_) {  // only the last op of a span ends the chunk
+            span_term_ = term_;
+            term_ = REDUCED;
+        }
         return Status::OK;
     } else if (cs>=RON_first_final) {
         cs = RON_error;
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index ad375ae..1901053 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -29,6 +29,7 @@ Status TextFrame::Cursor::Next() {
         if (atoms.back().type() == STRING && atoms.back().value.cp) {
             NextCodepoint(atoms.back());
         }
+        term_ = span_size_ ? REDUCED : span_term_;
         return Status::OK;
     }
 
@@ -5337,6 +5338,10 @@ Status TextFrame::Cursor::Next() {
 
     if (term && cs != RON_error) {
         term_ = chr2term(term);  // FIXME gen a fn
+        if (span_size_) {  // only the last op of a span ends the chunk
+            span_term_ = term_;
+            term_ = REDUCED;
+        }
         return Status::OK;
     } else if (cs >= RON_first_final) {
         cs = RON_error;
diff --git a/ron/text.hpp b/ron/text.hpp
index 329212d..8023291 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -35,10 +35,11 @@ class TextFrame {
         Slice data_;           // 16 remaining data, base for ranges
         Atoms op_;             // 24
         TERM term_;            // 1
+        TERM span_term_;       // 1, the term of the last op in the span
         uint8_t ragel_state_;  // 1
         fsize_t line_;         // 4
         fsize_t span_size_;    // 4
-                               // 50 bytes total
+                               // 51 bytes total
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
@@ -69,6 +70,8 @@ class TextFrame {
         explicit Cursor(const Slice data)
             : data_{data},
               op_{TERM::RAW},
+              term_{TERM::RAW},
+              span_term_{TERM::RAW},
               ragel_state_{0},
               line_{1},
               span_size_{0} {}
-- 
2.43.0


From 2fd20b4435b7e861f6197bebfbda2aa032d5ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 14/29] fix: hash a char of a spread like any other string

The op hash must not depend on the text layout.
---
 ron/hash.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index 183e52a..0d81b06 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -149,7 +149,9 @@ void WriteOpHashable(const Cursor& cursor, SomeStream& stream,
                 stream.WriteAtomRangeless(atom);
                 break;
             case STRING:
-                stream.WriteAtomRangeless(atom);
+                // same for a char of a spread
+                stream.WriteAtomRangeless(
+                    Atom::String(0, Range{}, StringSize(atom)));
                 // TODO: slice_t, no alloc
                 String str;
                 ReadString(str, cursor, atom);
-- 
2.43.0


From 80112224ccd14c814c8031367ef8006c8afe7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 15/29] fix: Op::Amend keeps strings and numbers

Strings lost the last character and numbers became zeros; ReadString()
returned the first character only for Op strings.
---
 ron/op.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ron/op.hpp b/ron/op.hpp
index 101fc7e..df49d39 100644
--- a/ron/op.hpp
+++ b/ron/op.hpp
@@ -22,7 +22,7 @@ struct Op {
     Result NextCodepoint(Atom& a) const {
         if (!a.value.cp_size) {
             a.value.cp = 0;
-            return OUTOFRANGE;
+            return ENDOFINPUT;
         }
         a.value.cp = strings_[a.origin.as_range.begin()];
         --a.value.cp_size;
@@ -55,6 +55,12 @@ struct Op {
     void WriteAtoms(const String& value, Ts... args) {
         fsize_t b = strings_.size();
         Result re = ParseUtf8(strings_, value);
+        WriteString(b);
+        WriteAtoms(args...);
+    }
+
+    /** Appends a string value, its codepoints are in strings_, [b..) */
+    void WriteString(fsize_t b) {
         fsize_t cp_size = strings_.size() - b;
         if (cp_size) {
             Range range{b + 1, FSIZE(strings_.size())};
@@ -62,7 +68,6 @@ struct Op {
         } else {
             atoms_.push_back(Atom::String(0, Range{b, b}, cp_size));
         }
-        WriteAtoms(args...);
     }
 
     /** A convenience API method to add an op with any number of atoms. */
@@ -82,20 +87,20 @@ struct Op {
     Result WriteValues(const Cursor& cur) {
         const Atoms& op = cur.op();
         for (fsize_t i = 2; i < op.size(); ++i) {
-            Atom a = op[i];
+            Atom a = cur.atom(i);  // parsed
             if (a.type() != STRING) {
                 atoms_.push_back(a);
                 continue;
             }
             fsize_t b = strings_.size();
-            fsize_t cp_size{0};
-            while (a.value.cp_size) {  // Oopsie!!! FIXME
+            if (!a.value.cp) {
+                cur.NextCodepoint(a);
+            }
+            while (a.value.cp) {
                 strings_.push_back(a.value.cp);
                 cur.NextCodepoint(a);
-                ++cp_size;
             }
-            Range range{b, FSIZE(strings_.size())};
-            atoms_.push_back(Atom::String(strings_[b], range, cp_size));
+            WriteString(b);
         }
         return OK;
     }
-- 
2.43.0


From f4e42350177e3630af6ce9a405c75f225b3f7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 16/29] fix: comments do not make frames different

A frame of comments only equals an empty frame.
---
 ron/frames.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ron/frames.hpp b/ron/frames.hpp
index e8d941a..bb69819 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -78,9 +78,8 @@ Status CompareFrames(const Frame& frame_a, const Frame& frame_b) {
     using Cursor = typename Frame::Cursor;
     Cursor a = frame_a.cursor();
     Cursor b = frame_b.cursor();
-    if (a.Next() != b.Next()) {
-        return Status::BADVALUE;
-    }
+    a.Next();
+    b.Next();
     return CompareWithCursors(a, b);
 }
 
-- 
2.43.0


From 4bc7b99e8d68886a7365703969297de916c18cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 17/29] fix: read char values as strings

ReadString16() lost a char of a spread.
---
 ron/frames.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/frames.hpp b/ron/frames.hpp
index bb69819..2fcf6c8 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -119,14 +119,13 @@ Status Reserialize(std::vector<Frame>& into,
 }
 
 /** Reads a String from an op using the Atom as a cursor.
- * By a convention, the atom cursor for a String must be in the BTB state.
- * For a char (a single codepoint), the atom cursor must point at the char. */
+ * The atom cursor is either in the BTB state or at the first codepoint
+ * (a char of a spread, any string in an Op). */
 template <class Cursor>
 Result ReadString(String& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
     if (a.value.cp != 0) {
         utf8append(to, a.value.cp);
-        return OK;
     }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
@@ -138,6 +137,9 @@ Result ReadString(String& to, const Cursor& c, Atom a) {
 template <class Cursor>
 Result ReadString16(String16& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
+    if (a.value.cp != 0) {
+        utf16append(to, a.value.cp);
+    }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
         utf16append(to, a.value.cp);
-- 
2.43.0


From 46dd97c3bff413ee6f7f9831811c7cf4b8bb0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 18/29] fix: merge any number of array inputs

---
 rdt/rga.hpp | 50 +++++++++++++++-----------------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 5fc9140..c4390af 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -32,37 +32,16 @@ class RGArrayRDT {
     } id_cmp;
 
    public:
-    Status MergeBig(Builder &output, Cursors &inputs) const {
-        /*
-        typedef unordered_multimap<Uuid, Cursor *> insmap_t;
-        insmap_t inserts;
-        using insmap_t::value_type insmapval_t;
-        insmapval_t least{FATAL, nullptr};
-        for (int i = 0; i < inputs.size(); i++) {
-            const Cursor &c = inputs[i];
-            insmapval_t entry{c.id(), &c};
-            if (c.id() < least.first) least = entry;
-            inserts.insert(entry);
-        }
-
-        MCursor m{};
-        m.Add(*least.second);
-        inserts.erase(least);  //?
-        */
-        return Status::NOT_IMPLEMENTED;
-    }
-
     Status Merge(Builder &output, Cursors &inputs) const {
-        if (inputs.size() > 3) return MergeBig(output, inputs);
-
         MCursor m{};
         auto max = std::min_element(inputs.begin(), inputs.end(), id_cmp);
-        uint64_t added{0}, b{1};  // TODO refs[MAX_INPUTS]
-        PCursor i;
-        for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U) {
-            if (i->id() == max->id()) {
-                m.Add(i);
-                added |= b;
+        std::vector<bool> added(inputs.size(), false);
+        size_t pending{inputs.size()};
+        for (size_t i = 0; i < inputs.size(); ++i) {
+            if (inputs[i].id() == max->id()) {
+                m.Add(inputs.begin() + i);
+                added[i] = true;
+                --pending;
             }
         }
 
@@ -71,17 +50,18 @@ class RGArrayRDT {
             output.AppendOp(cur);
             const Uuid id = cur.id();
             m.Next();
-            for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U)
-                if ((b & added) == 0 && i->ref() == id) {
-                    m.Add(i);
-                    added |= b;
+            for (size_t i = 0; pending && i < inputs.size(); ++i) {
+                if (!added[i] && inputs[i].ref() == id) {
+                    m.Add(inputs.begin() + i);
+                    added[i] = true;
+                    --pending;
                 }
+            }
         }
         output.EndChunk(RAW);
 
-        return ++added == 1 << inputs.size()
-                   ? Status::OK
-                   : Status::CAUSEBREAK.comment("unattacheable pieces");
+        return pending ? Status::CAUSEBREAK.comment("unattacheable pieces")
+                       : Status::OK;
     }
 
     Status GC(Builder &output, const Frame &input) const {
-- 
2.43.0


From a5174639e45e49978860899c21646ea874fe09b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 19/29] fix: MaxRDT compares values, not raw atom bits

The result must not depend on the input order.
---
 rdt/max.hpp | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..cb729ee 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -3,6 +3,7 @@
 
 #include <unordered_map>
 #include "../ron/form.hpp"
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -19,28 +20,49 @@ class MaxRDT {
             return b.id() > a.id();
         }
         if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+        const Atom av = a.atom(2), bv = b.atom(2);
+        if (av.type() != bv.type()) return av.type() < bv.type();
+        switch (av.type()) {
+            case INT:
+                if (av.value.as_integer != bv.value.as_integer)
+                    return av.value.as_integer < bv.value.as_integer;
+                break;
+            case FLOAT:
+                if (av.value.as_float != bv.value.as_float)
+                    return av.value.as_float < bv.value.as_float;
+                break;
+            case UUID:
+                if (av != bv) return Uuid{av} < Uuid{bv};
+                break;
+            case STRING:
+                const String as = GetString(a), bs = GetString(b);
+                if (as != bs) return as < bs;
+                break;
+        }
+        return a.id() < b.id();
     }
 
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
         if (inputs.empty()) return Status::OK;
-        if (inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID) {
-            output.AppendOp(inputs[0]);
-            inputs[0].Next();
-        }
+        bool header{false}, found{false};
         // TODO  sanity: all ops ref the root
         Cursor max = inputs.back();
-        inputs.back().Next();
-        for (int i = inputs.size() - 1; i >= 0; --i) {
+        for (int i = 0; i < inputs.size(); ++i) {
+            if (inputs[i].valid() && inputs[i].ref() == MAX_FORM_UUID) {
+                if (!header) output.AppendOp(inputs[i]);
+                header = true;
+                inputs[i].Next();
+            }
             while (inputs[i].valid()) {
-                if (Less(max, inputs[i])) {
+                if (!found || Less(max, inputs[i])) {
                     max = inputs[i];
+                    found = true;
                 }
                 inputs[i].Next();
             }
         }
-        output.AppendOp(max);
+        if (found) output.AppendOp(max);
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From a4a66d24dba18fe0c3691908c66c80de2c57c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 20/29] fix: LWWObject floats, absent strings and write
 references

---
 rdt/lww_obj.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 5d07b31..f4f8854 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -40,8 +40,9 @@ class LWWObject {
 
     template <typename... Ts>
     inline Frame Write(Uuid id, Uuid key, Ts... args) {
+        Uuid ref = last_;
         last_ = id;
-        return OneOp<Frame>(id, last_, key, args...);
+        return OneOp<Frame>(id, ref, key, args...);
     }
 
     Atom atom(Uuid key, ATOM type) {
@@ -61,12 +62,13 @@ class LWWObject {
 
     inline double number(Uuid key) {
         Atom a = atom(key, FLOAT);
-        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_integer;
+        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_float;
     }
 
     inline String string(Uuid key) {
         Atom a = atom(key, STRING);
         String ret;
+        if (a.type() != STRING) return ret;
         ReadString(ret, cur_, a);  // TODO error checking, tests :)
         return ret;
     }
-- 
2.43.0


From 7153e564d9443142860311daf6d4968a1c723dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:54 +0000
Subject: [PATCH 21/29] fix: cut a log inside a span

SplitLogIntoChains() returned ops past the cutoff when the cutoff was inside
a span.
---
 ragel/text-parser.rl |  1 +
 rdt/rdt.hpp          |  5 +++--
 ron/text-parser.cc   |  1 +
 ron/text.hpp         | 16 ++++++++++++++--
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 32b9a98..f5c5098 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -84,6 +84,7 @@ Status TextFrame::Cursor::Next () {
 
     if (term && cs!=RON_error) {
         term_ = chr2term(term); // FIXME gen a fn
+        if (span_cut_ && data().empty()) span_size_ -= span_cut_;
         if (span_size_) {  // only the last op of a span ends the chunk
             span_term_ = term_;
             term_ = REDUCED;
diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index 3d22447..e5c0a19 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -177,14 +177,15 @@ Status SplitLogIntoChains(typename Frame::Cursors &chains, const Frame &input,
     Status ok;
     Uuid prev{};
     while (cur.valid() && prev != cutoff) {
-        fsize_t at{0};
+        fsize_t at{0}, rest{0};
         do {
             prev = cur.id();
             at = cur.data().range().begin();
+            rest = cur.span_rest();
             ok = cur.Next();
         } while (ok && cur.ref() == prev && prev != cutoff);
         if (ok) {
-            nxt.data().EndAt(at);
+            nxt.Trim(at, rest);  // the cutoff may be inside a span
             chains.push_back(nxt);
             nxt = cur;
         } else {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 1901053..ba4db7c 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -5338,6 +5338,7 @@ Status TextFrame::Cursor::Next() {
 
     if (term && cs != RON_error) {
         term_ = chr2term(term);  // FIXME gen a fn
+        if (span_cut_ && data().empty()) span_size_ -= span_cut_;
         if (span_size_) {  // only the last op of a span ends the chunk
             span_term_ = term_;
             term_ = REDUCED;
diff --git a/ron/text.hpp b/ron/text.hpp
index 8023291..f85aae7 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -39,7 +39,8 @@ class TextFrame {
         uint8_t ragel_state_;  // 1
         fsize_t line_;         // 4
         fsize_t span_size_;    // 4
-                               // 51 bytes total
+        fsize_t span_cut_;     // 4, ops cut off the last span, see Trim()
+                               // 55 bytes total
 
         static constexpr int RON_FULL_STOP = 255;
         static constexpr int SPEC_SIZE = 2;  // open RON
@@ -74,7 +75,8 @@ class TextFrame {
               span_term_{TERM::RAW},
               ragel_state_{0},
               line_{1},
-              span_size_{0} {}
+              span_size_{0},
+              span_cut_{0} {}
 
         explicit Cursor(const String& str) : Cursor{Slice{str}} {}
         explicit Cursor(const TextFrame& host) : Cursor{host.data_} {}
@@ -128,6 +130,16 @@ class TextFrame {
             return ret;
         }
 
+        /** How many ops of the current span are yet to come. */
+        inline fsize_t span_rest() const { return span_size_; }
+
+        /** Ends the data at the offset; drops the last ops of the last span. */
+        inline void Trim(fsize_t offset, fsize_t cut = 0) {
+            data_.EndAt(offset);
+            span_cut_ = cut;
+            if (data_.empty()) span_size_ -= cut;  // already in the last span
+        }
+
         using Comparator = bool (*)(const Cursor& a, const Cursor& b);
     };
 
-- 
2.43.0


From 958f4614c7a61a1574658adb296011c075f2e575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 22/29] fix: RocksDBStore::Open() selects the default branch

---
 db/rocks_store.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 3533ece..fa8a3fa 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -166,6 +166,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
     rocksdb::DB* db;
     IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
     db_.reset(db);
+    cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
 
     if (!id.zero()) {
         return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
-- 
2.43.0


From f43f4c55ec14f30061013a7d90e9fbc9bb7f9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 23/29] fix: RocksDBStore refuses use when closed and batches
 at Key::END

---
 db/rocks_store.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index fa8a3fa..f29a31b 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -177,6 +177,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Drop() {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     auto db = static_pointer_cast<rocksdb::DB>(db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     IFROK(db->DropColumnFamily(cf.get()));
@@ -234,9 +235,13 @@ Status RocksDBStore<Frame>::Read(Key key, Frame& result) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(const Records& batch) {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
+        if (i->first == Key::END && !i->second.empty()) {
+            return Status::BADARGS.comment("can't write to Key::END");
+        }
         uint64pair k = i->first.be();
         const String& data = i->second.data();
         rocksdb::Slice slice{data};
@@ -252,6 +257,7 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
 
 template <typename Frame>
 RocksDBStore<Frame>::Iterator::Iterator(RocksDBStore& host) {
+    if (!host.db_) return;  // closed
     auto db = static_pointer_cast<rocksdb::DB>(host.db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(host.cf_);
     auto i = db->NewIterator(ro(), cf.get());
-- 
2.43.0


From c1fa5f48bdb41af72663185974e04db17df7dc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 24/29] fix: loading op metadata restores the hash

---
 ron/opmeta.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ron/opmeta.hpp b/ron/opmeta.hpp
index 14e8159..8585078 100644
--- a/ron/opmeta.hpp
+++ b/ron/opmeta.hpp
@@ -126,7 +126,14 @@ struct OpMeta {
             return Status::BADSYNTAX.comment("no rdt id");
         }
         rdt = Uuid{load.atom(3)};
-        // hash;
+        if (!HasValue(load, STRING, 4)) {
+            return Status::BADSYNTAX.comment("no hash");
+        }
+        String base64 = GetString(load, 4);
+        if (!SHA2::valid(base64)) {
+            return Status::BADVALUE.comment("not a hash");
+        }
+        hash = SHA2::ParseBase64(base64);
         return Status::OK;
     }
 
-- 
2.43.0


From 1b9dc271d372f2239f8bceda7f334fbeed96c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 25/29] fix: JoinedStore batch target, key-driven merges and
 iteration over uneven members

---
 db/joined_store.hpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a991470..50bba04 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -36,13 +36,22 @@ class JoinedStore {
         } else if (b.empty()) {
             std::swap(a, into);
         } else {
-            IFOK(MergeFrames(into, Frames{a, b}));
+            Cursors inputs;
+            inputs.emplace_back(a);
+            if (!inputs.back().Next()) {
+                inputs.pop_back();
+            }
+            inputs.emplace_back(b);
+            if (!inputs.back().Next()) {
+                inputs.pop_back();
+            }
+            IFOK(MergeCursors(into, key.form(), inputs));
         }
         LOG('R', key, into.data());
         return Status::OK;
     }
 
-    Status Write(const Records& batch) { return a_.Write(batch); }
+    Status Write(const Records& batch) { return b_.Write(batch); }
 
     class Iterator {
         typename StoreA::Iterator ai_;
@@ -60,14 +69,14 @@ class JoinedStore {
             : ai_{host.a_}, bi_{host.b_}, at_{Key::END}, merged_{} {}
 
         Status Next() {
-            if (ai_.key() == at_) {
-                IFOK(ai_.Next());
-            }
-            if (bi_.key() == at_) {
-                IFOK(bi_.Next());
-            }
+            Status a, b;
+            bool ina = ai_.key() == at_, inb = bi_.key() == at_;
+            // one member may run out of records before the other
+            if (ina && !(a = ai_.Next()) && a != Status::ENDOFINPUT) return a;
+            if (inb && !(b = bi_.Next()) && b != Status::ENDOFINPUT) return b;
             pick();
-            return Status::OK;
+            if (at_ != Key::END) return Status::OK;
+            return a ? b : a;
         }
 
         Status SeekTo(Key key, bool prev = false) {
@@ -84,6 +93,13 @@ class JoinedStore {
                 } else {
                     at_ = std::max(ai_.key(), bi_.key());
                 }
+                // the other member goes on from its next key
+                if (ai_.key() != at_) {
+                    IFOK(ai_.SeekTo(at_));
+                }
+                if (bi_.key() != at_) {
+                    IFOK(bi_.SeekTo(at_));
+                }
             } else {
                 at_ = std::min(ai_.key(), bi_.key());
             }
@@ -109,7 +125,7 @@ class JoinedStore {
             if (!inputs.back().Next()) {
                 inputs.pop_back();
             }
-            Status ok = MergeCursors<Frame>(merged_, inputs);
+            Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
             LOG('_', at_, merged_.data());
             return ok ? Cursor{merged_}
                       : OneOp<Frame>(ok.code(), Uuid::FATAL).cursor();
-- 
2.43.0


From a76b06d734acce6e54d481dcdee114916247edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 26/29] fix: merge arrays that share ops without repeating them

---
 rdt/merge.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rdt/merge.hpp b/rdt/merge.hpp
index 9935218..11d9c6d 100644
--- a/rdt/merge.hpp
+++ b/rdt/merge.hpp
@@ -14,6 +14,7 @@ class MergeCursor {
     using PCursor = typename Cursors::iterator;
 
     std::vector<PCursor> cursors_;
+    std::vector<PCursor> at_op_;
 
    public:
     MergeCursor() = default;
@@ -91,22 +92,21 @@ class MergeCursor {
         push(0);
     }
 
-    bool step() {
-        if (cursors_[0]->Next()) {
-            push(0);
-        } else {
-            eject();
-        }
-        return size() > 0;
-    }
-
    public:
     // advances to the next op
     // @return non-empty
     bool Next() {
         Uuid id{op()[OP_ID_IDX]};
-        while (step() && Uuid{op()[OP_ID_IDX]} == id)
-            ;  // idempotency
+        do {  // idempotency: advance every cursor that is at this op
+            at_op_.push_back(cursors_.front());
+            eject();
+        } while (!empty() && Uuid{op()[OP_ID_IDX]} == id);
+        for (auto& cursor : at_op_) {
+            while (cursor->Next() && cursor->id() == id)
+                ;
+            Add(cursor);
+        }
+        at_op_.clear();
         return size() > 0;
     }
     // returns the data buffer for the current cursor/op
-- 
2.43.0


From 64ffed32978ad01ef27b4886dfa4d5118416cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 27/29] fix: undo of a single removal, removals beyond the root
 in ScanRGA

---
 rdt/rga.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index c4390af..b0795d9 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -165,15 +165,15 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case REMOVE:
                     if (kills.back()) break;
-                    at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
-                    if (at > 0) {  // aka ceiling[META_ENTRY]
-                        kills[at] = true;
+                    at = depth - ceiling[REMOVE];  // steps up
+                    if (at < ceiling[REMOVE]) {    // not the root or above
+                        kills[ceiling[REMOVE] - at] = true;
                     }
                     break;
                 case UNDO:
-                    at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at > ceiling[REMOVE]) {
-                        kills[at] = true;
+                    at = depth - ceiling[UNDO];
+                    if (at <= ceiling[UNDO] - ceiling[REMOVE]) {
+                        kills[ceiling[UNDO] - at] = true;
                     }
                     break;
                 case TRASH:
-- 
2.43.0


From 9500dc87b7d761ddae504f280d2e9b912cb4adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 28/29] fix: in-memory store keeps what does not merge and its
 iterator can be moved

A read that could not merge a key's changes dropped them. SeekTo() kept the
length and the merged value of the record it left, so that the end was
dereferenced and Next() stored that value under another key; seeking backwards
stopped at the last change of a key instead of its first one. A batch with a
write to Key::END was applied up to that write.
---
 db/mem_store.hpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 9311c69..ac04839 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -72,6 +72,13 @@ class InMemoryStore {
             }
         }
 
+        /** Goes to the first record of the previous key. */
+        void to_prev() {
+            --b_;
+            b_ = store_.lower_bound(b_->first);
+            e_ = b_;
+        }
+
        public:
         /** Creates a new iterator positioned at 0 */
         explicit Iterator(InMemoryStore& host)
@@ -91,7 +98,11 @@ class InMemoryStore {
                     ins.pop_back();
                 }
             }
-            Status ok = MergeCursors(merged_, key().form(), ins);
+            merged_.Clear();
+            if (!MergeCursors(merged_, key().form(), ins)) {
+                merged_.Clear();  // Next() must not store it
+                return Cursor{""};
+            }
             return Cursor{merged_};
         }
 
@@ -126,19 +137,19 @@ class InMemoryStore {
          * @return OK or error if something really bad happened
          */
         Status SeekTo(ron::Key key, bool prev = false) {
+            merged_.Clear();
+            len_ = 0;
             b_ = store_.lower_bound(key);
             e_ = b_;
             if (b_ == store_.end()) {
                 if (prev && !store_.empty()) {
-                    --b_;
-                    e_ = b_;
+                    to_prev();
                 } else {
                     return Status::OK;
                 }
             } else if (prev && b_->first != key) {
                 if (b_ != store_.begin()) {
-                    --b_;
-                    e_ = b_;
+                    to_prev();
                 } else {
                     b_ = e_ = store_.end();
                     return Status::OK;
@@ -176,6 +187,10 @@ class InMemoryStore {
             return Status::OK;
         }
         Status ok = Merge(result, range.first, range.second);
+        if (!ok) {
+            result = Frame{};
+            return ok;
+        }
         state_.erase(range.first, range.second);
         state_.insert(Record{key, result});
         LOG('e', key, result.data());
@@ -183,6 +198,10 @@ class InMemoryStore {
     }
 
     Status Write(const Records& batch) {
+        for (auto i = batch.begin(); i != batch.end(); ++i) {
+            if (i->first == Key::END)
+                return Status::BADARGS.comment("can't write at Key::END");
+        }
         Status ok = Status::OK;
         for (auto i = batch.begin(); ok && i != batch.end(); ++i) {
             ok = Write(i->first, i->second);
-- 
2.43.0


From 83c46f7f2ec3ed5331abbe2ca9aef78aa366d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 29/29] fix: joined store's iterator keeps the frame that
 reports a failed merge

---
 db/joined_store.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index 50bba04..bd1b4ab 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -126,9 +126,9 @@ class JoinedStore {
                 inputs.pop_back();
             }
             Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
+            if (!ok) merged_ = OneOp<Frame>(ok.code(), Uuid::FATAL);
             LOG('_', at_, merged_.data());
-            return ok ? Cursor{merged_}
-                      : OneOp<Frame>(ok.code(), Uuid::FATAL).cursor();
+            return Cursor{merged_};
         }
 
         inline Key key() const { return at_; }
-- 
2.43.0

