From 933abbac6252a4c4ee9ac8bf0b2962d3b9c38b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 001/110] fix: matches() returns the documented group capture
 index instead of 1

---
 include/reflex/absmatcher.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff9cce7..fdc868b 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -385,7 +385,7 @@ class AbstractMatcher {
     num_ = 0;
     own_ = true;
     eof_ = false;
-    mat_ = false;
+    mat_ = 0;
   }
   /// Set buffer block size for reading: use 0 (or omit argument) to buffer all input in which case returns true if all the data could be read and false if a read error occurred.
   bool buffer(size_t blk = 0) ///< new block size between 1 and Const::BLOCK, or 0 to buffer all input (default)
@@ -518,7 +518,7 @@ class AbstractMatcher {
       num_ = 0;
       own_ = false;
       eof_ = true;
-      mat_ = false;
+      mat_ = 0;
     }
     return *this;
   }
@@ -527,8 +527,12 @@ class AbstractMatcher {
   inline size_t matches()
     /// @returns nonzero capture index (i.e. true) if the entire input matched this matcher's pattern, zero (i.e. false) otherwise
   {
-    if (!mat_ && at_bob())
-      mat_ = match(Const::MATCH) && at_end();
+    if (mat_ == 0 && at_bob())
+    {
+      mat_ = match(Const::MATCH);
+      if (mat_ != 0 && !at_end())
+        mat_ = 0;
+    }
     return mat_;
   }
   /// Returns a positive integer (true) indicating the capture index of the matched text in the pattern or zero (false) for a mismatch.
@@ -1613,7 +1617,7 @@ class AbstractMatcher {
   size_t    num_; ///< character count of the input till bol_
   bool      own_; ///< true if AbstractMatcher::buf_ was allocated and should be deleted
   bool      eof_; ///< input has reached EOF
-  bool      mat_; ///< true if AbstractMatcher::matches() was successful
+  size_t    mat_; ///< nonzero capture index if AbstractMatcher::matches() was successful
 };
 
 /// The pattern matcher class template extends abstract matcher base class.
-- 
2.43.0


From 2fb11db8337dce64b70424e310b8be389a0fd8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 002/110] fix: do not leak the DFA hash table when a regex
 error is thrown

---
 lib/pattern.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d59bc3..5b83905 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1300,9 +1300,7 @@ void Pattern::compile(
   acc_.resize(end_.size(), false);
   trim_lazy(start);
   // hash table with 64K entries (uint16_t indexed)
-  DFA::State **table = new DFA::State*[65536];
-  for (int i = 0; i < 65536; ++i)
-    table[i] = NULL;
+  std::vector<DFA::State*> table(65536, static_cast<DFA::State*>(NULL));
   // start state should only be discoverable (to possibly cycle back to) if no tree DFA was constructed
   if (start->tnode == NULL)
     table[hash_pos(start)] = start;
@@ -1493,7 +1491,6 @@ void Pattern::compile(
       acc_[state->accept - 1] = true;
     ++vno_;
   }
-  delete[] table;
   tfa_.clear();
   vms_ = timer_elapsed(vt) - ems_;
   DBGLOG("END compile()");
-- 
2.43.0


From 14f33fffee692bba257a4cc9d43e4146882ccec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 003/110] fix: Pattern size(), operator[] and reachable() count
 literal string alternatives

---
 lib/pattern.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 5b83905..4905bd3 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -433,6 +433,7 @@ void Pattern::parse(
       }
       if (t->accept == 0)
         t->accept = choice;
+      end_.push_back(loc);
     }
     else
     {
-- 
2.43.0


From c0c743b59bbf6578f664544c8c338f99e4dfd863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 004/110] fix: find() keeps searching after a partial match
 that hit the end of input

---
 include/reflex/matcher.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0e65be7..ff2ce1b 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -835,13 +835,14 @@ unrolled:
     {
       if (method == Const::FIND)
       {
-        if (!at_end())
+        bool end = at_end();
+        if (anc_)
+        {
+          cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
+          anc_ = false;
+        }
+        if (!end)
         {
-          if (anc_)
-          {
-            cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
-            anc_ = false;
-          }
           if (pos_ > cur_) // if we didn't fail on META alone
           {
             if (advance())
@@ -854,8 +855,8 @@ unrolled:
               return cap_ = 1;
             }
           }
-          txt_ = buf_ + cur_;
         }
+        txt_ = buf_ + cur_; // also when a partial match hit the end, to keep searching from cur_ + 1
       }
       else
       {
-- 
2.43.0


From 319518d9e49046d4ed1314a295811d5cd621f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 005/110] fix: split() no longer drops the text behind a
 partial match that hit the end of input

---
 include/reflex/matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index ff2ce1b..2a7d172 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -801,7 +801,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
-- 
2.43.0


From 72d744d385e05b1ea54feca50e3dce6f7c5300ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 006/110] fix: split() of an input that a nullable pattern does
 not match keeps the remaining text

---
 include/reflex/matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 2a7d172..bd98ea4 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -818,7 +818,7 @@ unrolled:
         DBGLOG("END Matcher::match()");
         return cap_;
       }
-      if (cur_ == 0 && at_bob() && at_end())
+      if (cur_ == 0 && at_bob() && at_end() && end_ == 0)
       {
         cap_ = Const::EMPTY;
         got_ = Const::EOB;
-- 
2.43.0


From 75feacb3b3fc28f13afd365ba79b4c638e2a2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 007/110] fix: input() after text() returns bytes 0x80 to 0xFF
 as unsigned values

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index fdc868b..4f24149 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -559,7 +559,7 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = txt_[len_];
+      chr_ = static_cast<unsigned char>(txt_[len_]);
       txt_[len_] = '\0';
     }
     return txt_;
-- 
2.43.0


From 76d3e43d7634561a47277c91018756488d146930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 008/110] fix: peek() after text() returns the next character
 instead of the text terminator

---
 include/reflex/absmatcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 4f24149..02c4fa7 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1050,6 +1050,8 @@ class AbstractMatcher {
     /// @returns the character (unsigned char 0..255) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::peek()");
+    if (chr_ != '\0' && pos_ < end_ && buf_ + pos_ == txt_ + len_)
+      return chr_;
 #if defined(WITH_FAST_GET)
     return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_]) : peek_more();
 #else
-- 
2.43.0


From 4581f376a2cd09f32f1ea43d470f86629c99c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 009/110] fix: winput() decodes multibyte UTF-8 characters and
 stops at the end of input

---
 include/reflex/absmatcher.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 02c4fa7..26d65a7 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -990,16 +990,15 @@ class AbstractMatcher {
     /// @returns the next wide character (unsigned 0..U+10FFFF) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::winput()");
-    char tmp[8] = { 0 }, *s = tmp;
-    int c;
-    if ((c = input()) == EOF)
+    char tmp[8] = { 0 };
+    int c = input();
+    if (c == EOF)
       return EOF;
-    if (static_cast<unsigned char>(*s++ = c) >= 0x80)
-    {
-      while (((++*s = get()) & 0xC0) == 0x80)
-        continue;
-      got_ = static_cast<unsigned char>(buf_[cur_ = --pos_]);
-    }
+    tmp[0] = static_cast<char>(c);
+    // get the UTF-8 continuation bytes that belong to this character
+    size_t n = c < 0xC0 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
+    for (size_t i = 1; i <= n && (peek() & 0xC0) == 0x80; ++i)
+      tmp[i] = static_cast<char>(input());
     return utf8(tmp);
   }
   /// Put back one character (8-bit) on the input character sequence for matching, DANGER: invalidates the previous text() pointer and match info, unput is not honored when matching in-place using buffer(base, size) and nothing has been read yet.
-- 
2.43.0


From 5a75c3996ce0003b7b9fc6e2dc3637e29c2a7c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 010/110] fix: wunput() restores the character replaced by
 text() like unput()

---
 include/reflex/absmatcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 26d65a7..d830698 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1026,6 +1026,7 @@ class AbstractMatcher {
   void wunput(int c) ///< character to put back
   {
     DBGLOG("AbstractMatcher::wunput()");
+    reset_text();
     char tmp[8];
     size_t n = utf8(c, tmp);
     if (pos_ >= n)
-- 
2.43.0


From c1935ff292dd511ac560cbfc9823f22468d4ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 011/110] fix: less() updates the character before the next
 match used by anchors and boundaries

---
 include/reflex/absmatcher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index d830698..bc0ba20 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1265,10 +1265,9 @@ class AbstractMatcher {
     {
       DBGCHK(pos_ < max_);
       reset_text();
-      pos_ = txt_ - buf_ + n;
-      DBGCHK(pos_ < max_);
+      DBGCHK(txt_ - buf_ + n < max_);
+      set_current(txt_ - buf_ + n);
       len_ = n;
-      cur_ = pos_;
     }
   }
   /// Cast this matcher to positive integer indicating the nonzero capture index of the matched text in the pattern, same as AbstractMatcher::accept.
-- 
2.43.0


From 86cf1a4a486324fb6c5e669085cf6431ab00c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 012/110] fix: buffer() in the middle of the input keeps the
 input that was buffered before

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index bc0ba20..530d0db 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -401,7 +401,7 @@ class AbstractMatcher {
     if (n > 0)
     {
       (void)grow(n + 1); // now attempt to fetch all (remaining) data to store in the buffer, +1 for a final \0
-      end_ += get(buf_, n);
+      end_ += get(buf_ + end_, n);
     }
     while (in.good()) // there is more to get while good(), e.g. via wrap()
     {
-- 
2.43.0


From c56a393f430100d72e012650bc7b57a62ccac9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 013/110] fix: wcs() does not read past the end of a string
 with an incomplete UTF-8 sequence

---
 include/reflex/utf8.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/reflex/utf8.h b/include/reflex/utf8.h
index b36896d..ab8c913 100644
--- a/include/reflex/utf8.h
+++ b/include/reflex/utf8.h
@@ -252,7 +252,21 @@ inline std::wstring wcs(
   else
   {
     while (s < e)
-      ws.push_back(utf8(s, &s));
+    {
+      if (e - s < 6)
+      {
+        // do not read past the end when the last UTF-8 sequence is incomplete
+        char tmp[12] = { 0 };
+        const char *t = tmp;
+        std::memcpy(tmp, s, e - s);
+        ws.push_back(utf8(t, &t));
+        s += t - tmp;
+      }
+      else
+      {
+        ws.push_back(utf8(s, &s));
+      }
+    }
   }
   return ws;
 }
-- 
2.43.0


From 03a0b5f4d3fec78efa2e9403db8ea43617d0f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 014/110] fix: text() at the end of the buffered input does not
 corrupt input read after it

---
 include/reflex/absmatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 530d0db..cfa0d5a 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -559,7 +559,8 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = static_cast<unsigned char>(txt_[len_]);
+      if (txt_ + len_ < buf_ + end_)
+        chr_ = static_cast<unsigned char>(txt_[len_]); // no character to save when not read yet
       txt_[len_] = '\0';
     }
     return txt_;
-- 
2.43.0


From 4362ebfd232f8ad0e4abd525155e4d43b057327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 015/110] fix: skip() to a character that is not found leaves
 an empty text at the end instead of a NULL text

---
 include/reflex/absmatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index cfa0d5a..a553555 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1180,10 +1180,10 @@ class AbstractMatcher {
         set_current(txt_ - buf_);
         return true;
       }
-      if (eof_)
-        break;
       pos_ = cur_ = end_;
       txt_ = buf_ + end_;
+      if (eof_)
+        break;
       (void)grow();
       end_ += get(buf_ + end_, blk_ > 0 ? blk_ : max_ - end_ - 1);
       if (pos_ >= end_ && !wrap())
-- 
2.43.0


From 6c2d2289c14031c8f8e9f14454bc5153a7b1e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 016/110] fix: skip() to a string that is not found consumes
 all input after a partial match at the end

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index a553555..b0b35ab 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1224,7 +1224,11 @@ class AbstractMatcher {
         }
         int c = get();
         if (c == EOF)
+        {
+          txt_ = buf_ + end_;
+          set_current(end_);
           return false;
+        }
         if (c != static_cast<unsigned char>(*t))
           break;
         ++t;
-- 
2.43.0


From c8ddad1aea770a48a2aab999e2565ac83ff93405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 017/110] fix: unput() and wunput() after input() returned EOF
 make the character available for matching

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b0b35ab..1b9d3e3 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1022,6 +1022,8 @@ class AbstractMatcher {
     }
     buf_[pos_] = c;
     cur_ = pos_;
+    if (got_ == EOF)
+      got_ = Const::UNK; // there is more to match
   }
   /// Put back one (wide) character on the input character sequence for matching, DANGER: invalidates the previous text() pointer and match info, unput is not honored when matching in-place using buffer(base, size) and nothing has been read yet.
   void wunput(int c) ///< character to put back
@@ -1045,6 +1047,8 @@ class AbstractMatcher {
     }
     std::memcpy(&buf_[pos_], tmp, n);
     cur_ = pos_;
+    if (got_ == EOF)
+      got_ = Const::UNK; // there is more to match
   }
   /// Peek at the next character available for reading from the current input source.
   inline int peek()
-- 
2.43.0


From a6ed545bdbfdecdca510212a2f73b1e0775c21c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 018/110] fix: case-insensitive literal alternatives combined
 with a (?-i:X) alternative match X with one case only

---
 lib/pattern.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 4905bd3..ab92d3f 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1374,12 +1374,17 @@ void Pattern::compile(
                 Positions pos(i->second);
                 if (opt_.i && std::isalpha(c))
                 {
-                  if (c >= 'a' && c <= 'z')
+                  // the regex DFA move may have one case only, e.g. with (?-i:a)
+                  if (c == lowercase(c) || !common.contains(lowercase(c)))
                   {
-                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c], pos);
+                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)], pos);
                     state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
-                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                    eno_ += 2;
+                    ++eno_;
+                    if (c != uppercase(c) && common.contains(uppercase(c)))
+                    {
+                      state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                      ++eno_;
+                    }
                   }
                 }
                 else
@@ -1401,12 +1406,6 @@ void Pattern::compile(
             ++i;
           }
         }
-        if (opt_.i)
-        {
-          // normalize by removing upper case if option i (case insensitivem matching) is enabled
-          static const uint64_t upper[5] = { 0x0000000000000000, 0x0000000007FFFFFE, 0, 0, 0 };
-          chars -= Chars(upper);
-        }
         if (chars.any())
         {
           Char lo = chars.lo();
@@ -1415,15 +1414,23 @@ void Pattern::compile(
           {
             if (chars.contains(c))
             {
-              DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
               if (opt_.i && std::isalpha(c))
               {
-                state->edges[lowercase(c)] = std::pair<Char,DFA::State*>(lowercase(c), target_state);
-                state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                eno_ += 2;
+                if (c == lowercase(c) || !chars.contains(lowercase(c)))
+                {
+                  DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)]);
+                  state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
+                  ++eno_;
+                  if (c != uppercase(c) && chars.contains(uppercase(c)))
+                  {
+                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                    ++eno_;
+                  }
+                }
               }
               else
               {
+                DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
                 state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
                 ++eno_;
               }
-- 
2.43.0


From 6737197a4a939bf9c4a73b9ce5ad0a7337f82822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 019/110] fix: non-word boundaries \B between an underscore and
 a letter or digit

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 1b9d3e3..8c4a65e 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -60,7 +60,7 @@ namespace reflex {
 inline int isword(int c) ///< Character to check
   /// @returns nonzero if argument c is in `[A-Za-z0-9_]`, zero otherwise
 {
-  return std::isalnum(static_cast<unsigned char>(c)) | (c == '_');
+  return std::isalnum(static_cast<unsigned char>(c)) != 0 || c == '_';
 }
 
 /// The abstract matcher base class template defines an interface for all pattern matcher engines.
-- 
2.43.0


From e6f9651a6c741776ac13071d08571f369b7c408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 020/110] fix: all matching anchors of a state are followed and
 the first of the equally long matches is taken

---
 include/reflex/matcher.h | 128 +++++++++++++++++++++++++++------------
 include/reflex/pattern.h |   3 +-
 lib/pattern.cpp          |  91 +++++++++++++++++-----------
 3 files changed, 146 insertions(+), 76 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index bd98ea4..1e35076 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -250,6 +250,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   {
     cap_ = cap;
     cur_ = pos_;
+    fsm_.take = cur_ - (txt_ - buf_);
   }
   /// FSM code TAKE.
   inline void FSM_TAKE(Pattern::Accept cap, int c1)
@@ -258,6 +259,19 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     cur_ = pos_;
     if (c1 != EOF)
       --cur_;
+    fsm_.take = cur_ - (txt_ - buf_);
+  }
+  /// FSM code TAKE after a META transition, returns true when taken, when no match of the same length with a lower index or negative match was taken before.
+  inline bool FSM_META_TAKE(Pattern::Accept cap, int c1)
+  {
+    size_t cur = c1 == EOF ? pos_ : pos_ - 1;
+    size_t len = cur - (txt_ - buf_);
+    if ((cur_ == cur || fsm_.take == len) && cap_ > 0 && (cap_ < cap || cap_ == Const::REDO))
+      return false;
+    cap_ = cap;
+    cur_ = cur;
+    fsm_.take = len;
+    return true;
   }
   /// FSM code REDO.
   inline void FSM_REDO()
@@ -388,10 +402,11 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
   /// FSM data for FSM code
   struct FSM {
-    FSM() : bol(), nul(), c1() { }
-    bool bol;
-    bool nul;
-    int  c1;
+    FSM() : bol(), nul(), c1(), take() { }
+    bool   bol;
+    bool   nul;
+    int    c1;
+    size_t take; ///< length of the last match taken
   };
   /// Returns true if input matched the pattern using method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH.
   virtual size_t match(Method method) ///< Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
@@ -424,6 +439,7 @@ redo:
       DBGLOG("FSM code %p", pat_->fsm_);
       fsm_.bol = bol;
       fsm_.nul = nul;
+      fsm_.take = Pattern::Const::IMAX;
       pat_->fsm_(*this);
       nul = fsm_.nul;
       c1 = fsm_.c1;
@@ -490,22 +506,34 @@ redo:
           c1 = get();
           DBGLOG("Get: c1 = %d", c1);
           Pattern::Index back = Pattern::Const::IMAX; // where to jump back to (backtrack on meta transitions)
-          Pattern::Index jump = Pattern::Const::IMAX; // to jump to longest sequence of matching metas
+          Pattern::Index jumps[64]; // where to jump to, to the states of all matching metas
+          size_t njumps = 0;
+          size_t jumpmax = sizeof(jumps) / sizeof(*jumps);
+          bool dent = false; // an indent, dedent or undent match takes precedence
+          size_t take = Pattern::Const::IMAX; // where a meta transition took a match
           while (true)
           {
-            if ((jump == Pattern::Const::IMAX || back == Pattern::Const::IMAX) && !Pattern::is_opcode_goto(opcode))
+            if (!Pattern::is_opcode_goto(opcode))
             {
-              // we no longer have to pass through all if jump and back are set
               switch (opcode >> 24)
               {
                 case 0xFE: // TAKE
-                  cap_ = Pattern::long_index_of(opcode);
-                  cur_ = pos_;
-                  if (c1 != EOF)
-                    --cur_; // must unget one char
+                {
+                  Pattern::Index cap = Pattern::long_index_of(opcode);
+                  size_t cur = c1 == EOF ? pos_ : pos_ - 1; // must unget one char
                   opcode = *++pc;
+                  if (!dent && (cur_ == cur || take == cur) && cap_ > 0 && (cap_ < cap || cap_ == Const::REDO))
+                  {
+                    // a match of the same length with a lower index takes precedence, so does a negative match
+                    while (opcode >> 24 == 0xFC)
+                      opcode = *++pc;
+                    continue;
+                  }
+                  cap_ = cap;
+                  cur_ = take = cur;
                   DBGLOG("Take: cap = %zu", cap_);
                   continue;
+                }
                 case 0xFD: // REDO
                   cap_ = Const::REDO;
                   DBGLOG("Redo");
@@ -529,21 +557,27 @@ redo:
 #if !defined(WITH_NO_INDENT)
                 case Pattern::META_DED - Pattern::META_MIN:
                   DBGLOG("DED? %d", c1);
-                  if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent())
+                  if (njumps == 0 && back == Pattern::Const::IMAX && bol && dedent())
                   {
-                    jump = Pattern::index_of(opcode);
+                    dent = true;
+                    jumpmax = 1;
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_IND - Pattern::META_MIN:
                   DBGLOG("IND? %d", c1);
-                  if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent())
+                  if (njumps == 0 && back == Pattern::Const::IMAX && bol && indent())
                   {
-                    jump = Pattern::index_of(opcode);
+                    dent = true;
+                    jumpmax = 1;
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
@@ -551,9 +585,13 @@ redo:
                   DBGLOG("UND");
                   if (mrk_)
                   {
-                    jump = Pattern::index_of(opcode);
+                    dent = true;
+                    jumpmax = 1;
+                    njumps = 0; // takes precedence over indent and dedent
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   mrk_ = false;
                   ded_ = 0;
@@ -562,112 +600,122 @@ redo:
 #endif
                 case Pattern::META_EOB - Pattern::META_MIN:
                   DBGLOG("EOB? %d", c1);
-                  if (jump == Pattern::Const::IMAX && c1 == EOF)
+                  if (njumps < jumpmax && c1 == EOF)
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_BOB - Pattern::META_MIN:
                   DBGLOG("BOB? %d", at_bob());
-                  if (jump == Pattern::Const::IMAX && at_bob())
+                  if (njumps < jumpmax && at_bob())
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_EOL - Pattern::META_MIN:
                   DBGLOG("EOL? %d", c1);
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && (c1 == EOF || c1 == '\n' || (c1 == '\r' && peek() == '\n')))
+                  if (njumps < jumpmax && (c1 == EOF || c1 == '\n' || (c1 == '\r' && peek() == '\n')))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_BOL - Pattern::META_MIN:
                   DBGLOG("BOL? %d", bol);
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && bol)
+                  if (njumps < jumpmax && bol)
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_EWE - Pattern::META_MIN:
                   DBGLOG("EWE? %d %d %d", c0, c1, isword(c0) && !isword(c1));
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && (isword(c0) || opt_.W) && !isword(c1))
+                  if (njumps < jumpmax && (isword(c0) || opt_.W) && !isword(c1))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_BWE - Pattern::META_MIN:
                   DBGLOG("BWE? %d %d %d", c0, c1, !isword(c0) && isword(c1));
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && !isword(c0) && isword(c1))
+                  if (njumps < jumpmax && !isword(c0) && isword(c1))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_EWB - Pattern::META_MIN:
                   DBGLOG("EWB? %d", at_eow());
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && isword(got_) &&
+                  if (njumps < jumpmax && isword(got_) &&
                       !isword(static_cast<unsigned char>(txt_[len_])))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_BWB - Pattern::META_MIN:
                   DBGLOG("BWB? %d", at_bow());
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && !isword(got_) &&
+                  if (njumps < jumpmax && !isword(got_) &&
                       (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_NWE - Pattern::META_MIN:
                   DBGLOG("NWE? %d %d %d", c0, c1, isword(c0) == isword(c1));
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX && isword(c0) == isword(c1))
+                  if (njumps < jumpmax && isword(c0) == isword(c1))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
                 case Pattern::META_NWB - Pattern::META_MIN:
                   DBGLOG("NWB? %d %d", at_bow(), at_eow());
                   anc_ = true;
-                  if (jump == Pattern::Const::IMAX &&
+                  if (njumps < 64 &&
                       isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
                   {
-                    jump = Pattern::index_of(opcode);
+                    Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
+                    jumps[njumps++] = jump;
                   }
                   opcode = *++pc;
                   continue;
@@ -676,7 +724,7 @@ redo:
                   continue;
               }
             }
-            if (jump == Pattern::Const::IMAX)
+            if (njumps == 0)
             {
               if (back != Pattern::Const::IMAX)
               {
@@ -685,12 +733,12 @@ redo:
               }
               break;
             }
-            DBGLOG("Backtrack: pc = %u", jump);
             if (back == Pattern::Const::IMAX)
               back = static_cast<Pattern::Index>(pc - pat_->opc_);
-            pc = pat_->opc_ + jump;
+            pc = pat_->opc_ + jumps[--njumps];
+            jumpmax = sizeof(jumps) / sizeof(*jumps);
+            DBGLOG("Jump: pc = %zu", static_cast<size_t>(pc - pat_->opc_));
             opcode = *pc;
-            jump = Pattern::Const::IMAX;
           }
           if (c1 == EOF)
             break;
diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index d9e4597..7d3761a 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -753,7 +753,8 @@ class Pattern {
       FILE             *fd,
       const DFA::State *start,
       int               nest,
-      bool              peek) const;
+      bool              peek,
+      bool              dent = false) const;
   void export_dfa(const DFA::State *start) const;
   void export_code() const;
   void predict_match_dfa(DFA::State *start);
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index ab92d3f..4c0b821 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -2464,7 +2464,8 @@ void Pattern::gencode_dfa(const DFA::State *start) const
             }
           }
           bool read = peek;
-          bool elif = false;
+          bool elif = false; // after an indent, dedent, or undent meta
+          bool els = false; // in the else-branch of the indent metas
 #if WITH_COMPACT_DFA == -1
           for (DFA::State::Edges::const_reverse_iterator i = state->edges.rbegin(); i != state->edges.rend(); ++i)
           {
@@ -2481,6 +2482,8 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                 ::fprintf(file, "  c1 = m.FSM_CHAR();\n");
               read = false;
             }
+            if (!is_meta(lo) && els)
+              ::fprintf(file, "  }\n"), els = false;
             if (!is_meta(lo))
             {
               DFA::State::Edges::const_reverse_iterator j = i;
@@ -2527,36 +2530,39 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                   case META_EOB:
                   case META_EOL:
                     ::fprintf(file, "  ");
-                    if (elif)
-                      ::fprintf(file, "else ");
+                    if (elif && !els)
+                      ::fprintf(file, "else {\n  "), els = true;
                     ::fprintf(file, "if (m.FSM_META_%s(c1)) {\n", meta_label[lo - META_MIN]);
                     gencode_dfa_closure(file, i->second.second, 2, peek);
                     ::fprintf(file, "  }\n");
-                    elif = true;
                     break;
                   case META_EWE:
                   case META_BWE:
                   case META_NWE:
                     ::fprintf(file, "  ");
-                    if (elif)
-                      ::fprintf(file, "else ");
+                    if (elif && !els)
+                      ::fprintf(file, "else {\n  "), els = true;
                     ::fprintf(file, "if (m.FSM_META_%s(c0, c1)) {\n", meta_label[lo - META_MIN]);
                     gencode_dfa_closure(file, i->second.second, 2, peek);
                     ::fprintf(file, "  }\n");
-                    elif = true;
                     break;
                   default:
                     ::fprintf(file, "  ");
-                    if (elif)
+                    if (elif && lo >= META_UND)
                       ::fprintf(file, "else ");
+                    else if (elif && !els)
+                      ::fprintf(file, "else {\n  "), els = true;
                     ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, 2, peek, lo >= META_UND);
                     ::fprintf(file, "  }\n");
-                    elif = true;
+                    if (lo >= META_UND)
+                      elif = true;
                 }
               } while (++lo <= hi);
             }
           }
+          if (els)
+            ::fprintf(file, "  }\n");
 #else
           for (DFA::State::Edges::const_reverse_iterator i = state->edges.rbegin(); i != state->edges.rend(); ++i)
           {
@@ -2579,36 +2585,39 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                   case META_EOB:
                   case META_EOL:
                     ::fprintf(file, "  ");
-                    if (elif)
-                      ::fprintf(file, "else ");
+                    if (elif && !els)
+                      ::fprintf(file, "else {\n  "), els = true;
                     ::fprintf(file, "if (m.FSM_META_%s(c1)) {\n", meta_label[lo - META_MIN]);
                     gencode_dfa_closure(file, i->second.second, 2, peek);
                     ::fprintf(file, "  }\n");
-                    elif = true;
                     break;
                   case META_EWE:
                   case META_BWE:
                   case META_NWE:
                     ::fprintf(file, "  ");
-                    if (elif)
-                      ::fprintf(file, "else ");
+                    if (elif && !els)
+                      ::fprintf(file, "else {\n  "), els = true;
                     ::fprintf(file, "if (m.FSM_META_%s(c0, c1)) {\n", meta_label[lo - META_MIN]);
                     gencode_dfa_closure(file, i->second.second, 2, peek);
                     ::fprintf(file, "  }\n");
-                    elif = true;
                     break;
                   default:
                     ::fprintf(file, "  ");
-                    if (elif)
+                    if (elif && lo >= META_UND)
                       ::fprintf(file, "else ");
+                    else if (elif && !els)
+                      ::fprintf(file, "else {\n  "), els = true;
                     ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, 2, peek, lo >= META_UND);
                     ::fprintf(file, "  }\n");
-                    elif = true;
+                    if (lo >= META_UND)
+                      elif = true;
                 }
               } while (++lo <= hi);
             }
           }
+          if (els)
+            ::fprintf(file, "  }\n");
           for (DFA::State::Edges::const_iterator i = state->edges.begin(); i != state->edges.end(); ++i)
           {
             Char hi = i->first;
@@ -2708,9 +2717,11 @@ void Pattern::check_dfa_closure(const DFA::State *state, int nest, bool& peek, b
   }
 }
 
-void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest, bool peek) const
+void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest, bool peek, bool dent) const
 {
-  bool elif = false;
+  bool elif = false; // after an indent, dedent, or undent meta
+  bool els = false; // in the else-branch of the indent metas
+  bool cond = false; // take is conditional
   if (state->redo)
   {
     if (peek)
@@ -2720,13 +2731,20 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
   }
   else if (state->accept > 0)
   {
-    if (peek)
-      ::fprintf(file, "%*sm.FSM_TAKE(%u, c1);\n", 2*nest, "", state->accept);
+    // an indent match takes precedence, otherwise a match of the same length with a lower index does
+    const char *take = dent ? "TAKE" : "META_TAKE";
+    const char *c1 = peek ? ", c1" : dent ? "" : ", EOF";
+    if (dent || state->tails.empty())
+      ::fprintf(file, "%*sm.FSM_%s(%u%s);\n", 2*nest, "", take, state->accept, c1);
     else
-      ::fprintf(file, "%*sm.FSM_TAKE(%u);\n", 2*nest, "", state->accept);
+      ::fprintf(file, "%*sif (m.FSM_%s(%u%s))\n", 2*nest, "", take, state->accept, c1), cond = true;
   }
+  if (cond)
+    ::fprintf(file, "%*s{\n", 2*nest, "");
   for (Lookaheads::const_iterator i = state->tails.begin(); i != state->tails.end(); ++i)
     ::fprintf(file, "%*sm.FSM_TAIL(%u);\n", 2*nest, "", *i);
+  if (cond)
+    ::fprintf(file, "%*s}\n", 2*nest, "");
   if (nest > 5)
     return;
   for (DFA::State::Edges::const_reverse_iterator i = state->edges.rbegin(); i != state->edges.rend(); ++i)
@@ -2747,36 +2765,39 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
           case META_EOB:
           case META_EOL:
             ::fprintf(file, "%*s", 2*nest, "");
-            if (elif)
-              ::fprintf(file, "else ");
+            if (elif && !els)
+              ::fprintf(file, "else {\n%*s", 2*nest, ""), els = true;
             ::fprintf(file, "if (m.FSM_META_%s(c1)) {\n", meta_label[lo - META_MIN]);
-            gencode_dfa_closure(file, i->second.second, nest + 1, peek);
+            gencode_dfa_closure(file, i->second.second, nest + 1, peek, dent);
             ::fprintf(file, "%*s}\n", 2*nest, "");
-            elif = true;
             break;
           case META_EWE:
           case META_BWE:
           case META_NWE:
             ::fprintf(file, "%*s", 2*nest, "");
-            if (elif)
-              ::fprintf(file, "else ");
+            if (elif && !els)
+              ::fprintf(file, "else {\n%*s", 2*nest, ""), els = true;
             ::fprintf(file, "if (m.FSM_META_%s(c0, c1)) {\n", meta_label[lo - META_MIN]);
-            gencode_dfa_closure(file, i->second.second, nest + 1, peek);
+            gencode_dfa_closure(file, i->second.second, nest + 1, peek, dent);
             ::fprintf(file, "%*s}\n", 2*nest, "");
-            elif = true;
             break;
           default:
             ::fprintf(file, "%*s", 2*nest, "");
-            if (elif)
+            if (elif && lo >= META_UND)
               ::fprintf(file, "else ");
+            else if (elif && !els)
+              ::fprintf(file, "else {\n%*s", 2*nest, ""), els = true;
             ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
-            gencode_dfa_closure(file, i->second.second, nest + 1, peek);
+            gencode_dfa_closure(file, i->second.second, nest + 1, peek, dent || lo >= META_UND);
             ::fprintf(file, "%*s}\n", 2*nest, "");
-            elif = true;
+            if (lo >= META_UND)
+              elif = true;
         }
       } while (++lo <= hi);
     }
   }
+  if (els)
+    ::fprintf(file, "%*s}\n", 2*nest, "");
 }
 
 void Pattern::export_dfa(const DFA::State *start) const
-- 
2.43.0


From 91fc888bb0dfbdc4bf6340ffb34dc8222ff7d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 021/110] fix: lookahead of an alternative that is not the
 accepted one does not shorten the match

---
 lib/pattern.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 4c0b821..8e8146e 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1669,6 +1669,7 @@ void Pattern::compile_transition(
 {
   DBGLOG("BEGIN compile_transition()");
   Positions::const_iterator end = state->end();
+  Accept redo_accept = 0;
   for (Positions::const_iterator k = state->begin(); k != end; ++k)
   {
     if (k->accept())
@@ -1677,9 +1678,18 @@ void Pattern::compile_transition(
       if (state->accept == 0 || accept < state->accept)
         state->accept = accept;
       if (k->negate())
+      {
         state->redo = true;
+        if (redo_accept == 0 || accept < redo_accept)
+          redo_accept = accept;
+      }
     }
-    else
+  }
+  // the accepted top-level alternative, a negative pattern takes precedence
+  const Accept accept = state->redo ? redo_accept : state->accept;
+  for (Positions::const_iterator k = state->begin(); k != end; ++k)
+  {
+    if (!k->accept())
     {
       Location loc = k->loc();
       Char c = at(loc);
@@ -1718,7 +1728,7 @@ void Pattern::compile_transition(
           {
             Locations::const_iterator j = i->second.find(loc);
             DBGLOGN("%d %d (%d) %u", state->accept, i->first, j != i->second.end(), n);
-            if (j != i->second.end() /* CHECKED algorithmic options: 7/18 && state->accept == i->first */ ) // only add lookstop when part of the proper accept state
+            if (j != i->second.end() && (accept == 0 || accept == static_cast<Accept>(i->first))) // only add lookstop when part of the proper accept state
             {
               Lookahead l = n + static_cast<Lookahead>(std::distance(i->second.begin(), j));
               if (l < n)
-- 
2.43.0


From d089dea4516c8cf78f8fc2a1977ccfd2c3ecbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 022/110] fix: find() of a single string with a lookahead or of
 a negative string pattern

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 8e8146e..8fdeb9a 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -3092,7 +3092,7 @@ void Pattern::predict_match_dfa(DFA::State *start)
     }
     state = next;
   }
-  if (state != NULL && state->accept > 0 && !state->edges.empty())
+  if (state != NULL && state->accept > 0 && (!state->edges.empty() || state->redo || !state->tails.empty()))
     one_ = false;
   min_ = 0;
   std::memset(bit_, 0xFF, sizeof(bit_));
-- 
2.43.0


From 70dbc41a0ee5f6327281815cda35f8158b6bdbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 023/110] fix: split() with indent patterns does not move past
 the end of buffered input

---
 include/reflex/matcher.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 1e35076..5cbfce0 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -837,6 +837,7 @@ unrolled:
         tab_.resize(0);
         DBGLOG("Rescan for pending dedents: ded = %zu", ded_);
         pos_ = ind_;
+        cur_ = txt_ - buf_ + len_;
         // avoid looping, match \j exactly
         bol = false;
         goto redo;
@@ -849,11 +850,16 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
+        if (txt_ + len_ < buf_ + end_ || (pos_ = end_, peek() != EOF)) // pos_ may be before end_ after pending dedents
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
           set_current(++cur_);
+#if !defined(WITH_NO_INDENT)
+          mrk_ = false;
+          ind_ = pos_;
+          col_ = 0;
+#endif
           goto find;
         }
         if (got_ != Const::EOB)
-- 
2.43.0


From db143e1ab907add61443d05724724e4b3a8a64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 024/110] fix: word boundaries at the begin of an empty match
 at the end of input do not use stale buffer contents

---
 include/reflex/matcher.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 5cbfce0..142bf03 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -378,13 +378,13 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_EWB()
   {
     anc_ = true;
-    return isword(got_) && !isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) && !isword(begin_chr());
   }
   /// FSM code META BWB.
   inline bool FSM_META_BWB()
   {
     anc_ = true;
-    return !isword(got_) && (opt_.W || isword(static_cast<unsigned char>(txt_[len_])));
+    return !isword(got_) && (opt_.W || isword(begin_chr()));
   }
   /// FSM code META NWE.
   inline bool FSM_META_NWE(int c0, int c1)
@@ -396,7 +396,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_NWB()
   {
     anc_ = true;
-    return isword(got_) == isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) == isword(begin_chr());
   }
  protected:
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
@@ -672,7 +672,7 @@ redo:
                   DBGLOG("EWB? %d", at_eow());
                   anc_ = true;
                   if (njumps < jumpmax && isword(got_) &&
-                      !isword(static_cast<unsigned char>(txt_[len_])))
+                      !isword(begin_chr()))
                   {
                     Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -685,7 +685,7 @@ redo:
                   DBGLOG("BWB? %d", at_bow());
                   anc_ = true;
                   if (njumps < jumpmax && !isword(got_) &&
-                      (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
+                      (opt_.W || isword(begin_chr())))
                   {
                     Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -710,7 +710,7 @@ redo:
                   DBGLOG("NWB? %d %d", at_bow(), at_eow());
                   anc_ = true;
                   if (njumps < 64 &&
-                      isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                      isword(got_) == isword(begin_chr()))
                   {
                     Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -972,6 +972,12 @@ unrolled:
   bool advance()
     /// @returns true if possible match found
     ;
+  /// Returns the first character (unsigned char 0..255) to match or EOF, to check word boundaries at the begin.
+  inline int begin_chr()
+    /// @returns the character (unsigned char 0..255) or EOF (-1)
+  {
+    return txt_ + len_ < buf_ + end_ ? static_cast<unsigned char>(txt_[len_]) : peek();
+  }
 #if !defined(WITH_NO_INDENT)
   /// Update indentation column counter for indent() and dedent().
   inline void newline()
-- 
2.43.0


From 9dd8f69207eae8591f717259d42d940ddc5e0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 025/110] fix: FSM code that loops back to its start state
 moves the begin of a split or of a search

FSM_FIND() advanced the current position whenever the start state was
reached without a match, also after several characters and with split(),
unlike the opcode interpreter: find() then skipped start positions and
split() lost text or ran past the buffer.
---
 include/reflex/matcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 142bf03..9c003de 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -232,7 +232,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   /// FSM code FIND.
   inline void FSM_FIND()
   {
-    if (cap_ == 0)
+    // back at the start state after only one char matched (one transition) but w/o full match, then move forward from cur_ + 1 with FIND advance()
+    if (cap_ == 0 && pos_ == cur_ + 1 && fsm_.find)
       cur_ = pos_;
   }
   /// FSM code CHAR.
@@ -402,9 +403,10 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
   /// FSM data for FSM code
   struct FSM {
-    FSM() : bol(), nul(), c1(), take() { }
+    FSM() : bol(), nul(), find(), c1(), take() { }
     bool   bol;
     bool   nul;
+    bool   find; ///< method is Const::FIND
     int    c1;
     size_t take; ///< length of the last match taken
   };
@@ -439,6 +441,7 @@ redo:
       DBGLOG("FSM code %p", pat_->fsm_);
       fsm_.bol = bol;
       fsm_.nul = nul;
+      fsm_.find = method == Const::FIND;
       fsm_.take = Pattern::Const::IMAX;
       pat_->fsm_(*this);
       nul = fsm_.nul;
-- 
2.43.0


From 850eff7f426f61bd895f89354c4c1bff19de6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 026/110] fix: a match with a lookahead is overruled by an
 anchored alternative of the same length

The lookahead tail moves the current position back, so that the match
taken must be compared by its length including the lookahead, as the
FSM code does.
---
 include/reflex/matcher.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 9c003de..60ba64e 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -450,6 +450,7 @@ redo:
     else if (pat_->opc_ != NULL)
     {
       const Pattern::Opcode *pc = pat_->opc_;
+      size_t take = Pattern::Const::IMAX; // length of the last match taken
       while (true)
       {
         Pattern::Opcode opcode = *pc;
@@ -461,6 +462,7 @@ redo:
             case 0xFE: // TAKE
               cap_ = Pattern::long_index_of(opcode);
               cur_ = pos_;
+              take = cur_ - (txt_ - buf_);
               ++pc;
               DBGLOG("Take: cap = %zu", cap_);
               continue;
@@ -513,7 +515,6 @@ redo:
           size_t njumps = 0;
           size_t jumpmax = sizeof(jumps) / sizeof(*jumps);
           bool dent = false; // an indent, dedent or undent match takes precedence
-          size_t take = Pattern::Const::IMAX; // where a meta transition took a match
           while (true)
           {
             if (!Pattern::is_opcode_goto(opcode))
@@ -524,8 +525,9 @@ redo:
                 {
                   Pattern::Index cap = Pattern::long_index_of(opcode);
                   size_t cur = c1 == EOF ? pos_ : pos_ - 1; // must unget one char
+                  size_t len = cur - (txt_ - buf_);
                   opcode = *++pc;
-                  if (!dent && (cur_ == cur || take == cur) && cap_ > 0 && (cap_ < cap || cap_ == Const::REDO))
+                  if (!dent && (cur_ == cur || take == len) && cap_ > 0 && (cap_ < cap || cap_ == Const::REDO))
                   {
                     // a match of the same length with a lower index takes precedence, so does a negative match
                     while (opcode >> 24 == 0xFC)
@@ -533,7 +535,8 @@ redo:
                     continue;
                   }
                   cap_ = cap;
-                  cur_ = take = cur;
+                  cur_ = cur;
+                  take = len;
                   DBGLOG("Take: cap = %zu", cap_);
                   continue;
                 }
-- 
2.43.0


From 18bacd169d0c3c6dab627de48959fc50f1689838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 027/110] fix: lazy_union iterates in the wrong order and past
 the end

The flag that selects the second set was not initialized for the first
element and not updated when one of the sets was exhausted.
---
 include/reflex/setop.h | 49 ++++++++++++------------------------------
 1 file changed, 14 insertions(+), 35 deletions(-)

diff --git a/include/reflex/setop.h b/include/reflex/setop.h
index 446e725..4de815a 100644
--- a/include/reflex/setop.h
+++ b/include/reflex/setop.h
@@ -339,56 +339,35 @@ struct lazy_union {
       {
         second = true;
       }
+      else if (i2 == i2_end)
+      {
+        second = false;
+      }
+      else if (lt(*i2, *i1))
+      {
+        second = true;
+      }
       else
       {
-        while (i2 != i2_end && !lt(*i1, *i2) && !lt(*i2, *i1))
+        second = false;
+        // skip duplicate
+        if (!lt(*i1, *i2))
           ++i2;
       }
     }
     void next(void)
     {
-      if (i1 == i1_end)
+      if (second)
       {
         if (i2 != i2_end)
           ++i2;
-        second = true;
-      }
-      else if (i2 == i2_end)
-      { 
-        if (i1 != i1_end)
-          ++i1;
-        second = false;
       }
       else
       {
-        if (second)
-        {
-          ++i2;
-          second = false;
-        }
-        else
-        {
+        if (i1 != i1_end)
           ++i1;
-          second = true;
-        }
-        while (i1 != i1_end && i2 != i2_end)
-        {
-          if (lt(*i1, *i2))
-          {
-            second = false;
-            break;
-          }
-          else if (lt(*i2, *i1))
-          {
-            second = true;
-            break;
-          }
-          else
-          {
-            ++i2;
-          }
-        }
       }
+      find();
     }
     typename S1::const_iterator i1, i1_end;
     typename S2::const_iterator i2, i2_end;
-- 
2.43.0


From d74db00bde4926e3db70345b2eb149c1e3b1c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 028/110] fix: Ranges::contains() is true for ranges above the
 highest range

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 554ab82..7cc6fcd 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -513,7 +513,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         ++j;
       }
     }
-    return true;
+    return j == rs.end();
   }
   /// Return the lowest value in the set of ranges (the set cannot be empty)
   bound_type lo() const
-- 
2.43.0


From ebb9302410072ef31a30ed8176399411dd0baf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 029/110] fix: Ranges comparison considers a set and its
 extension by higher ranges equivalent

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 7cc6fcd..e1d0422 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -446,7 +446,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
       ++i;
       ++j;
     }
-    return false;
+    return i == this->end() && j != rs.end();
   }
   /// True if this range set is lexicographically greater than range set rs.
   bool operator>(const Ranges& rs) ///< ranges
-- 
2.43.0


From 8961a3d3a7ca9413e70a36cf2b24237322c8f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 030/110] fix: Bits::erase(n1, n2) with n2 beyond the size
 keeps bits of the last word

---
 include/reflex/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index f3b231d..18f29cc 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -251,7 +251,7 @@ class Bits {
     if (n1 >> 6 < len_)
     {
       if (n2 >> 6 >= len_)
-        n2 = (len_ - 1) << 6;
+        n2 = (len_ << 6) - 1;
       for (size_t i = n1; i <= n2; ++i)
         vec_[i >> 6] &= ~(1ULL << (i & 0x3F));
     }
-- 
2.43.0


From d5767fdde758954d907a3a91b2785e3d0fca417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 031/110] fix: Bits assignment leaks the old bits and loses the
 bits when assigned to itself

---
 include/reflex/bits.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 18f29cc..8c3ae7c 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -155,6 +155,9 @@ class Bits {
   { }
   /// Copy constructor
   Bits(const Bits& bits) ///< bits to copy
+    :
+      len_(0),
+      vec_(NULL)
   {
     operator=(bits);
   }
@@ -186,11 +189,16 @@ class Bits {
   Bits& operator=(const Bits& bits) ///< bits to copy
     /// @returns reference to this object.
   {
-    len_ = bits.len_;
-    if (len_)
-      std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
-    else
-      vec_ = NULL;
+    if (this != &bits)
+    {
+      if (vec_)
+        delete[] vec_;
+      len_ = bits.len_;
+      if (len_)
+        std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
+      else
+        vec_ = NULL;
+    }
     return *this;
   }
   /// Reference n'th bit in the bit vector to assign a value to that bit.
-- 
2.43.0


From 673c4e96b26332a4d0b693d7e8524c8f2df2c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 032/110] fix: assigning a bit of a Bits object to a bit of
 another has no effect

---
 include/reflex/bits.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 8c3ae7c..77b8f8c 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -119,6 +119,13 @@ class Bits {
         *p &= ~m;
       return *this;
     }
+    /// Assign the value of another bit.
+    const Bitref& operator=(const Bitref& bit) ///< bit to assign
+      /// @returns result value true or false.
+      const
+    {
+      return operator=(static_cast<bool>(bit));
+    }
     /// Bit-or bit value.
     bool operator|=(bool b) ///< bit-or with this bit
       /// @returns result value true or false.
-- 
2.43.0


From d824b06f22f9de4936e753f79228d3285a9ce345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 033/110] fix: Ranges intersection loses a single value at the
 end of a range

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index e1d0422..53cc12f 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -332,7 +332,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         }
         // put upper part of the range back if next range in rs overlaps with it
         if (++j != rs.end())
-          if (std::less<bound_type>()(j->first, hi))
+          if (!std::less<bound_type>()(hi, j->first))
             i = container_type::insert(i, value_type(j->first, hi)); // insert with hint i that follows the insertion point
       }
       else if (std::less<bound_type>()(i->second, j->second))
-- 
2.43.0


From 6c53657cea5c115b6f79d20baa81d9a9845b6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 034/110] fix: ORanges difference with itself uses erased
 ranges

---
 include/reflex/ranges.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 53cc12f..ba92853 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -718,6 +718,8 @@ class ORanges : public Ranges<T> {
   ORanges& operator-=(const ORanges& rs)
     /// @returns reference to this object.
   {
+    if (this == &rs)
+      container_type::clear();
     iterator i = this->begin();
     const_iterator j = rs.begin();
     while (i != this->end() && j != rs.end())
-- 
2.43.0


From 580565c4c1a280f95f39ed0b9a79026295c67733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 035/110] fix: Bits::lshift() shifts the last bit to the wrong
 place when the bits are extended

---
 include/reflex/bits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 77b8f8c..9c1d260 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -297,8 +297,9 @@ class Bits {
       }
       if (lo)
       {
-        alloc(len_ + 1);
-        vec_[len_ - 1] = 1;
+        size_t k = len_;
+        alloc(k + 1);
+        vec_[k] = 1;
       }
     }
     return *this;
-- 
2.43.0


From c7028ff809a3819664eca32e4b82f05961182865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 036/110] fix: utf8() range regex loses characters when an
 inner byte of a bound is the first or last UTF-8 continuation byte

---
 lib/utf8.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/utf8.cpp b/lib/utf8.cpp
index a5316f3..f96b4c3 100644
--- a/lib/utf8.cpp
+++ b/lib/utf8.cpp
@@ -195,10 +195,13 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (as[i + 1] == 0x80) // pattern compression
+          size_t k = i + 1;
+          while (k < n && as[k] == 0x80)
+            ++k;
+          if (k == n) // pattern compression: as[i+1..n-1] == UTF-8 lower bound
           {
             regex.append(regex_range(buf, as[i], 0xbf, esc));
-            for (++i; i < n && as[i] == 0x80; ++i)
+            for (++i; i < n; ++i)
               regex.append(any);
           }
           else
@@ -236,10 +239,13 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (bs[i + 1] == 0xbf) // pattern compression
+          size_t k = i + 1;
+          while (k < n && bs[k] == 0xbf)
+            ++k;
+          if (k == n) // pattern compression: bs[i+1..n-1] == UTF-8 upper bound
           {
             regex.append(regex_range(buf, 0x80, bs[i], esc));
-            for (++i; i < n && bs[i] == 0xbf; ++i)
+            for (++i; i < n; ++i)
               regex.append(any);
           }
           else
-- 
2.43.0


From 7976da99070cf6ec2bb6b7434e59476f1a7f624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 037/110] fix: wchr() reads past the end of a match that ends
 in incomplete UTF-8

---
 include/reflex/absmatcher.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 8c4a65e..3dfa115 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -603,7 +603,12 @@ class AbstractMatcher {
   inline int wchr() const
     /// @returns wide char (UTF-8 converted to Unicode)
   {
-    return utf8(txt_);
+    if (len_ >= 6)
+      return utf8(txt_);
+    // do not read past the end of the match when the UTF-8 sequence is incomplete
+    char tmp[8] = { 0 };
+    std::memcpy(tmp, txt_, len_);
+    return utf8(tmp);
   }
   /// Set or change the starting line number of the last match.
   inline void lineno(size_t n) ///< new line number
-- 
2.43.0


From be93b444c29078770b3630bd3a0536dc21be064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 038/110] fix: inverted class escapes in a bracket list also
 invert the characters listed before

---
 lib/pattern.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 8fdeb9a..6e561d2 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1231,12 +1231,14 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       for (i = 0; i < 14; ++i)
         if (eq_at(loc, posix_class[i]))
           break;
+      Chars cls;
       if (i < 14)
-        posix(i, *chars);
+        posix(i, cls);
       else
         error(regex_error::invalid_class, loc);
       if (c == 'P')
-        flip(*chars);
+        flip(cls);
+      *chars |= cls;
       loc += static_cast<Location>(strlen(posix_class[i]));
       if (at(loc) == '}')
         ++loc;
@@ -1270,9 +1272,11 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       {
         if (chars != NULL)
         {
-          posix((s - escapes) / 2, *chars);
+          Chars cls;
+          posix((s - escapes) / 2, cls);
           if ((s - escapes) % 2)
-            flip(*chars);
+            flip(cls);
+          *chars |= cls;
         }
         c = META_EOL;
       }
-- 
2.43.0


From e9782e36537ae111a8225a3de8f70e26411b2bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 039/110] fix: POSIX class names in a pattern are not matched
 in full, ^ and [:ascii:] are not recognized, and unknown names read out of
 bounds

---
 lib/pattern.cpp | 51 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 6e561d2..17187b0 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -120,6 +120,23 @@ static const char *posix_class[] = {
   "Word",
 };
 
+// find the index of a POSIX class name, returns 14 if not found
+static size_t find_posix_class(const std::string& name, bool anycase)
+{
+  size_t i;
+  for (i = 0; i < 14; ++i)
+  {
+    const char *s = posix_class[i];
+    size_t k;
+    for (k = 0; k < name.size() && s[k] != '\0'; ++k)
+      if (name[k] != s[k] && (!anycase || ((name[k] ^ s[k]) & ~0x20)))
+        break;
+    if (k == name.size() && s[k] == '\0')
+      break;
+  }
+  return i;
+}
+
 static const char *meta_label[] = {
   NULL,
   "NWB",
@@ -1227,21 +1244,24 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
     loc += 2;
     if (chars != NULL)
     {
-      size_t i;
-      for (i = 0; i < 14; ++i)
-        if (eq_at(loc, posix_class[i]))
-          break;
+      bool invert = (c == 'P');
+      if (at(loc) == '^')
+      {
+        invert = !invert;
+        ++loc;
+      }
+      size_t end = find_at(loc, '}');
+      size_t i = find_posix_class(end != std::string::npos ? rex_.substr(loc, end - loc) : std::string(), false);
       Chars cls;
       if (i < 14)
         posix(i, cls);
       else
         error(regex_error::invalid_class, loc);
-      if (c == 'P')
+      if (invert)
         flip(cls);
       *chars |= cls;
-      loc += static_cast<Location>(strlen(posix_class[i]));
-      if (at(loc) == '}')
-        ++loc;
+      if (end != std::string::npos)
+        loc = static_cast<Location>(end + 1);
       else
         error(regex_error::invalid_escape, loc);
     }
@@ -1985,14 +2005,19 @@ void Pattern::compile_list(Location loc, Chars& chars, const Map& modifiers) con
         }
         else
         {
-          size_t i;
-          for (i = 0; i < 14; ++i)
-            if (eq_at(loc + 4, posix_class[i] + 2)) // ignore first two letters (upper/lower) when matching
-              break;
+          Location k = loc + 2;
+          bool invert = (at(k) == '^');
+          if (invert)
+            ++k;
+          size_t i = find_posix_class(rex_.substr(k, c_loc - k), true);
+          Chars cls;
           if (i < 14)
-            posix(i, chars);
+            posix(i, cls);
           else
             error(regex_error::invalid_class, loc);
+          if (invert)
+            flip(cls);
+          chars |= cls;
           c = META_EOL;
         }
         loc = static_cast<Location>(c_loc + 1);
-- 
2.43.0


From 4f3e6be328157ab2d6a73a7735a4ca8dad74bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 040/110] fix: inverted Unicode class escapes in a bracket list
 lose the characters above the class or include surrogates

---
 lib/convert.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5c930fb..5318492 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -562,6 +562,9 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
         if (last < 0xD800)
           ranges.insert(last, 0xD7FF);
         ranges.insert(0xE000, 0x10FFFF);
+      }
+      else
+      {
         ranges.insert(last, 0x10FFFF);
       }
     }
-- 
2.43.0


From 7b337a4fc8c2b577d7bdd27fe43f4409cbf85032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 041/110] fix: POSIX class names in converted bracket lists are
 not matched in full and inverted ones lose Unicode characters

---
 lib/convert.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5318492..127bed9 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -729,23 +729,23 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   return c;
 }
 
-static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORanges<int>& ranges)
+static void insert_posix_class(const char *pattern, size_t len, size_t& pos, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
   pos += 2;
   char buf[8] = "";
   char *name = buf;
   while (pos + 1 < len && name < buf + sizeof(buf) - 1 && (pattern[pos] != ':' || pattern[pos + 1] != ']'))
     *name++ = pattern[pos++];
-  if (pos + 1 >= len)
+  if (pos + 1 >= len || pattern[pos] != ':' || pattern[pos + 1] != ']')
     throw regex_error(regex_error::invalid_class, pattern, pos);
   *name = '\0';
   name = buf + (*buf == '^');
   if (name[1] != '\0')
   {
     name[0] = uppercase(name[0]);
-    if (name[0] == 'X' && name[1] == 'd')
+    if (std::strcmp(name, "Xdigit") == 0)
       name = const_cast<char*>("XDigit");
-    else if (name[0] == 'A' && name[1] == 's')
+    else if (std::strcmp(name, "Ascii") == 0)
       name = const_cast<char*>("ASCII");
   }
   const int *translated = Posix::range(name);
@@ -760,8 +760,16 @@ static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORa
         ranges.insert(last, wc[0] - 1);
       last = wc[1] + 1;
     }
-    if (last < 0xFF)
+    if (is_modified(mod, 'u'))
+    {
+      // exclude U+D800 to U+DFFF
+      ranges.insert(last, 0xD7FF);
+      ranges.insert(0xE000, 0x10FFFF);
+    }
+    else if (last < 0xFF)
+    {
       ranges.insert(last, 0xFF);
+    }
   }
   else
   {
@@ -931,7 +939,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
       // POSIX character class (ASCII only)
       if (range)
         throw regex_error(regex_error::invalid_class_range, pattern, pos);
-      insert_posix_class(pattern, len, pos, ranges);
+      insert_posix_class(pattern, len, pos, mod, ranges);
       pc = -1;
     }
     else if (c == '|' && pattern[pos + 1] == '|' && pos + 3 < len && (pattern[pos + 2] == '[' || (pattern[pos + 2] == '{' && macros != NULL)))
-- 
2.43.0


From c5727d63bfc93afc4c67e5ad06e60385ad6b1532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 042/110] fix: \B and \Y are converted to their opposites

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 127bed9..31cb473 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1108,7 +1108,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'Y'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \B to \Y
-        regex.append(&pattern[loc], pos - loc - 1).append("\\y");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\Y");
         loc = pos + 1;
       }
       else if (c == 'Y')
@@ -1116,7 +1116,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'B'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \Y to \B
-        regex.append(&pattern[loc], pos - loc - 1).append("\\b");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\B");
         loc = pos + 1;
       }
       else if (c == '<')
-- 
2.43.0


From 2942e0f9b550731593e8fe827381f939eb17e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 043/110] fix: [[:>:]] is converted to a word begin

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 31cb473..0d82e30 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1821,12 +1821,12 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           {
             if (!supports_escape(signature, 'b') || !supports_escape(signature, 'w') || !supports_modifier(signature, '<'))
               throw regex_error(regex_error::invalid_anchor, pattern, pos);
-            // translate \< to \b(?<=\w)
-            regex.append(&pattern[loc], pos - loc - 1).append("\\b(?<=\\w)");
+            // translate \> to \b(?<=\w)
+            regex.append(&pattern[loc], pos - loc).append("\\b(?<=\\w)");
           }
           else
           {
-            regex.append(&pattern[loc], pos - loc).append("\\<");
+            regex.append(&pattern[loc], pos - loc).append("\\>");
           }
           pos += 6;
           loc = pos + 1;
-- 
2.43.0


From 82b706a91b047a8d7626ce3e95a3060478625308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 044/110] fix: multiline conversion is lost when the regex
 starts with a group (?

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 0d82e30..caf1bbf 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1486,6 +1486,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
     else
     {
       mod[lev].clear();
+      if ((flags & convert_flag::multiline))
+        regex.assign("(?m)");
     }
   }
   else if ((flags & convert_flag::multiline))
-- 
2.43.0


From de4ab3e2f69e97f9f5793eff4f6f804e4a7a5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:04 +0000
Subject: [PATCH 045/110] fix: Unicode class Space lacks U+0085, U+2028 and
 U+2029

---
 unicode/language_scripts.cpp | 2 ++
 unicode/language_scripts.l   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unicode/language_scripts.cpp b/unicode/language_scripts.cpp
index 08fd4eb..907db04 100644
--- a/unicode/language_scripts.cpp
+++ b/unicode/language_scripts.cpp
@@ -9160,9 +9160,11 @@ void reflex::Unicode::Tables::language_scripts(void)
   static const int Space[] = {
     9, 13,
     32, 32,
+    133, 133,
     160, 160,
     5760, 5760,
     8192, 8202,
+    8232, 8233,
     8239, 8239,
     8287, 8287,
     12288, 12288,
diff --git a/unicode/language_scripts.l b/unicode/language_scripts.l
index 3af5705..a5efda9 100644
--- a/unicode/language_scripts.l
+++ b/unicode/language_scripts.l
@@ -85,8 +85,8 @@ int main()
   (p["Unicode"]           = Chars(0x00, 0x10FFFF)) -= Chars(0xD800, 0xDFFF);
   (p["Non_ASCII_Unicode"] = p["Unicode"])          -= p["ASCII"];
 
-  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13)
-  (p["Space"] = p["Zs"]) |= Chars(0x09, 0x0D);
+  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13) and NEL (U+0085)
+  ((p["Space"] = p["Z"]) |= Chars(0x09, 0x0D)) |= Chars(0x85);
 
   // Add Unicode Word
   ((p["Word"]  = p["L"]) |= p["Nd"]) |= p["Pc"];
-- 
2.43.0


From 3b0e20393c4749482913856829b63277bbcf270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 046/110] fix: wrong entries in the code page tables

---
 lib/input.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b13a67a..6740b93 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -62,7 +62,7 @@ const unsigned short codepages[38][256] =
 {
   // DOS CP 437 to Unicode
   {
-       0,0x263A,0x263B,0x2665,0x2666,0x2663,0x2660,0x2022,0x25D8,0x25CB,0x25D9,0x2642,0x2640,0x266A,0x266B,0x263C,
+       0,0x263A,0x263B,0x2665,0x2666,0x2663,0x2660,0x2022,0x25D8,     9,    10,    11,    12,    13,0x266B,0x263C,
   0x25BA,0x25C4,0x2195,0x203C,0x00B6,0x00A7,0x25AC,0x21A8,0x2191,0x2193,0x2192,0x2190,0x221F,0x2194,0x25B2,0x25BC,
       32,    33,    34,    35,    36,    37,    38,    39,    40,    41,    42,    43,    44,    45,    46,    47,
       48,    49,    50,    51,    52,    53,    54,    55,    56,    57,    58,    59,    60,    61,    62,    63,
@@ -167,9 +167,9 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x0402,0x0403,0x201A,0x0453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x0409,0x2039,0x040A,0x040C,0x040B,0x040F,
   0x0452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,0x0459,0x203A,0x045A,0x045C,0x045B,0x045F,
-     160,0x040E,0x045E,0x0408,   164,0x0409,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
+     160,0x040E,0x045E,0x0408,   164,0x0490,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
      176,   177,0x0406,0x0456,0x0491,   181,   182,   183,0x0451,0x2116,0x0454,   187,0x0458,0x0405,0x0455,0x0457,
-  0x0100,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
+  0x0410,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
   0x0420,0x0421,0x0422,0x0423,0x0424,0x0425,0x0426,0x0427,0x0428,0x0429,0x042A,0x042B,0x042C,0x042D,0x042E,0x042F,
   0x0430,0x0431,0x0432,0x0433,0x0434,0x0435,0x0436,0x0437,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,0x043F,
   0x0440,0x0441,0x0442,0x0443,0x0444,0x0445,0x0446,0x0447,0x0448,0x0449,0x044A,0x044B,0x044C,0x044D,0x044E,0x044F
@@ -229,7 +229,7 @@ const unsigned short codepages[38][256] =
      192,   193,   194,   195,   196,   197,   198,   199,   200,   201,   202,   203,   204,   205,   206,   207,
   0x011E,   209,   210,   211,   212,   213,   214,   215,   216,   217,   218,   219,   220,0x0130,0x015E,   223,
      224,   225,   226,   227,   228,   229,   230,   231,   232,   233,   234,   235,   236,   237,   238,   239,
-  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   252,   252,0x0131,0x015F,   255
+  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,0x0131,0x015F,   255
   },
   // Windows CP 1255 to Unicode
   {
@@ -245,7 +245,7 @@ const unsigned short codepages[38][256] =
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,   156,   157,   158,   159,
      160,   161,   162,   163,0x20AA,   165,   166,   167,   168,   169,0x00D7,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,0x00F7,   187,   188,   189,   190,   191,
-  0x05B0,0x05B1,0x05B2,0x0583,0x0584,0x0585,0x0586,0x0587,0x0588,0x0589,0x058A,0x058B,0x058C,0x058D,0x058E,0x058F,
+  0x05B0,0x05B1,0x05B2,0x05B3,0x05B4,0x05B5,0x05B6,0x05B7,0x05B8,0x05B9,0x058A,0x05BB,0x05BC,0x05BD,0x05BE,0x05BF,
   0x05C0,0x05C1,0x05C2,0x05C3,0x05F0,0x05F1,0x05F2,0x05F3,0x05F4,   217,   218,   219,   220,   221,   222,   223,
   0x05D0,0x05D1,0x05D2,0x05D3,0x05D4,0x05D5,0x05D6,0x05D7,0x05D8,0x05D9,0x05DA,0x05DB,0x05DC,0x05DD,0x05DE,0x05DF,
   0x05E0,0x05E1,0x05E2,0x05E3,0x05E4,0x05E5,0x05E6,0x05E7,0x05E8,0x05E9,0x05EA,   251,   252,0x200E,0x200F,   255
@@ -281,12 +281,12 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,   131,0x201E,0x2026,0x2020,0x2021,   136,0x2030,   138,0x2039,   140,0x00A8,0x02C7,0x00B8,
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,   154,0x203A,   156,0x00AF,0x02DB,   159,
-     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   175,
-     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   191,
+     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   198,
+     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   230,
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
+  0x0161,0x0144,0x0146,   243,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
   },
   // Windows CP 1258 to Unicode
   {
@@ -338,11 +338,11 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x0126,0x2DB2,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
+     160,0x0126,0x02D8,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
      176,0x0127,   178,   179,   180,   181,0x0125,   183,   184,0x0131,0x015F,0x011F,0x0135,   189,   190,0x017C,
      192,   193,   194,   195,   196,0x010A,0x0108,   199,   200,   201,   202,   203,   204,   205,   206,   207,
      208,   209,   210,   211,   212,0x0120,   214,   215,0x011C,   217,   218,   219,   220,0x016C,0x015C,   223,
-     224,   225,   226,   227,   228,0x10B9,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
+     224,   225,   226,   227,   228,0x010B,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
      240,   241,   242,   243,   244,0x0121,   246,   247,0x011D,   249,   250,   251,   252,0x016D,0x015D,0x02D9
   },
   // ISO-8859-4 to Unicode
@@ -357,7 +357,7 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x1041,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
+     160,0x0104,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
      176,0x0105,0x02DB,0x0157,   180,0x0129,0x013C,0x02C7,   184,0x0161,0x0113,0x0123,0x0167,0x014A,0x017E,0x014B,
   0x0100,   193,   194,   195,   196,   197,   198,0x012E,0x010C,   201,0x0118,   203,0x0116,   205,   206,0x012A,
   0x0110,0x0145,0x014C,0x0136,   212,   213,   214,   215,   216,0x0172,   218,   219,   220,0x0168,0x016A,   223,
@@ -398,7 +398,7 @@ const unsigned short codepages[38][256] =
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,0x060C,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,0x061B,   188,   189,   190,0x061F,
      192,0x0621,0x0622,0x0623,0x0624,0x0625,0x0626,0x0627,0x0628,0x0629,0x062A,0x062B,0x062C,0x062D,0x062E,0x062F,
-  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x062A,   219,   220,   221,   222,   223,
+  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x063A,   219,   220,   221,   222,   223,
   0x0640,0x0641,0x0642,0x0643,0x0644,0x0645,0x0646,0x0647,0x0648,0x0649,0x064A,0x064B,0x064C,0x064D,0x064E,0x064F,
   0x0650,0x0651,0x0652,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,   253,   254,   255
   },
@@ -514,7 +514,7 @@ const unsigned short codepages[38][256] =
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
+  0x0161,0x0144,0x0146,   243,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
   },
   // ISO-8859-14 to Unicode
   {
@@ -642,8 +642,8 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,
   0x2591,0x2592,0x2593,0x201C,0x25A0,0x2219,0x201D,0x2014,0x2116,0x2122,0x00A0,0x00BB,0x00AE,0x00AB,0x00B7,0x00A4,
-  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045D,0x255E,
-  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040D,0x00A9,
+  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045E,0x255E,
+  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040E,0x00A9,
   0x044E,0x0430,0x0431,0x0446,0x0434,0x0435,0x0444,0x0433,0x0445,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,
   0x043F,0x044F,0x0440,0x0441,0x0442,0x0443,0x0436,0x0432,0x044C,0x044B,0x0437,0x0448,0x044D,0x0449,0x0447,0x044A,
   0x042E,0x0410,0x0411,0x0426,0x0414,0x0415,0x0424,0x0413,0x0425,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,
-- 
2.43.0


From 52e045a4e7288b97d692f6515773a3939aac5b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 047/110] fix: file_get() delivered garbage after a UTF-8
 sequence split over two reads

---
 lib/input.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 6740b93..8cecb9f 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -796,7 +796,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -835,7 +835,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -866,7 +866,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -897,7 +897,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -934,7 +934,7 @@ size_t Input::file_get(char *s, size_t n)
           else
           {
             uidx_ = 1;
-            ulen_ = 2;
+            ulen_ = 1;
           }
         }
       }
@@ -988,7 +988,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
-- 
2.43.0


From dae73220ff1cb3fb7cac9b4186d5133bbacbb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 048/110] fix: file_size() sought past the end of the file,
 reporting a size for a fully read file

---
 lib/input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 8cecb9f..9d5a252 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1154,7 +1154,7 @@ void Input::file_size()
         }
         break;
       default:
-        fseeko(file_, k, SEEK_END);
+        fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
           size_ = static_cast<size_t>(n - k);
-- 
2.43.0


From 7fb08c43e0438524fc56e629b6ac70b2cefa3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 049/110] fix: file_init() lost the last byte of a three byte
 file that starts with two zeros

---
 lib/input.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 9d5a252..fb528f8 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -684,9 +684,9 @@ void Input::file_init(file_encoding_type enc)
           ulen_ = 2;
           if (utf8_[0] == '\0' && utf8_[1] == '\0')  // UTF-32 big endian BOM 0000XXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4)
             {
-              ulen_ = 4;
               if (utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
               {
                 size_ = 0;
-- 
2.43.0


From 1a98bb7013b88306994097b592420c39e754a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 050/110] fix: UTF-16 files garbled after a little endian BOM
 and after an unpaired surrogate

---
 include/reflex/input.h |  4 +++
 lib/input.cpp          | 81 ++++++++++++++++++++++++++++--------------
 2 files changed, 59 insertions(+), 26 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d9df043..75f0033 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -359,6 +359,7 @@ class Input {
       size_(input.size_),
       uidx_(input.uidx_),
       ulen_(input.ulen_),
+      unit_(input.unit_),
       utfx_(input.utfx_),
       page_(input.page_),
       handler_(input.handler_)
@@ -503,6 +504,7 @@ class Input {
     size_ = input.size_;
     uidx_ = input.uidx_;
     ulen_ = input.ulen_;
+    unit_ = input.unit_;
     utfx_ = input.utfx_;
     page_ = input.page_;
     handler_ = input.handler_;
@@ -753,6 +755,7 @@ class Input {
     std::memset(utf8_, 0, sizeof(utf8_));
     uidx_ = 0;
     ulen_ = 0;
+    unit_ = -1;
     utfx_ = 0;
     page_ = NULL;
     handler_ = NULL;
@@ -786,6 +789,7 @@ class Input {
   char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
+  int                   unit_;    ///< UTF-16 code unit of the file that was read ahead or -1 if none
   file_encoding_type    utfx_;    ///< file_encoding
   const unsigned short *page_;    ///< custom code page
   Handler              *handler_; ///< to handle FILE* errors and non-blocking FILE* reads
diff --git a/lib/input.cpp b/lib/input.cpp
index fb528f8..b75a461 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -703,21 +703,15 @@ void Input::file_init(file_encoding_type enc)
           }
           else if (utf8_[0] == '\xff' && utf8_[1] == '\xfe') // UTF-16 or UTF-32 little endian BOM FFFEXXXX?
           {
+            size_ = 0;
+            ulen_ = 0;
+            utfx_ = file_encoding::utf16le;
             if (::fread(&utf8_[2], 2, 1, file_) == 1)
             {
               if (utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
-              {
-                size_ = 0;
-                ulen_ = 0;
                 utfx_ = file_encoding::utf32le;
-              }
               else
-              {
-                size_ = 0;
-                uidx_ = 2;
-                ulen_ = 1;
-                utfx_ = file_encoding::utf16le;
-              }
+                unit_ = static_cast<unsigned char>(utf8_[2]) | static_cast<unsigned char>(utf8_[3]) << 8;
             }
           }
           else if (utf8_[0] == '\xef' && utf8_[1] == '\xbb') // UTF-8 BOM EFBBXX?
@@ -773,9 +767,10 @@ size_t Input::file_get(char *s, size_t n)
   switch (utfx_)
   {
     case file_encoding::utf16be:
-      while (n > 0 && ::fread(buf, 2, 1, file_) == 1)
+      while (n > 0 && (unit_ >= 0 || ::fread(buf, 2, 1, file_) == 1))
       {
-        int c = buf[0] << 8 | buf[1];
+        int c = unit_ >= 0 ? unit_ : buf[0] << 8 | buf[1];
+        unit_ = -1;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -786,10 +781,18 @@ size_t Input::file_get(char *s, size_t n)
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1)
+              unit_ = buf[2] << 8 | buf[3];
+            if (c < 0xDC00 && (unit_ & 0xFC00) == 0xDC00)
+            {
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + unit_;
+              unit_ = -1;
+            }
             else
+            {
+              // not a pair, the code unit that follows is not part of it
               c = REFLEX_NONCHAR;
+            }
           }
           size_t l = utf8(c, utf8_);
           if (n < l)
@@ -812,9 +815,10 @@ size_t Input::file_get(char *s, size_t n)
         size_ -= t - s;
       return t - s;
     case file_encoding::utf16le:
-      while (n > 0 && ::fread(buf, 2, 1, file_) == 1)
+      while (n > 0 && (unit_ >= 0 || ::fread(buf, 2, 1, file_) == 1))
       {
-        int c = buf[0] | buf[1] << 8;
+        int c = unit_ >= 0 ? unit_ : buf[0] | buf[1] << 8;
+        unit_ = -1;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -825,10 +829,18 @@ size_t Input::file_get(char *s, size_t n)
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1)
+              unit_ = buf[2] | buf[3] << 8;
+            if (c < 0xDC00 && (unit_ & 0xFC00) == 0xDC00)
+            {
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + unit_;
+              unit_ = -1;
+            }
             else
+            {
+              // not a pair, the code unit that follows is not part of it
               c = REFLEX_NONCHAR;
+            }
           }
           size_t l = utf8(c, utf8_);
           if (n < l)
@@ -1045,6 +1057,7 @@ void Input::file_size()
   if (k >= 0)
   {
     unsigned char buf[4];
+    int unit = unit_;
     switch (utfx_)
     {
       case file_encoding::latin:
@@ -1090,16 +1103,24 @@ void Input::file_size()
         }
         break;
       case file_encoding::utf16be:
-        while (::fread(buf, 2, 1, file_) == 1)
+        while (unit >= 0 || ::fread(buf, 2, 1, file_) == 1)
         {
-          int c = buf[0] << 8 | buf[1];
+          int c = unit >= 0 ? unit : buf[0] << 8 | buf[1];
+          unit = -1;
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1)
+              unit = buf[2] << 8 | buf[3];
+            if (c < 0xDC00 && (unit & 0xFC00) == 0xDC00)
+            {
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + unit;
+              unit = -1;
+            }
             else
+            {
               c = REFLEX_NONCHAR;
+            }
           }
 #ifndef WITH_UTF8_UNRESTRICTED
           else if (c > 0x10FFFF)
@@ -1111,16 +1132,24 @@ void Input::file_size()
         }
         break;
       case file_encoding::utf16le:
-        while (::fread(buf, 2, 1, file_) == 1)
+        while (unit >= 0 || ::fread(buf, 2, 1, file_) == 1)
         {
-          int c = buf[0] | buf[1] << 8;
+          int c = unit >= 0 ? unit : buf[0] | buf[1] << 8;
+          unit = -1;
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1)
+              unit = buf[2] | buf[3] << 8;
+            if (c < 0xDC00 && (unit & 0xFC00) == 0xDC00)
+            {
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + unit;
+              unit = -1;
+            }
             else
+            {
               c = REFLEX_NONCHAR;
+            }
           }
 #ifndef WITH_UTF8_UNRESTRICTED
           else if (c > 0x10FFFF)
-- 
2.43.0


From c158046d118b69643af3b7c220fe2861e5430d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 051/110] fix: good() and eof() of an input disregarded
 converted bytes that are not read yet

---
 include/reflex/input.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index 75f0033..2ee4ba2 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -610,9 +610,9 @@ class Input {
     if (cstring_)
       return size_ > 0;
     if (wstring_)
-      return *wstring_ != L'\0';
+      return ulen_ > 0 || *wstring_ != L'\0';
     if (file_)
-      return !::feof(file_) && !::ferror(file_);
+      return ulen_ > 0 || unit_ >= 0 || (!::feof(file_) && !::ferror(file_));
     if (istream_)
       return istream_->good();
     return false;
@@ -624,9 +624,9 @@ class Input {
     if (cstring_)
       return size_ == 0;
     if (wstring_)
-      return *wstring_ == L'\0';
+      return ulen_ == 0 && *wstring_ == L'\0';
     if (file_)
-      return ::feof(file_) != 0;
+      return ulen_ == 0 && unit_ < 0 && ::feof(file_) != 0;
     if (istream_)
       return istream_->eof();
     return true;
-- 
2.43.0


From 64e2333f3d0d8bf482d3ce4a7ab6f026e8781c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 052/110] fix: size() of an input disregarded converted bytes
 that are not read yet and the file position

---
 lib/input.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b75a461..80301e7 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -666,7 +666,13 @@ void Input::file_init(file_encoding_type enc)
   struct stat st;
   if (::fstat(::fileno(file_), &st) == 0 && S_ISREG(st.st_mode) && st.st_size <= 4294967295LL)
 #endif
+  {
     size_ = static_cast<size_t>(st.st_size);
+    // the size of the remaining input, the file may be positioned past its start
+    off_t k = ftello(file_);
+    if (k > 0)
+      size_ = k < static_cast<off_t>(size_) ? size_ - static_cast<size_t>(k) : 0;
+  }
 #endif
   // assume plain (ASCII, binary or UTF-8 without BOM) content by default
   utfx_ = file_encoding::plain;
@@ -1026,6 +1032,7 @@ size_t Input::file_get(char *s, size_t n)
 void Input::wstring_size()
 {
   unsigned int c;
+  size_ = ulen_;
   for (const wchar_t *s = wstring_; (c = *s) != L'\0'; ++s)
   {
     if (c >= 0xD800 && c < 0xE000)
@@ -1058,6 +1065,7 @@ void Input::file_size()
   {
     unsigned char buf[4];
     int unit = unit_;
+    size_ = ulen_;
     switch (utfx_)
     {
       case file_encoding::latin:
@@ -1186,7 +1194,7 @@ void Input::file_size()
         fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
-          size_ = static_cast<size_t>(n - k);
+          size_ += static_cast<size_t>(n - k);
     }
     ::clearerr(file_);
     fseeko(file_, k, SEEK_SET);
-- 
2.43.0


From ed5ade9df16ea7ea4586bcb6fd392e514b203fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 053/110] fix: negative UTF-32 and wide characters were passed
 on as bytes, size() differed

---
 include/reflex/input.h |  8 ++++++--
 lib/input.cpp          | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index 2ee4ba2..fbab4e1 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -679,7 +679,7 @@ class Input {
       wchar_t c;
       while ((c = *wstring_) != L'\0' && k > 0)
       {
-        if (c < 0x80)
+        if (static_cast<unsigned int>(c) < 0x80)
         {
           *s++ = static_cast<char>(c);
           --k;
@@ -687,7 +687,11 @@ class Input {
         else
         {
           size_t l;
-          if (c >= 0xD800 && c < 0xE000)
+          if (static_cast<unsigned int>(c) >= 0x80000000)
+          {
+            l = utf8(REFLEX_NONCHAR, utf8_);
+          }
+          else if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
             if (c < 0xDC00 && (wstring_[1] & 0xFC00) == 0xDC00)
diff --git a/lib/input.cpp b/lib/input.cpp
index 80301e7..e252de4 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -871,7 +871,9 @@ size_t Input::file_get(char *s, size_t n)
     case file_encoding::utf32be:
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
-        int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
+        int c = static_cast<int>(static_cast<unsigned int>(buf[0]) << 24) | buf[1] << 16 | buf[2] << 8 | buf[3];
+        if (c < 0)
+          c = REFLEX_NONCHAR;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -902,7 +904,9 @@ size_t Input::file_get(char *s, size_t n)
     case file_encoding::utf32le:
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
-        int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        int c = buf[0] | buf[1] << 8 | buf[2] << 16 | static_cast<int>(static_cast<unsigned int>(buf[3]) << 24);
+        if (c < 0)
+          c = REFLEX_NONCHAR;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -1050,9 +1054,9 @@ void Input::wstring_size()
     else
     {
 #ifndef WITH_UTF8_UNRESTRICTED
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
+      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c > 0x10FFFF);
 #else
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000);
+      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000 && c < 0x80000000);
 #endif
     }
   }
@@ -1171,7 +1175,9 @@ void Input::file_size()
       case file_encoding::utf32be:
         while (::fread(buf, 4, 1, file_) == 1)
         {
-          int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
+          int c = static_cast<int>(static_cast<unsigned int>(buf[0]) << 24) | buf[1] << 16 | buf[2] << 8 | buf[3];
+          if (c < 0)
+            c = REFLEX_NONCHAR;
 #ifndef WITH_UTF8_UNRESTRICTED
           if (c > 0x10FFFF)
             c = REFLEX_NONCHAR;
@@ -1182,7 +1188,9 @@ void Input::file_size()
       case file_encoding::utf32le:
         while (::fread(buf, 4, 1, file_) == 1)
         {
-          int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+          int c = buf[0] | buf[1] << 8 | buf[2] << 16 | static_cast<int>(static_cast<unsigned int>(buf[3]) << 24);
+          if (c < 0)
+            c = REFLEX_NONCHAR;
 #ifndef WITH_UTF8_UNRESTRICTED
           if (c > 0x10FFFF)
             c = REFLEX_NONCHAR;
-- 
2.43.0


From 8614ff346bfa3dd989576a9bedda8a891b20a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 054/110] fix: declared file encodings garbled or lost the
 first bytes of the file, overflowed utf8_[], left the code page unset

---
 include/reflex/input.h |   2 +-
 lib/input.cpp          | 129 ++++++++++-------------------------------
 2 files changed, 31 insertions(+), 100 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index fbab4e1..5ac1d92 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -790,7 +790,7 @@ class Input {
   FILE                 *file_;    ///< FILE* input (when non-null)
   std::istream         *istream_; ///< stream input (when non-null)
   size_t                size_;    ///< size of the remaining input in bytes (size_ == 0 may indicate size is not set)
-  char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
+  char                  utf8_[16]; ///< UTF-8 normalization buffer, >=12 bytes to translate up to 4 bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
   int                   unit_;    ///< UTF-16 code unit of the file that was read ahead or -1 if none
diff --git a/lib/input.cpp b/lib/input.cpp
index e252de4..d0390e5 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1227,14 +1227,20 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
 {
   if (file_ && utfx_ != enc)
   {
+    if (enc > file_encoding::latin && enc < file_encoding::custom)
+      page_ = codepages[enc - file_encoding::latin - 1];
+    else if (enc == file_encoding::custom && page != NULL)
+      page_ = page;
+    else if (enc == file_encoding::custom)
+      enc = file_encoding::plain;
     if (utfx_ == file_encoding::plain && ulen_ > 0)
     {
       // translate (non-BOM) plain bytes (1 to 4 bytes) buffered in utf8_[]
       unsigned char buf[sizeof(utf8_)];
       std::memcpy(buf, utf8_, sizeof(utf8_));
-      unsigned char *b = buf;
+      unsigned char *b = buf + uidx_;
       char *t = utf8_;
-      int c1, c2;
+      int c1;
       switch (enc)
       {
         case file_encoding::latin:
@@ -1280,7 +1286,7 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
         case file_encoding::koi8_r:
         case file_encoding::koi8_u:
         case file_encoding::koi8_ru:
-          page_ = codepages[enc - file_encoding::latin - 1];
+        case file_encoding::custom:
           while (ulen_-- > 0)
           {
             c1 = page_[*b++];
@@ -1292,113 +1298,38 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
           uidx_ = 0;
           ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
-        case file_encoding::custom:
-          if (page)
-          {
-            page_ = page;
-            while (ulen_-- > 0)
-            {
-              c1 = page_[*b++];
-              if (c1 < 0x80)
-                *t++ = static_cast<char>(c1);
-              else
-                t += utf8(c1, t);
-            }
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          else
-          {
-            enc = file_encoding::plain;
-          }
-          break;
         case file_encoding::utf16be:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] << 8 | b[1];
-              c2 = b[2] << 8 | b[3];
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
-          break;
         case file_encoding::utf16le:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
+          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8, the last code unit is kept to be decoded by file_get()
+          if ((ulen_ & 1) != 0 && ::fread(b + ulen_, 1, 1, file_) == 1)
+            ++ulen_;
+          while (ulen_ >= 2)
           {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] | b[1] << 8;
-              c2 = b[2] | b[3] << 8;
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
+            if (unit_ >= 0)
+              t += utf8(unit_, t);
+            unit_ = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+            b += 2;
+            ulen_ -= 2;
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
         case file_encoding::utf32be:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          break;
         case file_encoding::utf32le:
           // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
+          ulen_ += static_cast<unsigned short>(::fread(b + ulen_, 1, 4 - ulen_, file_));
+          if (ulen_ == 4)
           {
-            c1 = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+            if (enc == file_encoding::utf32be)
+              c1 = static_cast<int>(static_cast<unsigned int>(b[0]) << 24) | b[1] << 16 | b[2] << 8 | b[3];
+            else
+              c1 = b[0] | b[1] << 8 | b[2] << 16 | static_cast<int>(static_cast<unsigned int>(b[3]) << 24);
+            if (c1 < 0)
+              c1 = REFLEX_NONCHAR;
             t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
         default:
           break;
-- 
2.43.0


From dc09a876b84d660e2856b7c0a8acd4b0d5d9f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 055/110] fix: wide character beyond U+FFFF taken for the
 second half of a surrogate pair

---
 include/reflex/input.h | 2 +-
 lib/input.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index 5ac1d92..6c3dd00 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -694,7 +694,7 @@ class Input {
           else if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && (wstring_[1] & 0xFC00) == 0xDC00)
+            if (c < 0xDC00 && wstring_[1] >= 0xDC00 && wstring_[1] < 0xE000)
               l = utf8(0x010000 - 0xDC00 + ((c - 0xD800) << 10) + *++wstring_, utf8_);
             else
               l = utf8(REFLEX_NONCHAR, utf8_);
diff --git a/lib/input.cpp b/lib/input.cpp
index d0390e5..251cd27 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1041,7 +1041,7 @@ void Input::wstring_size()
   {
     if (c >= 0xD800 && c < 0xE000)
     {
-      if (c < 0xDC00 && (s[1] & 0xFC00) == 0xDC00)
+      if (c < 0xDC00 && s[1] >= 0xDC00 && s[1] < 0xE000)
       {
         ++s;
         size_ += 4;
-- 
2.43.0


From 00b56909caedeeae09bc630ce6724b6c06ab8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 056/110] fix: inline modifiers of a converted regex did not
 override the conversion flags, and did not apply to negated lists and
 comments

---
 lib/convert.cpp | 52 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index caf1bbf..489c6dd 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -188,13 +188,27 @@ inline void disable_modifier(int c, const char *pattern, size_t pos, std::map<si
   mod[lev].push_back(uppercase(c));
 }
 
+// a modifier that is supported by the regex library is marked, this marks the modifier c as enabled by the library
+inline int supported_modifier(int c)
+{
+  return c & 0x1F;
+}
+
+// record a modifier supported by the regex library, no effect on other letters and digits used in (?...)
+inline void record_modifier(int c, bool enable, std::map<size_t,std::string>& mod, size_t lev)
+{
+  if (c == 'i' || c == 's' || c == 'x')
+    mod[lev].push_back(enable ? supported_modifier(c) : uppercase(c));
+}
+
+// true if modifier c is enabled, either to convert the regex or by the regex library when supported
 inline bool is_modified(const std::map<size_t,std::string>& mod, int c)
 {
   for (std::map<size_t,std::string>::const_reverse_iterator i = mod.rbegin(); i != mod.rend(); ++i)
   {
     for (std::string::const_iterator a = i->second.begin(); a != i->second.end(); ++a)
     {
-      if (c == *a)
+      if (c == *a || supported_modifier(c) == *a)
         return true;
       if (uppercase(c) == *a)
         return false;
@@ -203,6 +217,22 @@ inline bool is_modified(const std::map<size_t,std::string>& mod, int c)
   return false;
 }
 
+// true if modifier c is enabled to convert the regex, i.e. not enabled by the regex library
+inline bool is_converted(const std::map<size_t,std::string>& mod, int c)
+{
+  for (std::map<size_t,std::string>::const_reverse_iterator i = mod.rbegin(); i != mod.rend(); ++i)
+  {
+    for (std::string::const_iterator a = i->second.begin(); a != i->second.end(); ++a)
+    {
+      if (c == *a)
+        return true;
+      if (uppercase(c) == *a || supported_modifier(c) == *a)
+        return false;
+    }
+  }
+  return false;
+}
+
 inline bool supports_modifier(const char *signature, int c)
 {
   const char *escapes = std::strchr(signature, ':');
@@ -1224,7 +1254,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
     }
     if (wc > 0xFF)
       throw regex_error(regex_error::invalid_escape, pattern, pos);
-    if (std::isalpha(wc) && is_modified(mod, 'i'))
+    if (std::isalpha(wc) && is_converted(mod, 'i'))
     {
       // anycase: translate A to [Aa]
       regex.append(&pattern[loc], pos - loc - 1).push_back('[');
@@ -1271,7 +1301,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
         if (wc <= 0xFF)
         {
           // translate \u{X}, \u00XX (convert_flag::u4) and \x{X} to \xXX
-          if (std::isalpha(wc) && is_modified(mod, 'i'))
+          if (std::isalpha(wc) && is_converted(mod, 'i'))
           {
             // anycase: translate A to [Aa]
             regex.append(&pattern[loc], pos - loc - 1).push_back('[');
@@ -1447,6 +1477,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (supports_modifier(signature, pattern[k]))
         {
           mods.push_back(pattern[k]);
+          record_modifier(pattern[k], true, mod, lev);
         }
         else if (pattern[k] == 'm')
         {
@@ -1460,7 +1491,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       else
       {
         if (supports_modifier(signature, pattern[k]))
+        {
           unmods.push_back(pattern[k]);
+          record_modifier(pattern[k], false, mod, lev);
+        }
         else if (pattern[k] == 'm')
           throw regex_error(regex_error::invalid_modifier, pattern, pos);
         else
@@ -1658,14 +1692,20 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                   else if (!invert)
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       mods.push_back(pattern[k]);
+                      record_modifier(pattern[k], true, mod, lev);
+                    }
                     else
                       enable_modifier(pattern[k], pattern, k, mod, lev);
                   }
                   else
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       unmods.push_back(pattern[k]);
+                      record_modifier(pattern[k], false, mod, lev);
+                    }
                     else
                       disable_modifier(pattern[k], pattern, k, mod, lev);
                   }
@@ -2038,7 +2078,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (is_modified(mod, 'u') && (pos + 1 >= len || (pattern[pos + 1] != '*' && pattern[pos + 1] != '+')))
         {
           // unicode: translate . to match any UTF-8 so . matches anything (also beyond U+10FFFF)
-          if (is_modified(mod, 's'))
+          if (is_converted(mod, 's'))
           {
             regex.append(&pattern[loc], pos - loc).append(par).append("[\\x00-\\xff][\\x80-\\xbf]*)");
             loc = pos + 1;
@@ -2053,7 +2093,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             loc = pos + 1;
           }
         }
-        else if (is_modified(mod, 's'))
+        else if (is_converted(mod, 's'))
         {
           // dotall: translate . to [\x00-\xff]
           regex.append(&pattern[loc], pos - loc).append("[\\x00-\\xff]");
@@ -2115,7 +2155,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       default:
         if (std::isalpha(pattern[pos]))
         {
-          if (is_modified(mod, 'i'))
+          if (is_converted(mod, 'i'))
           {
             // anycase: translate A to [Aa]
             regex.append(&pattern[loc], pos - loc).push_back('[');
-- 
2.43.0


From e6bfef6cb9b78ff75b2b4188ab178ddaa812a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 057/110] fix: a literal ? at the start of a \( \) group of a
 converted basic regex was taken for a modifier

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 489c6dd..bda73d2 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1651,7 +1651,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         else
         {
           ++lev;
-          if (pos + 1 < len && pattern[pos + 1] == '?')
+          if (!(flags & convert_flag::basic) && pos + 1 < len && pattern[pos + 1] == '?')
           {
             ++pos;
             if (pos + 1 < len)
-- 
2.43.0


From d2438d5e4bf932c9ed6a99265437e33107ab4809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:47 +0000
Subject: [PATCH 058/110] fix: converted (?:X) lost its opening parenthesis
 when the regex library does not support (?:

---
 lib/convert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index bda73d2..b595cba 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1744,6 +1744,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                         regex.append("-").append(unmods);
                       regex.push_back(':');
                     }
+                    else
+                    {
+                      regex.append("(");
+                    }
                   }
                   pos = k;
                   loc = pos + 1;
-- 
2.43.0


From 05d74f5169308a6abe528f49d7caafdc73256414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 059/110] fix: dotall conversion limits . to U+00FF when the
 regex library supports Unicode

---
 lib/convert.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index b595cba..08478c5 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2082,7 +2082,13 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (is_modified(mod, 'u') && (pos + 1 >= len || (pattern[pos + 1] != '*' && pattern[pos + 1] != '+')))
         {
           // unicode: translate . to match any UTF-8 so . matches anything (also beyond U+10FFFF)
-          if (is_converted(mod, 's'))
+          if (is_converted(mod, 's') && supports_escape(signature, 'p'))
+          {
+            // \p is supported: this indicates that . is Unicode
+            regex.append(&pattern[loc], pos - loc).append("[\\x{0}-\\x{10ffff}]");
+            loc = pos + 1;
+          }
+          else if (is_converted(mod, 's'))
           {
             regex.append(&pattern[loc], pos - loc).append(par).append("[\\x00-\\xff][\\x80-\\xbf]*)");
             loc = pos + 1;
@@ -2100,7 +2106,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         else if (is_converted(mod, 's'))
         {
           // dotall: translate . to [\x00-\xff]
-          regex.append(&pattern[loc], pos - loc).append("[\\x00-\\xff]");
+          if (supports_escape(signature, 'p'))
+            regex.append(&pattern[loc], pos - loc).append("[\\x{0}-\\x{10ffff}]");
+          else
+            regex.append(&pattern[loc], pos - loc).append("[\\x00-\\xff]");
           loc = pos + 1;
         }
         else if (!supports_modifier(signature, 's') && !supports_escape(signature, '.'))
-- 
2.43.0


From 4ddf2e721e92a4378c7312708f7dee647c28f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 060/110] fix: \u in bracket lists is not converted when the
 regex library supports Unicode classes

---
 lib/convert.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 08478c5..3bd5a9e 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -498,6 +498,30 @@ static void expand_list(const char *pattern, size_t len, size_t& loc, size_t& po
           regex.append(&pattern[loc], pos - loc - 1).append("\\h\\x0b-\\r\\x85\\xa0");
         loc = pos + 1;
       }
+      else if (c == 'u' || c == 'x')
+      {
+        // translate \u{X}, \uXXXX (convert_flag::u4) and \x{X} to \xXX and \x{X}
+        size_t k = pos;
+        int wc = convert_hex(pattern, len, k, flags);
+        if (wc >= 0)
+        {
+          char buf[16];
+          if (c == 'u' && wc >= 0xD800 && wc < 0xE000)
+          {
+            // translate surrogate pair \uDXXX\uDYYY
+            if (k + 2 >= len || pattern[k + 1] != '\\' || pattern[k + 2] != 'u')
+              throw regex_error(regex_error::invalid_escape, pattern, k);
+            k += 2;
+            int c2 = convert_hex(pattern, len, k, flags);
+            if (c2 < 0 || (c2 & 0xFC00) != 0xDC00)
+              throw regex_error(regex_error::invalid_escape, pattern, k - 2);
+            wc = 0x010000 - 0xDC00 + ((wc - 0xD800) << 10) + c2;
+          }
+          regex.append(&pattern[loc], pos - loc - 1).append(hex_escape(buf, wc));
+          loc = k + 1;
+          pos = k;
+        }
+      }
       else if (c == 'n')
       {
         no_newline = false;
-- 
2.43.0


From e217b6f21b753ffc86ddbf05ebfbab467ca42375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 061/110] fix: UTF-16 surrogate pairs in bracket lists are not
 converted

---
 lib/convert.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 3bd5a9e..0230ef4 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -675,6 +675,17 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
     c = convert_hex(pattern, len, k, flags);
     if (c >= 0)
     {
+      if (pattern[pos] == 'u' && c >= 0xD800 && c < 0xE000)
+      {
+        // translate surrogate pair \uDXXX\uDYYY
+        if (k + 2 >= len || pattern[k + 1] != '\\' || pattern[k + 2] != 'u')
+          throw regex_error(regex_error::invalid_escape, pattern, k);
+        k += 2;
+        int c2 = convert_hex(pattern, len, k, flags);
+        if (c2 < 0 || (c2 & 0xFC00) != 0xDC00)
+          throw regex_error(regex_error::invalid_escape, pattern, k - 2);
+        c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + c2;
+      }
       pos = k;
     }
     else
-- 
2.43.0


From 97819faecd97118006a15f43b5a7195114f87809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 062/110] fix: quoted text in a converted regex disregarded the
 anycase conversion flag

---
 lib/convert.cpp | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 0230ef4..75599d1 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1462,6 +1462,32 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
   }
 }
 
+// convert a character of quoted text when it should be escaped, converted to anycase, or not be removed as free space
+static void convert_quoted(const char *pattern, size_t& loc, size_t pos, const char *signature, const std::map<size_t,std::string>& mod, std::string& regex)
+{
+  int c = static_cast<unsigned char>(pattern[pos]);
+  if (std::strchr(regex_meta, c) != NULL)
+  {
+    regex.append(&pattern[loc], pos - loc).push_back('\\');
+    loc = pos;
+  }
+  else if (c < 0x80 && std::isalpha(c) && is_converted(mod, 'i'))
+  {
+    // anycase: translate A to [Aa]
+    regex.append(&pattern[loc], pos - loc).push_back('[');
+    regex.push_back(c);
+    regex.push_back(c ^ 0x20);
+    regex.push_back(']');
+    loc = pos + 1;
+  }
+  else if (std::isspace(c) && is_modified(mod, 'x') && !is_converted(mod, 'x'))
+  {
+    // freespace mode of the regex library: translate space to \xXX
+    regex.append(&pattern[loc], pos - loc).append(latin1(c, c, hex_or_octal_escape(signature)));
+    loc = pos + 1;
+  }
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 //                                                                            //
 //  Regex converter                                                           //
@@ -1581,18 +1607,14 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         c = pattern[++pos];
         if (c == 'Q')
         {
-          if (!supports_escape(signature, 'Q'))
+          if (!supports_escape(signature, 'Q') || is_converted(mod, 'i'))
           {
             // \Q is not a supported escape, translate by grouping and escaping meta chars up to the closing \E
             regex.append(&pattern[loc], pos - loc - 1);
             size_t k = loc = ++pos;
             while (pos + 1 < len && (pattern[pos] != '\\' || pattern[pos + 1] != 'E'))
             {
-              if (std::strchr(regex_meta, pattern[pos]) != NULL)
-              {
-                regex.append(&pattern[loc], pos - loc).push_back('\\');
-                loc = pos;
-              }
+              convert_quoted(pattern, loc, pos, signature, mod, regex);
               ++pos;
             }
             if (pos + 1 >= len || pattern[pos] != '\\')
@@ -1937,7 +1959,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if ((flags & convert_flag::lex))
         {
           // lex: translate "..."
-          if (!supports_escape(signature, 'Q'))
+          if (!supports_escape(signature, 'Q') || is_converted(mod, 'i'))
           {
             // \Q is not a supported escape, translate "..." by grouping and escaping meta chars while removing \ from \"
             regex.append(&pattern[loc], pos - loc).append(par);
@@ -1949,10 +1971,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                 regex.append(&pattern[loc], pos - loc);
                 loc = ++pos;
               }
-              else if (std::strchr(regex_meta, pattern[pos]) != NULL)
+              else
               {
-                regex.append(&pattern[loc], pos - loc).push_back('\\');
-                loc = pos;
+                convert_quoted(pattern, loc, pos, signature, mod, regex);
               }
               ++pos;
             }
-- 
2.43.0


From c41894730b6f2e4e82e63445f2236b8f3df95ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 063/110] fix: bracket lists disregarded the anycase conversion
 flag when the regex library supports Unicode classes

---
 lib/convert.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 75599d1..a58bf2b 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1938,8 +1938,20 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         }
         else if (supports_escape(signature, 'p'))
         {
+          bool anycase = is_converted(mod, 'i') && supports_modifier(signature, 'i');
+          if (anycase)
+          {
+            // anycase: translate [...] to (?i:[...])
+            regex.append(&pattern[loc], pos - loc).append("(?i:");
+            loc = pos;
+          }
           ++pos;
           expand_list(pattern, len, loc, pos, flags, mod, signature, par, macros, regex);
+          if (anycase)
+          {
+            regex.append(&pattern[loc], pos + 1 - loc).push_back(')');
+            loc = pos + 1;
+          }
           anc = false;
           beg = false;
         }
-- 
2.43.0


From 450f01a390c0a2fc8ad457aedb2b9f46f8f37736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 064/110] fix: quantifier separated by free space from a
 converted UTF-8 sequence was applied to the last byte

---
 lib/convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index a58bf2b..638e225 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2254,7 +2254,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           while (pos + 1 < len && ((c = pattern[++pos]) & 0xC0) == 0x80)
             continue;
           if (pos < len &&
-              (pattern[pos] == '*' ||
+              ((is_modified(mod, 'x') && (c & 0xC0) != 0x80) || // free space may separate the quantifier
+               pattern[pos] == '*' ||
                ((flags & convert_flag::basic) && pos + 1 < len ?
                 (pattern[pos] == '\\' && (pattern[pos + 1] == '?' || pattern[pos + 1] == '+' || pattern[pos + 1] == '{')) :
                 (pattern[pos] == '?' || pattern[pos] == '+' || pattern[pos] == '{'))))
-- 
2.43.0


From 985d28affa1b1394b5f95f266f84c5d9c8ccb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 065/110] fix: negation, intersection and subtraction in the
 second operand of a bracket list union were applied to the first operand

---
 lib/convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 638e225..6ee04b0 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -848,10 +848,12 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void merge_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros)
 {
+  ORanges<int> merge;
   if (pattern[pos] == '[')
   {
     ++pos;
-    insert_list(pattern, len, pos, flags, mod, ranges, macros);
+    insert_list(pattern, len, pos, flags, mod, merge, macros);
+    ranges |= merge;
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -860,7 +862,8 @@ static void merge_list(const char *pattern, size_t len, size_t& pos, convert_fla
     if (list.size() < 2 || list.at(0) != '[')
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
-    insert_list(list.c_str(), list.size(), subpos, flags, mod, ranges, macros);
+    insert_list(list.c_str(), list.size(), subpos, flags, mod, merge, macros);
+    ranges |= merge;
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
-- 
2.43.0


From 3cd47419e9cf447e3e1d0be77aee02c32a06a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 066/110] fix: quantifier after a Unicode class of one range
 was applied to the last byte

---
 lib/convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 6ee04b0..0bd7e15 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -163,7 +163,8 @@ static std::string unicode_class(const char *s, int esc, convert_flag_type flags
         regex.append("|").append(utf8(wc[0], wc[1], esc, par, !(flags & convert_flag::permissive)));
     }
   }
-  if (regex.find('|') != std::string::npos)
+  // group alternatives and sequences of UTF-8 bytes, a class of ASCII characters is a single bracket list or character
+  if (regex.find('|') != std::string::npos || (wc != NULL && (s[0] == '^' || *(wc - 1) > 0x7F)))
     regex.insert(0, par).push_back(')');
   return regex;
 }
-- 
2.43.0


From 2c17f614b900fcdce5523e5b334b2736eed93733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 067/110] fix: escaped # in a converted regex started a comment
 in freespace mode of the regex library

---
 lib/convert.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 0bd7e15..98d6a01 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1096,6 +1096,11 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 static void convert_escape_char(const char *pattern, size_t len, size_t& loc, size_t& pos, convert_flag_type flags, const char *signature, const std::map<size_t,std::string>& mod, const char *par, std::string& regex)
 {
   int c = pattern[pos];
+  if (c == '#' && is_modified(mod, 'x'))
+  {
+    // keep \# to not start a comment in freespace mode
+    return;
+  }
   if (std::strchr(regex_unescapes, c) != NULL)
   {
     // translate \x to x
-- 
2.43.0


From 5974995083c1a0268170364b9292ca0470562c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 068/110] fix: quantifier after an escaped character U+0080 to
 U+00FF was applied to the last byte

---
 lib/convert.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 98d6a01..8a761c4 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -266,6 +266,15 @@ inline int hex_or_octal_escape(const char *signature)
 //                                                                            //
 ////////////////////////////////////////////////////////////////////////////////
 
+// UTF-8 regex of a character up to U+00FF, a sequence of two bytes is grouped for a quantifier that may follow
+static std::string utf8_group(int wc, int esc, const char *par)
+{
+  std::string regex(utf8(wc, wc, esc, par));
+  if (wc > 0x7F)
+    regex.insert(0, par).push_back(')');
+  return regex;
+}
+
 static const char* hex_escape(char *buf, int wc)
 {
   static const char digits[] = "0123456789abcdef";
@@ -1310,7 +1319,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
     {
       int esc = hex_or_octal_escape(signature);
       if (is_modified(mod, 'u'))
-        regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+        regex.append(&pattern[loc], pos - loc - 1).append(utf8_group(wc, esc, par));
       else
         regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
     }
@@ -1357,7 +1366,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
           {
             int esc = hex_or_octal_escape(signature);
             if (is_modified(mod, 'u'))
-              regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+              regex.append(&pattern[loc], pos - loc - 1).append(utf8_group(wc, esc, par));
             else
               regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
           }
-- 
2.43.0


From c17ee37bf818eb35f493357635536d2e9f7d107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 069/110] fix: a literal ? or + after \{n\} in a converted
 basic regex was taken for a quantifier

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 8a761c4..27f9c5a 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2123,7 +2123,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
               else
                 throw regex_error(regex_error::mismatched_braces, pattern, pos);
             }
-            if (pos + 1 < len && (pattern[pos + 1] == '?' || pattern[pos + 1] == '+') && !supports_escape(signature, pattern[pos + 1]))
+            if (pos + 1 < len && !(flags & convert_flag::basic) && (pattern[pos + 1] == '?' || pattern[pos + 1] == '+') && !supports_escape(signature, pattern[pos + 1]))
               throw regex_error(regex_error::invalid_quantifier, pattern, pos + 1);
           }
         }
-- 
2.43.0


From 16de8847efe9b8700b16dc27236c09c11f61e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 070/110] fix: \s in a bracket list removed a listed newline
 when newline is excluded from \s

---
 lib/convert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 27f9c5a..7bee599 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -786,8 +786,10 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   else if (c == 's' && (flags & convert_flag::notnewline))
   {
     // \s is the same as \p{Space} but without newline \n
-    insert_escape_class(pattern, pos, mod, ranges);
-    ranges.erase('\n');
+    ORanges<int> space;
+    insert_escape_class(pattern, pos, mod, space);
+    space.erase('\n');
+    ranges |= space;
     return -1;
   }
   else if (std::isalpha(c))
-- 
2.43.0


From d92235b9a157d8bf613b8621888f54e76ee2fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 071/110] fix: conversion does not terminate with a lead byte
 at the end

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 7bee599..8050c93 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2271,7 +2271,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           // unicode: group UTF-8 sequence
           regex.append(&pattern[loc], pos - loc);
           loc = pos;
-          while (pos + 1 < len && ((c = pattern[++pos]) & 0xC0) == 0x80)
+          while (++pos < len && ((c = pattern[pos]) & 0xC0) == 0x80)
             continue;
           if (pos < len &&
               ((is_modified(mod, 'x') && (c & 0xC0) != 0x80) || // free space may separate the quantifier
-- 
2.43.0


From 129c4f844359422eb501dcfe760018406226c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 072/110] fix: a regex that ends in an escape or in a bracket
 list is read beyond its end

---
 include/reflex/pattern.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 7d3761a..3e9b7f8 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -772,7 +772,7 @@ class Pattern {
   }
   Char at(Location k) const
   {
-    return static_cast<unsigned char>(rex_[k]);
+    return k < rex_.size() ? static_cast<unsigned char>(rex_[k]) : '\0';
   }
   bool eq_at(
       Location    loc,
-- 
2.43.0


From 9f79750ddf1b6feab76883bde536225e292ee95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 073/110] fix: an escape character at the end of a regex
 matches a control character

---
 lib/pattern.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 17187b0..9853fb3 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1168,6 +1168,12 @@ void Pattern::parse4(
 Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
 {
   Char c = at(++loc);
+  if (c == '\0')
+  {
+    // no character to escape
+    error(regex_error::invalid_escape, loc);
+    return META_EOL;
+  }
   if (c == '0')
   {
     c = 0;
-- 
2.43.0


From 5c76e649a974528aea082c655893cbcfe3f9170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 074/110] fix: an error message reads beyond the end of a regex
 that ends in a broken UTF-8 sequence

---
 lib/error.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/error.cpp b/lib/error.cpp
index 1d16046..f2971db 100644
--- a/lib/error.cpp
+++ b/lib/error.cpp
@@ -111,7 +111,8 @@ size_t regex_error::displen(const char *s, size_t k)
         ++n;
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
+        for (int i = 0; i < 3 && *s != '\0'; ++i)
+          ++s;
         k -= 3;
       }
       else
@@ -147,7 +148,8 @@ const char *regex_error::disppos(const char *s, size_t k)
         // U+1F18E (UTF-8 F0 9F 86 8E) and higher is usually double width
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
+        for (int i = 0; i < 3 && *s != '\0'; ++i)
+          ++s;
         k -= 3;
       }
       else
-- 
2.43.0


From 28cffc35273659b8da3d038cd8b84c57ec31d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 075/110] fix: an empty alternative or a sole anchor has
 undefined nullability and the positions of the alternative before it

---
 lib/pattern.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 9853fb3..f4cfee7 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -600,6 +600,11 @@ void Pattern::parse2(
   DBGLOG("BEGIN parse2(%u)", loc);
   Positions a_pos;
   Char      c;
+  firstpos.clear();
+  lastpos.clear();
+  nullable = true;
+  lazyset.clear();
+  iter = 1;
   if (begin)
   {
     while (true)
-- 
2.43.0


From 486672e6be344debb8a5975303e1ac68d5ce38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:41 +0000
Subject: [PATCH 076/110] fix: matching a repeated anchor does not terminate

---
 include/reflex/matcher.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 60ba64e..edba57b 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -514,6 +514,8 @@ redo:
           Pattern::Index jumps[64]; // where to jump to, to the states of all matching metas
           size_t njumps = 0;
           size_t jumpmax = sizeof(jumps) / sizeof(*jumps);
+          Pattern::Index seen[64]; // states visited by jumping, each one is visited once
+          size_t nseen = 0;
           bool dent = false; // an indent, dedent or undent match takes precedence
           while (true)
           {
@@ -730,7 +732,16 @@ redo:
                   continue;
               }
             }
-            if (njumps == 0)
+            while (njumps > 0)
+            {
+              size_t i = 0;
+              while (i < nseen && seen[i] != jumps[njumps - 1])
+                ++i;
+              if (i == nseen)
+                break;
+              --njumps;
+            }
+            if (njumps == 0 || nseen == sizeof(seen) / sizeof(*seen))
             {
               if (back != Pattern::Const::IMAX)
               {
@@ -741,7 +752,8 @@ redo:
             }
             if (back == Pattern::Const::IMAX)
               back = static_cast<Pattern::Index>(pc - pat_->opc_);
-            pc = pat_->opc_ + jumps[--njumps];
+            seen[nseen++] = jumps[--njumps];
+            pc = pat_->opc_ + jumps[njumps];
             jumpmax = sizeof(jumps) / sizeof(*jumps);
             DBGLOG("Jump: pc = %zu", static_cast<size_t>(pc - pat_->opc_));
             opcode = *pc;
-- 
2.43.0


From 864e7747d2fdc72384e3a8735dbe8bd992215074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 077/110] fix: the position of a regex error may lie behind the
 regex

---
 include/reflex/error.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/reflex/error.h b/include/reflex/error.h
index 4e2ef8b..9e22629 100644
--- a/include/reflex/error.h
+++ b/include/reflex/error.h
@@ -39,6 +39,7 @@
 
 #include <cstdio>
 #include <stdexcept>
+#include <cstring>
 #include <string>
 
 namespace reflex {
@@ -87,7 +88,7 @@ class regex_error : public std::runtime_error {
     :
       std::runtime_error(regex_error_message_code(code, pattern.c_str(), pos)),
       code_(code),
-      pos_(pos)
+      pos_(within(pos, pattern.size()))
   { }
   /// Construct regex error info.
   regex_error(
@@ -97,7 +98,7 @@ class regex_error : public std::runtime_error {
     :
       std::runtime_error(regex_error_message_code(code, pattern, pos)),
       code_(code),
-      pos_(pos)
+      pos_(within(pos, std::strlen(pattern)))
   { }
   /// Construct regex error info.
   regex_error(
@@ -107,7 +108,7 @@ class regex_error : public std::runtime_error {
     :
       std::runtime_error(regex_error_message(message, pattern.c_str(), pos)),
       code_(invalid_syntax),
-      pos_(pos)
+      pos_(within(pos, pattern.size()))
   { }
   /// Construct regex error info.
   regex_error(
@@ -117,7 +118,7 @@ class regex_error : public std::runtime_error {
     :
       std::runtime_error(regex_error_message(message, pattern, pos)),
       code_(invalid_syntax),
-      pos_(pos)
+      pos_(within(pos, std::strlen(pattern)))
   { }
   /// Returns error code, a reflex::regex_error_type constant.
   regex_error_type code()
@@ -132,6 +133,11 @@ class regex_error : public std::runtime_error {
     return pos_;
   }
  private:
+  /// Returns position of the error, the end of the regex at most.
+  static size_t within(size_t pos, size_t len)
+  {
+    return pos < len ? pos : len;
+  }
   static std::string regex_error_message_code(
       regex_error_type code,
       const char      *pattern,
-- 
2.43.0


From ac5e5b070a279cc7a329e47b6c5bfe54048120aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 078/110] fix: a lookahead that is followed by more of the
 pattern moves the end of a match that was not made

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index f4cfee7..4e82497 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1763,7 +1763,7 @@ void Pattern::compile_transition(
           {
             Locations::const_iterator j = i->second.find(loc);
             DBGLOGN("%d %d (%d) %u", state->accept, i->first, j != i->second.end(), n);
-            if (j != i->second.end() && (accept == 0 || accept == static_cast<Accept>(i->first))) // only add lookstop when part of the proper accept state
+            if (j != i->second.end() && accept == static_cast<Accept>(i->first)) // only add lookstop when part of the proper accept state
             {
               Lookahead l = n + static_cast<Lookahead>(std::distance(i->second.begin(), j));
               if (l < n)
-- 
2.43.0


From 3e8376b1440325dc0ec74d0a7704108ab5cacb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 079/110] fix: deeply nested parentheses in a regex overflow
 the stack

---
 include/reflex/pattern.h | 2 ++
 lib/pattern.cpp          | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 3e9b7f8..4e28a53 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -71,6 +71,7 @@ class Pattern {
   typedef void (*FSM)(class Matcher&); ///< function pointer to FSM code
   /// Common constants.
   struct Const {
+    static const uint32_t NEST = 1000; ///< max nesting depth of subpatterns, limits the recursive descent of the parser
     static const Index  IMAX = 0xFFFFFFFF; ///< max index, also serves as a marker
     static const Index  GMAX = 0xFEFFFF;   ///< max goto index
     static const Accept AMAX = 0xFDFFFF;   ///< max accept
@@ -957,6 +958,7 @@ class Pattern {
     return h & ((Const::HASH - 1) >> 3);
   }
   Option                opt_; ///< pattern compiler options
+  Location              nst_; ///< nesting depth of the subpattern being parsed
   Tree                  tfa_; ///< tree DFA constructed from strings (regex uses firstpos/lastpos/followpos)
   DFA                   dfa_; ///< DFA constructed from regex with subset construction using firstpos/lastpos/followpos
   std::string           rex_; ///< regular expression string
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 4e82497..0061a44 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -332,6 +332,7 @@ void Pattern::parse(
   DBGLOG("BEGIN parse()");
   if (rex_.size() > Position::MAXLOC)
     throw regex_error(regex_error::exceeds_length, rex_, Position::MAXLOC);
+  nst_ = 0;
   Location   len = static_cast<Location>(rex_.size());
   Location   loc = 0;
   Accept     choice = 1;
@@ -923,6 +924,8 @@ void Pattern::parse4(
   Char c = at(loc);
   if (c == '(')
   {
+    if (++nst_ > Const::NEST)
+      error(regex_error::exceeds_limits, loc);
     if (at(++loc) == '?')
     {
       c = at(++loc);
@@ -1072,6 +1075,7 @@ void Pattern::parse4(
       else
         error(regex_error::mismatched_parens, loc);
     }
+    --nst_;
   }
   else if (c == '[')
   {
-- 
2.43.0


From 070d3d240e56c022f96ed171336bcd46aada7297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 080/110] fix: matching a repeated \j does not terminate

---
 include/reflex/matcher.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index edba57b..a023f23 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -304,7 +304,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   /// FSM code DENT.
   inline bool FSM_DENT()
   {
-    if (ded_ > 0)
+    // a repeated \j may only be tried so often, to not try forever
+    if (ded_ > 0 && ++fsm_.dent < 256)
     {
       fsm_.nul = true;
       return true;
@@ -403,12 +404,13 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
   /// FSM data for FSM code
   struct FSM {
-    FSM() : bol(), nul(), find(), c1(), take() { }
+    FSM() : bol(), nul(), find(), c1(), take(), dent() { }
     bool   bol;
     bool   nul;
     bool   find; ///< method is Const::FIND
     int    c1;
     size_t take; ///< length of the last match taken
+    size_t dent; ///< number of times that a pending dedent was tried
   };
   /// Returns true if input matched the pattern using method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH.
   virtual size_t match(Method method) ///< Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
@@ -434,6 +436,7 @@ find:
 redo:
 #endif
     lap_.resize(0);
+    fsm_.dent = 0;
     cap_ = 0;
     bool nul = method == Const::MATCH;
     if (pat_->fsm_ != NULL)
@@ -493,7 +496,8 @@ redo:
             }
 #if !defined(WITH_NO_INDENT)
             case Pattern::META_DED - Pattern::META_MIN:
-              if (ded_ > 0)
+              // a repeated \j may only be tried so often, to not try forever
+              if (ded_ > 0 && ++fsm_.dent < 256)
               {
                 Pattern::Index jump = Pattern::index_of(opcode);
                 if (jump == Pattern::Const::LONG)
-- 
2.43.0


From 42b9d76eabcd549a3206c29985d48e6935decaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 081/110] fix: PCRE2Matcher scan() and matches() match at a
 later partial match

---
 include/reflex/pcre2matcher.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index f370e99..4a94a45 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -400,6 +400,14 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc == PCRE2_ERROR_PARTIAL)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
+        if (method != Const::FIND && method != Const::SPLIT)
+        {
+          if (ovector[0] != pos_) // SCAN and MATCH must be anchored, a partial match further ahead is not a match
+          {
+            cur_ = pos_;
+            return false;
+          }
+        }
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
           txt_ = buf_ + cur_;
-- 
2.43.0


From 8ec917f711d4f89b55bdf7a2d178d596fbf6995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 082/110] fix: PCRE2Matcher skips input when a scan() that does
 not match is followed by split()

---
 include/reflex/pcre2matcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 4a94a45..7a43a03 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -395,6 +395,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
             continue;
           return true;
         }
+        cur_ = pos_;
         rc = PCRE2_ERROR_NOMATCH; // SCAN and MATCH must be anchored (avoid PCRE2_ANCHORED that disables JIT)
       }
       if (rc == PCRE2_ERROR_PARTIAL)
-- 
2.43.0


From 3b74e089717cf2332db5d9ac5899636a63823815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 083/110] fix: PCRE2UTFMatcher fails to match when a read ends
 inside a UTF-8 character

---
 include/reflex/pcre2matcher.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 7a43a03..0ebddf2 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -359,12 +359,32 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
     DBGLOG("END PCRE2Matcher::match()");
     return cap_;
   }
+  /// Fetch the rest of a UTF-8 sequence that is incomplete at the end of the buffer, since PCRE2_UTF requires whole characters.
+  void complete()
+  {
+    while ((cop_ & PCRE2_UTF) != 0 && !eof_)
+    {
+      size_t k = 1;
+      while (k < 4 && k < end_ && (buf_[end_ - k] & 0xC0) == 0x80)
+        ++k;
+      if (k > end_)
+        return;
+      unsigned char c = static_cast<unsigned char>(buf_[end_ - k]);
+      if (c < 0xC0 || k >= (c < 0xE0 ? 2U : c < 0xF0 ? 3U : 4U))
+        return;
+      size_t back = end_ - pos_;
+      pos_ = end_;
+      (void)peek_more();
+      pos_ -= back;
+    }
+  }
   /// Perform next PCRE2 match, return true if a match is found.
   bool next_match(Method method) ///< match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
     /// @returns true when PCRE2 match found
   {
     if (pos_ == end_ && !eof_)
       (void)peek_more();
+    complete();
     uint32_t flg = flg_;
     if (!eof_)
       flg |= PCRE2_PARTIAL_HARD;
@@ -416,6 +436,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
         if (peek_more() == EOF && (flg & PCRE2_PARTIAL_HARD) == 0) // read more text into the buffer after end_
           return false;
         pos_ = cur_; // try again
+        complete();
       }
       else if (rc == PCRE2_ERROR_NOMATCH && (method == Const::FIND || method == Const::SPLIT))
       {
@@ -425,6 +446,9 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
             return false;
           flg &= ~(PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED);
           ++pos_;
+          if ((cop_ & PCRE2_UTF) != 0)
+            while (pos_ < end_ && (buf_[pos_] & 0xC0) == 0x80)
+              ++pos_;
           continue;
         }
         if (method == Const::FIND)
@@ -432,6 +456,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
         pos_ = end_;
         if (peek_more() == EOF) // read more text into the buffer after end_
           return false;
+        complete();
       }
       else
       {
-- 
2.43.0


From efdc82f4a2a63f03c8ac447c8f27000fffa4a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 084/110] fix: default constructed PCRE2Matcher compiles its
 pattern with uninitialized options

---
 include/reflex/pcre2matcher.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 0ebddf2..c1525fa 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -56,10 +56,14 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher()
     :
       PatternMatcher<std::string>(),
+      cop_(0),
+      flg_(0),
       opc_(NULL),
       dat_(NULL),
       ctx_(NULL),
-      stk_(NULL)
+      stk_(NULL),
+      grp_(0),
+      jit_(false)
   {
     reset();
   }
@@ -492,7 +496,9 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
   }
   /// Default constructor.
   PCRE2UTFMatcher() : PCRE2Matcher()
-  { }
+  {
+    cop_ = PCRE2_UTF | PCRE2_UCP;
+  }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
   PCRE2UTFMatcher(
-- 
2.43.0


From 8fb6b917847ab791519e0771007fdaf60f1fd372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 085/110] fix: BoostMatcher group_next_id() returns (1,NULL)
 instead of (0,NULL) after the last group

---
 include/reflex/boostmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b8fa915..bee4549 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -180,7 +180,7 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
         break;
     if (grp_ < n)
       return std::pair<size_t,const char*>(grp_, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
-    return std::pair<size_t,const char*>(1, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
+    return std::pair<size_t,const char*>(0, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
   }
  protected:
   /// The match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH, implemented with boost::regex.
-- 
2.43.0


From ef14d461422ce3786f7082ad2f2b95f0d2e74b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 086/110] fix: StdMatcher group_next_id() returns (1,NULL)
 instead of (0,NULL) after the last group

---
 include/reflex/stdmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index e2bc303..1fbdbb5 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -179,7 +179,7 @@ class StdMatcher : public PatternMatcher<std::regex> {
         break;
     if (grp_ < n)
       return std::pair<size_t,const char*>(grp_, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
-    return std::pair<size_t,const char*>(1, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
+    return std::pair<size_t,const char*>(0, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
   }
  protected:
   /// The match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH, implemented with std::regex.
-- 
2.43.0


From d5416d167cbeba6e63be51e0d5d6922cfa3b7d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 087/110] fix: PCRE2Matcher find() misses ^ at a line where the
 buffer was shifted

---
 include/reflex/pcre2matcher.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index c1525fa..44d7da6 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -435,7 +435,11 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
         }
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
+        {
           txt_ = buf_ + cur_;
+          if (cur_ > 0)
+            got_ = static_cast<unsigned char>(buf_[cur_ - 1]);
+        }
         pos_ = end_;
         if (peek_more() == EOF && (flg & PCRE2_PARTIAL_HARD) == 0) // read more text into the buffer after end_
           return false;
@@ -456,7 +460,11 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
           continue;
         }
         if (method == Const::FIND)
+        {
           txt_ = buf_ + end_;
+          if (end_ > 0)
+            got_ = static_cast<unsigned char>(buf_[end_ - 1]);
+        }
         pos_ = end_;
         if (peek_more() == EOF) // read more text into the buffer after end_
           return false;
@@ -471,6 +479,10 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
 #endif
         return false;
       }
+      if (at_bol()) // the buffer may have been shifted to the start of a line
+        flg &= ~PCRE2_NOTBOL;
+      else
+        flg |= PCRE2_NOTBOL;
       if (eof_)
         flg &= ~PCRE2_PARTIAL_HARD; // all remaining data read into the buffer, no more partial matching
     }
-- 
2.43.0


From 9d1b887b191cd9572d9e72311a96562ecb042ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 088/110] fix: BoostMatcher misses matches behind a partial
 match at the end of input

---
 include/reflex/boostmatcher.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index bee4549..f3e1deb 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -214,6 +214,11 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
         (void)peek_more();
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
       }
+      if (pos_ == end_ && eof_ && itr_ != fin_ && !(*itr_)[0].matched)
+      {
+        itr_ = fin_; // a partial match is not a match when there is no more input, search again
+        pos_ = cur_;
+      }
       if (pos_ == end_) // if pos_ is hitting the end_ then
       {
         if (method == Const::SPLIT)
@@ -338,6 +343,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
   {
     DBGLOGN("New iterator");
     boost::match_flag_type flg = flg_;
+    if (eof_)
+      flg = static_cast<boost::match_flag_type>(static_cast<unsigned>(flg) & ~static_cast<unsigned>(boost::regex_constants::match_partial));
     if (!at_bob())
       flg |= boost::regex_constants::match_not_bob;
     if (!at_bol())
-- 
2.43.0


From fd3f85b181accdae91a6664bdf873f4ccca6483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:24 +0000
Subject: [PATCH 089/110] fix: BoostMatcher anchors and word boundaries ignore
 characters read with input()

---
 include/reflex/boostmatcher.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index f3e1deb..b4b81a4 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -345,12 +345,19 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
     boost::match_flag_type flg = flg_;
     if (eof_)
       flg = static_cast<boost::match_flag_type>(static_cast<unsigned>(flg) & ~static_cast<unsigned>(boost::regex_constants::match_partial));
-    if (!at_bob())
+    if (!at_bob() || txt_ > buf_)
       flg |= boost::regex_constants::match_not_bob;
-    if (!at_bol())
-      flg |= boost::regex_constants::match_not_bol;
-    if (isword(got_))
-      flg |= boost::regex_constants::match_not_bow;
+    if (txt_ > buf_)
+    {
+      flg |= boost::regex_constants::match_prev_avail; // look behind in the buffer, got_ may be outdated by input()
+    }
+    else
+    {
+      if (!at_bol())
+        flg |= boost::regex_constants::match_not_bol;
+      if (isword(got_))
+        flg |= boost::regex_constants::match_not_bow;
+    }
     if (method == Const::SCAN)
       flg |= boost::regex_constants::match_continuous | boost::regex_constants::match_not_null;
     else if (method == Const::FIND && !opt_.N)
-- 
2.43.0


From 5289162b2d1025dab0c0d4fa0fbb4cd44f638b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:05 +0000
Subject: [PATCH 090/110] fix: PCRE2UTFMatcher corrupts memory on invalid UTF-8

---
 include/reflex/pcre2matcher.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 44d7da6..ddeded6 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -499,6 +499,13 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
 
 /// PCRE2 JIT-optimized native PCRE2_UTF+PCRE2_UCP matcher engine class, extends PCRE2Matcher.
 class PCRE2UTFMatcher : public PCRE2Matcher {
+ protected:
+  /// PCRE2 options to compile UTF patterns, JIT-compiled code does not check the input and requires PCRE2_MATCH_INVALID_UTF to handle invalid UTF-8 safely.
+#if defined(PCRE2_MATCH_INVALID_UTF)
+  static const uint32_t UTF = PCRE2_UTF | PCRE2_UCP | PCRE2_MATCH_INVALID_UTF;
+#else
+  static const uint32_t UTF = PCRE2_UTF | PCRE2_UCP;
+#endif
  public:
   /// Convert a regex to an acceptable form, given the specified regex library signature `"[decls:]escapes[?+]"`, see reflex::convert.
   template<typename T>
@@ -509,7 +516,7 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
   /// Default constructor.
   PCRE2UTFMatcher() : PCRE2Matcher()
   {
-    cop_ = PCRE2_UTF | PCRE2_UCP;
+    cop_ = UTF;
   }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
@@ -518,7 +525,7 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
       const Input& input = Input(), ///< input character sequence for this matcher
       const char  *opt = NULL)      ///< option string of the form `(A|N|T(=[[:digit:]])?|;)*`
     :
-      PCRE2Matcher(pattern, input, opt, PCRE2_UTF | PCRE2_UCP)
+      PCRE2Matcher(pattern, input, opt, UTF)
   { }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
@@ -527,7 +534,7 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
       const Input& input = Input(), ///< input character sequence for this matcher
       const char  *opt = NULL)      ///< option string of the form `(A|N|T(=[[:digit:]])?|;)*`
     :
-      PCRE2Matcher(pattern, input, opt, PCRE2_UTF | PCRE2_UCP)
+      PCRE2Matcher(pattern, input, opt, UTF)
   { }
 };
 
-- 
2.43.0


From cdca0ed9374acf779ba3de812015225e8b9ed6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 091/110] fix: copies of a Pattern are incomplete and a Pattern
 cannot be reassigned or copied from itself

---
 include/reflex/pattern.h | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 4e28a53..bd3f957 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -86,7 +86,10 @@ class Pattern {
       opc_(NULL),
       nop_(0),
       fsm_(NULL)
-  { }
+  {
+    clear();
+    init_options(NULL);
+  }
   /// Construct a pattern object given a regex string.
   explicit Pattern(
       const char *regex,
@@ -153,6 +156,10 @@ class Pattern {
   }
   /// Copy constructor.
   Pattern(const Pattern& pattern) ///< pattern to copy
+    :
+      opc_(NULL),
+      nop_(0),
+      fsm_(NULL)
   {
     operator=(pattern);
   }
@@ -170,6 +177,19 @@ class Pattern {
     opc_ = NULL;
     nop_ = 0;
     fsm_ = NULL;
+    end_.clear();
+    acc_.clear();
+    tfa_.clear();
+    dfa_.clear();
+    vno_ = 0;
+    eno_ = 0;
+    len_ = 0;
+    min_ = 0;
+    pms_ = 0;
+    vms_ = 0;
+    ems_ = 0;
+    wms_ = 0;
+    one_ = false;
   }
   /// Assign a (new) pattern.
   Pattern& assign(
@@ -225,6 +245,8 @@ class Pattern {
   /// Assign a (new) pattern.
   Pattern& operator=(const Pattern& pattern)
   {
+    if (this == &pattern)
+      return *this;
     clear();
     opt_ = pattern.opt_;
     rex_ = pattern.rex_;
@@ -236,6 +258,16 @@ class Pattern {
     vms_ = pattern.vms_;
     ems_ = pattern.ems_;
     wms_ = pattern.wms_;
+    len_ = pattern.len_;
+    min_ = pattern.min_;
+    one_ = pattern.one_;
+    if (!pattern.empty())
+    {
+      std::memcpy(pre_, pattern.pre_, sizeof(pre_));
+      std::memcpy(bit_, pattern.bit_, sizeof(bit_));
+      std::memcpy(pmh_, pattern.pmh_, sizeof(pmh_));
+      std::memcpy(pma_, pattern.pma_, sizeof(pma_));
+    }
     if (pattern.nop_ > 0 && pattern.opc_ != NULL)
     {
       nop_ = pattern.nop_;
@@ -246,6 +278,7 @@ class Pattern {
     }
     else
     {
+      opc_ = pattern.opc_;
       fsm_ = pattern.fsm_;
     }
     return *this;
-- 
2.43.0


From 7b54cd5f611e87be7a2fc5263ecd95e03b96123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 092/110] fix: reassigned Pattern keeps the file and name
 options of the previous pattern

---
 lib/pattern.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 0061a44..9afae00 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -247,6 +247,9 @@ void Pattern::init_options(const char *options)
   opt_.w = false;
   opt_.x = false;
   opt_.e = '\\';
+  opt_.f.clear();
+  opt_.n.clear();
+  opt_.z.clear();
   if (options != NULL)
   {
     for (const char *s = options; *s != '\0'; ++s)
-- 
2.43.0


From d2e7193493643bec9003f96430674f121f55ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 093/110] fix: Matcher searches with the Boyer-Moore tables of
 its previous pattern after pattern() or copying

---
 include/reflex/matcher.h | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index a023f23..9bcf6e4 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -105,9 +105,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
       tab_(matcher.tab_)
   {
     DBGLOG("Matcher::Matcher(matcher)");
-    bmd_ = matcher.bmd_;
-    if (bmd_ != 0)
-      std::memcpy(bms_, matcher.bms_, sizeof(bms_));
+    bmd_ = 0; // Boyer-Moore tables are initialized when needed
   }
   /// Assign a matcher.
   Matcher& operator=(const Matcher& matcher) ///< matcher to copy
@@ -115,11 +113,38 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::operator=(matcher);
     ded_ = matcher.ded_;
     tab_ = matcher.tab_;
-    bmd_ = matcher.bmd_;
-    if (bmd_ != 0)
-      std::memcpy(bms_, matcher.bms_, sizeof(bms_));
+    bmd_ = 0; // Boyer-Moore tables are initialized when needed
     return *this;
   }
+  using PatternMatcher<reflex::Pattern>::pattern;
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher<reflex::Pattern>& pattern(const Pattern& pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher<reflex::Pattern>& pattern(const Pattern *pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher<reflex::Pattern>& pattern(const char *pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher<reflex::Pattern>& pattern(const std::string& pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
   /// Polymorphic cloning.
   virtual Matcher *clone()
   {
-- 
2.43.0


From 0e72c1ef5409a456a1f02c8bec9489dd3fc3bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 094/110] fix: assigning a matcher leaks its pattern

---
 include/reflex/absmatcher.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 3dfa115..6d40b15 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1664,9 +1664,14 @@ class PatternMatcher : public AbstractMatcher {
     split.init(this, Const::SPLIT);
     in = matcher.in;
     reset();
-    opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    if (this != &matcher)
+    {
+      opt_ = matcher.opt_;
+      if (own_ && pat_ != NULL)
+        delete pat_;
+      pat_ = matcher.pat_;
+      own_ = false;
+    }
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
@@ -1817,9 +1822,14 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     split.init(this, Const::SPLIT);
     in = matcher.in;
     reset();
-    opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    if (this != &matcher)
+    {
+      opt_ = matcher.opt_;
+      if (own_ && pat_ != NULL)
+        delete pat_;
+      pat_ = matcher.pat_;
+      own_ = false;
+    }
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
-- 
2.43.0


From 556d550dcaca38e327b448fd80c1c579489c6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 095/110] fix: matcher pattern() with an invalid regex deletes
 the old pattern twice

---
 include/reflex/absmatcher.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 6d40b15..84058b1 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1714,9 +1714,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern);
+    const Pattern *newpat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
@@ -1725,9 +1726,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *newpat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
@@ -1858,9 +1860,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern);
+    const Pattern *newpat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
@@ -1869,9 +1872,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *newpat = new Pattern(pattern);
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = newpat;
     own_ = true;
     return *this;
   }
-- 
2.43.0


From 864c56065a04f165aa850c9fb8031a40dd9da3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:15 +0000
Subject: [PATCH 096/110] fix: assigning a PCRE2Matcher to itself uses its
 deleted pattern

---
 include/reflex/pattern.h      | 3 +++
 include/reflex/pcre2matcher.h | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index bd3f957..c3e7b91 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -541,6 +541,8 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      tree = NULL;
+      next = ALLOC;
     }
     /// return the root of the tree.
     Node *root()
@@ -620,6 +622,7 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      next = ALLOC;
     }
     /// new DFA state with optional tree DFA node.
     State *state(Tree::Node *node)
diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index ddeded6..73f90d5 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -141,7 +141,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher& operator=(const PCRE2Matcher& matcher) ///< matcher to copy
   {
     PatternMatcher<std::string>::operator=(matcher);
-    pattern(matcher);
+    if (this != &matcher)
+      pattern(matcher);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From 5002c70a7881c2e0b5065fabd94fbde01458d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:15 +0000
Subject: [PATCH 097/110] fix: split() after a find() without match returns
 text that find() passed over

---
 include/reflex/boostmatcher.h | 1 +
 include/reflex/pcre2matcher.h | 1 +
 include/reflex/stdmatcher.h   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b4b81a4..7e46bad 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -296,6 +296,7 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
             continue;
           len_ = 0;
           cap_ = 0;
+          cur_ = pos_;
           DBGLOGN("No match at EOF, pos = %zu", pos_);
           DBGLOG("END BoostMatcher::match()");
           return 0;
diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 73f90d5..dc7131e 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -360,6 +360,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       return cap_;
     }
     len_ = 0;
+    cur_ = pos_;
     DBGLOGN("No match, pos = %zu", pos_);
     DBGLOG("END PCRE2Matcher::match()");
     return cap_;
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index 1fbdbb5..1f4f4f8 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -298,6 +298,7 @@ class StdMatcher : public PatternMatcher<std::regex> {
             continue;
           len_ = 0;
           cap_ = 0;
+          cur_ = pos_;
           DBGLOGN("No match at EOF, pos = %zu", pos_);
           DBGLOG("END StdMatcher::match()");
           return 0;
-- 
2.43.0


From bc0600092c2fbd910d3e006f14fa7f92bb8d0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 098/110] fix: scan() after more() without a next match scanned
 the kept text again

---
 include/reflex/matcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 9bcf6e4..d31f1d2 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -447,6 +447,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     anc_ = false; // no word boundary anchor found and applied
 scan:
     txt_ = buf_ + cur_;
+    size_t skip = pos_ > cur_ ? pos_ - cur_ : 0; // length of the text kept by more()
 #if !defined(WITH_NO_INDENT)
     mrk_ = false;
     ind_ = pos_; // ind scans input in buf[] in newline() up to pos - 1
@@ -961,7 +962,8 @@ unrolled:
       }
       else
       {
-        // SCAN and MATCH: no match: backup to begin of unmatched text to report as error
+        // SCAN and MATCH: no match: backup to begin of unmatched text to report as error, after text kept by more()
+        txt_ += skip;
         cur_ = txt_ - buf_;
       }
     }
-- 
2.43.0


From 5829ee587d183f01b625f6f29c867179e5b81656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 099/110] fix: rules after an <<EOF>> rule that shares its
 action with a rule before it executed the action of another rule

---
 src/reflex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b9b29c2..976649a 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -3088,7 +3088,8 @@ void Reflex::write_lexer()
             *out <<
               "            break;\n";
         }
-        ++accept;
+        if (!eof_rule)
+          ++accept;
       }
     }
     *out <<
-- 
2.43.0


From f428286f5b1f6727137551e3cffdffaac88d77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 100/110] fix: quoted spaces in anycase and freespace lexer
 patterns were ignored

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 8050c93..f103aed 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1500,9 +1500,9 @@ static void convert_quoted(const char *pattern, size_t& loc, size_t pos, const c
     regex.push_back(']');
     loc = pos + 1;
   }
-  else if (std::isspace(c) && is_modified(mod, 'x') && !is_converted(mod, 'x'))
+  else if (std::isspace(c) && is_modified(mod, 'x'))
   {
-    // freespace mode of the regex library: translate space to \xXX
+    // freespace mode, which may also be enabled when the converted regex is used: translate space to \xXX
     regex.append(&pattern[loc], pos - loc).append(latin1(c, c, hex_or_octal_escape(signature)));
     loc = pos + 1;
   }
-- 
2.43.0


From d9697ea8efb5b94bad0e03313a6c4c99b55742d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 101/110] fix: input set with in() in the wrap() of a lexer
 lost the text being matched

---
 include/reflex/abslexer.h  | 11 +++++++++--
 include/reflex/flexlexer.h |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 46ae3f5..02303a0 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -76,7 +76,10 @@ class AbstractLexer {
     virtual bool wrap()
       /// @returns true if reflex::AbstractLexer::wrap() == 0 indicating that input is wrapped after EOF
     {
-      return lexer_->wrap() == 0;
+      lexer_->wrap_ = true; // in(input) in wrap() continues the match with the new input
+      bool more = lexer_->wrap() == 0;
+      lexer_->wrap_ = false;
+      return more;
     }
     /// Points to the lexer class that instantiated this Matcher.
     AbstractLexer *lexer_;
@@ -93,6 +96,7 @@ class AbstractLexer {
       matcher_(NULL),
       start_(0),
       debug_(0),
+      wrap_(false),
       stack_(),
       state_()
   { }
@@ -129,7 +133,9 @@ class AbstractLexer {
     /// @returns reference to *this
   {
     in_ = input;
-    if (has_matcher())
+    if (wrap_ && has_matcher())
+      matcher().in = input; // wrap() assigns new input to continue with, without reset
+    else if (has_matcher())
       matcher().input(input); // reset and assign new input
     return *this;
   }
@@ -423,6 +429,7 @@ class AbstractLexer {
   Matcher             *matcher_; ///< the matcher used for scanning
   int                  start_;   ///< the current start condition state
   int                  debug_;   ///< 1 if -d (--debug) 0 otherwise:
+  bool                 wrap_;    ///< true when executing wrap() to continue with new input
   std::stack<Matcher*> stack_;   ///< a stack of pointers to matchers
   std::stack<int>      state_;   ///< a stack of start condition states
 };
diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d4ef52c..75ecd27 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -446,7 +446,10 @@ class FlexLexer : public AbstractLexer<M> {
       /// @returns true if FlexLexer::yywrap() == 0 indicating that input is wrapped after EOF
     {
       FlexLexer *lexer = dynamic_cast<FlexLexer*>(this->lexer_); // a safe cast
-      return lexer->yywrap() == 0;
+      lexer->wrap_ = true; // in(input) in yywrap() continues the match with the new input
+      bool more = lexer->yywrap() == 0;
+      lexer->wrap_ = false;
+      return more;
     }
   };
   /// Construct Flex-compatible lexer to read from a std::istream (and echo the text matches to a std::ostream).
-- 
2.43.0


From 036b8c6c2b38667641683d2f02ba82fce29e7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:30 +0000
Subject: [PATCH 102/110] fix: indent and dedent at the end of input counted
 one margin column too few

---
 fuzzy/fuzzymatcher.h     |  4 ++--
 include/reflex/matcher.h | 29 +++++++++++++++--------------
 lib/pattern.cpp          | 10 +++++-----
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e2590d6..07e2860 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -426,7 +426,7 @@ redo:
 #if !defined(WITH_NO_INDENT)
                   case Pattern::META_DED - Pattern::META_MIN:
                     DBGLOG("DED? %d", c1);
-                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent())
+                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && dedent(c1))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -436,7 +436,7 @@ redo:
                     continue;
                   case Pattern::META_IND - Pattern::META_MIN:
                     DBGLOG("IND? %d", c1);
-                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent())
+                    if (jump == Pattern::Const::IMAX && back == Pattern::Const::IMAX && bol && indent(c1))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index d31f1d2..b632817 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -349,14 +349,14 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   }
 #if !defined(WITH_NO_INDENT)
   /// FSM code META DED.
-  inline bool FSM_META_DED()
+  inline bool FSM_META_DED(int c1 = 0)
   {
-    return fsm_.bol && dedent();
+    return fsm_.bol && dedent(c1);
   }
   /// FSM code META IND.
-  inline bool FSM_META_IND()
+  inline bool FSM_META_IND(int c1 = 0)
   {
-    return fsm_.bol && indent();
+    return fsm_.bol && indent(c1);
   }
   /// FSM code META UND.
   inline bool FSM_META_UND()
@@ -595,7 +595,7 @@ redo:
 #if !defined(WITH_NO_INDENT)
                 case Pattern::META_DED - Pattern::META_MIN:
                   DBGLOG("DED? %d", c1);
-                  if (njumps == 0 && back == Pattern::Const::IMAX && bol && dedent())
+                  if (njumps == 0 && back == Pattern::Const::IMAX && bol && dedent(c1))
                   {
                     dent = true;
                     jumpmax = 1;
@@ -608,7 +608,7 @@ redo:
                   continue;
                 case Pattern::META_IND - Pattern::META_MIN:
                   DBGLOG("IND? %d", c1);
-                  if (njumps == 0 && back == Pattern::Const::IMAX && bol && indent())
+                  if (njumps == 0 && back == Pattern::Const::IMAX && bol && indent(c1))
                   {
                     dent = true;
                     jumpmax = 1;
@@ -1029,32 +1029,33 @@ unrolled:
   }
 #if !defined(WITH_NO_INDENT)
   /// Update indentation column counter for indent() and dedent().
-  inline void newline()
+  inline void newline(int c1) ///< next character or EOF, the margin ends before this character
   {
     mrk_ = true;
-    while (ind_ + 1 < pos_)
+    size_t end = c1 == EOF ? pos_ : pos_ - 1;
+    while (ind_ < end)
       col_ += buf_[ind_++] == '\t' ? 1 + (~col_ & (opt_.T - 1)) : 1;
     DBGLOG("Newline with indent/dedent? col = %zu", col_);
   }
   /// Returns true if looking at indent.
-  inline bool indent()
+  inline bool indent(int c1) ///< next character or EOF
     /// @returns true if indent
   {
-    newline();
+    newline(c1);
     return col_ > 0 && (tab_.empty() || tab_.back() < col_);
   }
   /// Returns true if looking at dedent.
-  inline bool dedent()
+  inline bool dedent(int c1) ///< next character or EOF
     /// @returns true if dedent
   {
-    newline();
+    newline(c1);
     return !tab_.empty() && tab_.back() > col_;
   }
   /// Returns true if nodent.
-  inline bool nodent()
+  inline bool nodent(int c1 = 0) ///< next character or EOF
     /// @returns true if nodent
   {
-    newline();
+    newline(c1);
     return (col_ <= 0 || (!tab_.empty() && tab_.back() >= col_)) && (tab_.empty() || tab_.back() <= col_);
   }
 #endif
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 9afae00..3731227 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -2510,7 +2510,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
             {
               do
               {
-                if (lo == META_EOB || lo == META_EOL)
+                if (lo == META_EOB || lo == META_EOL || lo >= META_UND)
                   peek = true;
                 else if (lo == META_EWE || lo == META_BWE || lo == META_NWE)
                   prev = peek = true;
@@ -2609,7 +2609,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                       ::fprintf(file, "else ");
                     else if (elif && !els)
                       ::fprintf(file, "else {\n  "), els = true;
-                    ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
+                    ::fprintf(file, lo >= META_UND ? "if (m.FSM_META_%s(c1)) {\n" : "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
                     gencode_dfa_closure(file, i->second.second, 2, peek, lo >= META_UND);
                     ::fprintf(file, "  }\n");
                     if (lo >= META_UND)
@@ -2664,7 +2664,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                       ::fprintf(file, "else ");
                     else if (elif && !els)
                       ::fprintf(file, "else {\n  "), els = true;
-                    ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
+                    ::fprintf(file, lo >= META_UND ? "if (m.FSM_META_%s(c1)) {\n" : "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
                     gencode_dfa_closure(file, i->second.second, 2, peek, lo >= META_UND);
                     ::fprintf(file, "  }\n");
                     if (lo >= META_UND)
@@ -2762,7 +2762,7 @@ void Pattern::check_dfa_closure(const DFA::State *state, int nest, bool& peek, b
     {
       do
       {
-        if (lo == META_EOB || lo == META_EOL)
+        if (lo == META_EOB || lo == META_EOL || lo >= META_UND)
           peek = true;
         else if (lo == META_EWE || lo == META_BWE || lo == META_NWE)
           prev = peek = true;
@@ -2844,7 +2844,7 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
               ::fprintf(file, "else ");
             else if (elif && !els)
               ::fprintf(file, "else {\n%*s", 2*nest, ""), els = true;
-            ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
+            ::fprintf(file, lo >= META_UND ? "if (m.FSM_META_%s(c1)) {\n" : "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
             gencode_dfa_closure(file, i->second.second, nest + 1, peek, dent || lo >= META_UND);
             ::fprintf(file, "%*s}\n", 2*nest, "");
             if (lo >= META_UND)
-- 
2.43.0


From c4a17924865b629f9bff619d6fbd71669b28a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:30 +0000
Subject: [PATCH 103/110] fix: \k took precedence over \j and \i, and differed
 between tables and code

---
 include/reflex/matcher.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index b632817..9690bce 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -359,9 +359,9 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     return fsm_.bol && indent(c1);
   }
   /// FSM code META UND.
-  inline bool FSM_META_UND()
+  inline bool FSM_META_UND(int = 0)
   {
-    bool mrk = mrk_ && !nodent();
+    bool mrk = mrk_;
     mrk_ = false;
     ded_ = 0;
     return mrk;
@@ -621,11 +621,18 @@ redo:
                   continue;
                 case Pattern::META_UND - Pattern::META_MIN:
                   DBGLOG("UND");
+                  if (dent) // indent and dedent take precedence
+                  {
+                    if (Pattern::index_of(opcode) == Pattern::Const::LONG)
+                      ++pc;
+                    opcode = *++pc;
+                    continue;
+                  }
                   if (mrk_)
                   {
                     dent = true;
                     jumpmax = 1;
-                    njumps = 0; // takes precedence over indent and dedent
+                    njumps = 0;
                     Pattern::Index jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
                       jump = Pattern::long_index_of(*++pc);
-- 
2.43.0


From 158e167ebace9371db266667e1c820722348815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 104/110] fix: fuzzy matches() accepted extra characters that
 were not allowed and miscounted edits

---
 fuzzy/fuzzymatcher.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 07e2860..9f981f2 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -280,8 +280,8 @@ class FuzzyMatcher : public Matcher {
           if ((c = get()) == EOF)
             break;
       }
-      bpt.sub = false;
-      bpt.pc1 += !bpt.alt;
+      bpt.sub = !del_;
+      bpt.pc1 += !del_;
     }
     else
     {
@@ -657,7 +657,7 @@ unrolled:
           pc = pat_->opc_ + jump;
         }
         // exit fuzzy loop if nothing consumed
-        if (pos_ == static_cast<size_t>(txt_ + len_ - buf_))
+        if (pos_ == static_cast<size_t>(txt_ + len_ - buf_) && (method != Const::MATCH || c1 == EOF))
           break;
         // match, i.e. cap_ > 0?
         if (method == Const::MATCH)
@@ -665,29 +665,34 @@ unrolled:
           // exit fuzzy loop if fuzzy match succeeds till end of input
           if (cap_ > 0)
           {
-            if (c1 == EOF)
-              break;
-            while (err_ < max_)
+            // the rest of the input after the match should be extra chars, when allowed
+            size_t len = pos_ - (txt_ - buf_);
+            uint8_t err = err_;
+            pos_ = cur_;
+            int c = get();
+            while (c != EOF && c != '\0' && c != '\n' && ins_ && err < max_)
             {
-              c1 = get();
-              if (c1 == EOF)
-                break;
               // skip one (multibyte) char
-              if (c1 >= 0xC0)
+              if (c >= 0xC0)
               {
-                int n = (c1 >= 0xE0) + (c1 >= 0xF0);
+                int n = (c >= 0xE0) + (c >= 0xF0);
                 while (n-- >= 0)
-                  if ((c1 = get()) == EOF)
+                  if ((c = get()) == EOF)
                     break;
               }
-              ++err_;
+              ++err;
+              c = get();
             }
-            if (at_end())
+            if (c == EOF)
             {
               DBGLOG("match pos = %zu", pos_);
-              set_current(pos_);
+              err_ = err;
+              cur_ = pos_;
               break;
             }
+            // not a match of the whole input
+            cap_ = 0;
+            pos_ = (txt_ - buf_) + len;
           }
         }
         else
-- 
2.43.0


From 5fe52910293e75d83bed0e05eb8f74eb7f41c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 105/110] fix: fuzzy split() at the end of input returned a
 wrong or extra piece

---
 fuzzy/fuzzymatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 9f981f2..e3ff9b3 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -890,7 +890,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || (pos_ = end_, peek() != EOF))
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
@@ -907,7 +907,7 @@ unrolled:
         DBGLOG("END FuzzyMatcher::match()");
         return cap_;
       }
-      if (cur_ == 0 && at_bob() && at_end())
+      if (cur_ == 0 && at_bob() && at_end() && end_ == 0)
       {
         cap_ = Const::EMPTY;
         got_ = Const::EOB;
-- 
2.43.0


From b56b3e4b3de0fbe2145cbe4bef5e9a03faaad915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 106/110] fix: fuzzy find() and split() lost text in the second
 pass for a better match

---
 fuzzy/fuzzymatcher.h | 59 +++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e3ff9b3..0dd2513 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -170,9 +170,9 @@ class FuzzyMatcher : public Matcher {
     SaveState(size_t ded)
       :
         use(false),
-        loc(0),
+        len(0),
+        num(0),
         cap(0),
-        txt(0),
         cur(0),
         pos(0),
         ded(ded),
@@ -180,9 +180,9 @@ class FuzzyMatcher : public Matcher {
         err(0)
     { }
     bool    use;
-    size_t  loc;
+    size_t  len;
+    size_t  num;
     size_t  cap;
-    size_t  txt;
     size_t  cur;
     size_t  pos;
     size_t  ded;
@@ -525,7 +525,7 @@ redo:
                     DBGLOG("EWB? %d", at_eow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && isword(got_) &&
-                        !isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_)))
+                        !isword(static_cast<unsigned char>(txt_[len_])))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -537,7 +537,7 @@ redo:
                     DBGLOG("BWB? %d", at_bow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                        (opt_.W || isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_))))
+                        (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -772,10 +772,10 @@ unrolled:
       }
     }
     // if fuzzy matched with errors then perform a second pass ahead of this match to check for an exact match
-    if (cap_ > 0 && err_ > 0 && !sst.use && (method == Const::FIND || method == Const::SPLIT))
+    if (cap_ > 0 && err_ > 0 && !sst.use && (method == Const::FIND || method == Const::SPLIT) && cur_ > txt_ - buf_ + len_)
     {
       // this part is based on advance() in matcher.cpp, limited to advancing ahead till the one of the first pattern char(s) match excluding \n
-      size_t loc = txt_ - buf_ + 1;
+      size_t loc = txt_ - buf_ + len_ + 1;
       const char *s = buf_ + loc;
       const char *e = static_cast<const char*>(std::memchr(s, '\n', cur_ - loc));
       if (e == NULL)
@@ -791,9 +791,9 @@ unrolled:
           {
             loc = s - buf_;
             sst.use = true;
-            sst.loc = loc;
+            sst.len = len_;
+            sst.num = num_;
             sst.cap = cap_;
-            sst.txt = txt_ - buf_;
             sst.cur = cur_;
             sst.pos = pos_;
             size_t tmp = ded_;
@@ -802,7 +802,13 @@ unrolled:
             sst.mrk = mrk_;
             sst.err = err_;
             set_current(loc);
-            goto scan;
+            len_ = loc - (txt_ - buf_); // keep the first match in the buffer
+#if !defined(WITH_NO_INDENT)
+            mrk_ = false;
+            ind_ = pos_;
+            col_ = 0;
+#endif
+            goto find;
           }
         }
       }
@@ -813,9 +819,9 @@ unrolled:
         {
           loc = s - buf_;
           sst.use = true;
-          sst.loc = loc;
+          sst.len = len_;
+          sst.num = num_;
           sst.cap = cap_;
-          sst.txt = txt_ - buf_;
           sst.cur = cur_;
           sst.pos = pos_;
           size_t tmp = ded_;
@@ -824,28 +830,37 @@ unrolled:
           sst.mrk = mrk_;
           sst.err = err_;
           set_current(loc);
-          goto scan;
+          len_ = loc - (txt_ - buf_); // keep the first match in the buffer
+#if !defined(WITH_NO_INDENT)
+          mrk_ = false;
+          ind_ = pos_;
+          col_ = 0;
+#endif
+          goto find;
         }
       }
     }
     else if (sst.use && (cap_ == 0 || err_ >= sst.err))
     {
-      // if the buffer was shifted then cur_, pos_ and txt_ are no longer at the same location in the buffer, we must adjust for this
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
+      // if the buffer was shifted then cur_ and pos_ are no longer at the same location in the buffer, we must adjust for this
+      size_t shift = num_ - sst.num;
       cap_ = sst.cap;
+      len_ = sst.len;
       cur_ = sst.cur - shift;
       pos_ = sst.pos - shift;
       ded_ = sst.ded;
       mrk_ = sst.mrk;
       err_ = sst.err;
-      txt_ = buf_ + sst.txt - shift;
+      sst.use = false;
     }
-    else if (sst.use && cap_ > 0 && method == Const::SPLIT)
+    else if (sst.use)
     {
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
-      len_ = loc - sst.txt + shift;
+      if (method == Const::FIND)
+      {
+        txt_ += len_;
+        len_ = 0;
+      }
+      sst.use = false;
     }
 #if !defined(WITH_NO_INDENT)
     if (mrk_ && cap_ != Const::REDO)
-- 
2.43.0


From 96b640953bb3110eabb1c61e48d8448455b260c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 107/110] fix: fuzzy matching did not end for repeated
 multibyte characters

---
 fuzzy/fuzzymatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 0dd2513..93ced35 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -247,7 +247,7 @@ class FuzzyMatcher : public Matcher {
         const Pattern::Opcode *pc1 = pc0;
         while (!Pattern::is_opcode_goto(*pc1))
           ++pc1;
-        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0x80) != 0x80)
+        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0xC0) != 0x80)
           break;
         bpt.pc0 = pc0;
         bpt.pc1 = pc1;
-- 
2.43.0


From 92dfc09acf7d1301f6be78d9d3a8997473f49b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:58 +0000
Subject: [PATCH 108/110] fix: upper bound of a counted repeat over 65535
 wrapped around

---
 lib/pattern.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3731227..e57f8e1 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -795,9 +795,12 @@ void Pattern::parse3(
       {
         if (std::isdigit(at(loc + 1)))
         {
-          m = 0;
+          k = 0;
           for (Location i = 0; i < 7 && std::isdigit(c = at(++loc)); ++i)
-            m = 10 * m + (c - '0');
+            k = 10 * k + (c - '0');
+          if (k > Position::MAXITER)
+            error(regex_error::exceeds_limits, loc);
+          m = static_cast<Iter>(k);
         }
         else
         {
-- 
2.43.0


From 8cc676985bfdb476a5398b7c3df74a7886dfaa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 109/110] fix: comments /*/ and \*/ in a lexer specification
 ended too early or too late

---
 src/reflex.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 976649a..f60840f 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -785,6 +785,7 @@ bool Reflex::skip_comment(size_t& pos)
     }
     else if (pos + 1 < linelen && line.at(pos) == '/' && line.at(pos + 1) == '*')
     {
+      pos += 2; // the * is not the * of a closing */
       while (true)
       {
         while (pos + 1 < linelen && (line.at(pos) != '*' || line.at(pos + 1) != '/'))
@@ -1235,7 +1236,10 @@ std::string Reflex::get_code(size_t& pos)
           if (line.at(pos + 1) == '/')
             pos = linelen;
           else if (line.at(pos + 1) == '*')
+          {
             tok = COMMENT;
+            ++pos; // the * is not the * of a closing */
+          }
         }
         break;
       case '*':
@@ -1243,7 +1247,8 @@ std::string Reflex::get_code(size_t& pos)
           tok = CODE;
         break;
       case '\\':
-        ++pos;
+        if (tok != COMMENT)
+          ++pos;
         break;
     }
     ++pos;
-- 
2.43.0


From adfd112e478965b2bab3490e44f000483668c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:11 +0000
Subject: [PATCH 110/110] fix: comparing a match that contains a NUL with a
 string reads past the end of the string

---
 include/reflex/absmatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 84058b1..8786b21 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1313,7 +1313,7 @@ class AbstractMatcher {
     /// @returns true if matched text is equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) == 0 && rhs[len_] == '\0';
+    return std::strlen(rhs) == len_ && std::memcmp(rhs, txt_, len_) == 0;
   }
   /// Returns true if matched text is equalt to a string, useful for std::algorithm.
   bool operator==(const std::string& rhs) ///< rhs string to compare to
@@ -1341,7 +1341,7 @@ class AbstractMatcher {
     /// @returns true if matched text is not equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) != 0 || rhs[len_] != '\0'; // if static checkers complain here, they are wrong
+    return std::strlen(rhs) != len_ || std::memcmp(rhs, txt_, len_) != 0;
   }
   /// Returns true if matched text is not equal to a string, useful for std::algorithm.
   bool operator!=(const std::string& rhs) ///< rhs string to compare to
-- 
2.43.0

