From 87e68489bc0e710e6c5384f5b981e0ed26c7885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 01/15] fix: utf8_util::encoded_size for U+0800 to U+1FFF and
 U+10000 to U+7FFFF

The size was computed as if every octet carried six bits, so these
codepoints were written with one octet too few and an invalid lead octet.
U+0000 used __builtin_clz(0), which is undefined.
---
 include/u5e/utf8_util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_util.hpp b/include/u5e/utf8_util.hpp
index 23f553d..b678468 100644
--- a/include/u5e/utf8_util.hpp
+++ b/include/u5e/utf8_util.hpp
@@ -58,7 +58,10 @@ namespace u5e {
      * How many octets will this codepoint take
      */
     inline static int encoded_size(int value) {
-      return std::ceil((float)(32 - __builtin_clz(value) - 1) / (float)6);
+      if (value < 0x80)
+        return 1;
+      // a sequence of n octets, n > 1, carries 5 * n + 1 bits.
+      return (32 - __builtin_clz(value) + 3) / 5;
     }
     
   };
-- 
2.43.0


From 5f475c3ce122522d0edc79163818ab1e5e70c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 02/15] fix: comparing a utf8 iterator at the end of the text
 read past the end

Iterators with the same native position are equal without looking at the
text; at the end of a string view there is no octet to look at.
---
 include/u5e/utf8_iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 97bb431..178ebce 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -164,6 +164,8 @@ namespace u5e {
      * Compare with another iterator
      */
     inline bool operator==(const utf8_const_iterator& rhs) const {
+      if (this->raw_iterator_ == rhs.raw_iterator_)
+        return true;
       char c;
       utf8_const_iterator copy(*this);
       c = *(copy.raw_iterator_);
@@ -261,6 +263,8 @@ namespace u5e {
      * Compare the iterator with another iterator
      */
     inline bool operator==(const utf8_iterator& rhs) const {
+      if (this->raw_iterator_ == rhs.raw_iterator_)
+        return true;
       char c;
       utf8_iterator copy(*this);
       c = *(copy.raw_iterator_);
-- 
2.43.0


From 5fdf921d360824711c489ed58d27ca4d3f69e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 03/15] fix: stray continuation octets made iteration loop
 forever

A continuation octet was taken to belong to the codepoint before it
whatever the size of that codepoint, so moving forward from it returned to
that same codepoint again and again. It is now a unit of its own.
---
 include/u5e/utf8_iterator.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 178ebce..2ba1a82 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -49,12 +49,21 @@ namespace u5e {
     inline bool rewind_to_start_of_codepoint(const char current_octet) {
       // when we do '*it = codepoint', we will leave the iterator
       // halfway into the next character
-      bool ret = false;
-      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
-        raw_iterator_--;
-        ret = true;
+      NativeIterator copy_ = raw_iterator_;
+      difference_type walkback = 0;
+      while (utf8_util::is_codepoint_continuation(*copy_)) {
+        // no codepoint has more than 5 continuation octets
+        if (walkback == 5)
+          return false;
+        copy_--;
+        walkback++;
       }
-      return ret;
+      // a continuation octet that doesn't belong to the codepoint
+      // before it stands on its own.
+      if (walkback == 0 || utf8_util::codepoint_size(*copy_) <= walkback)
+        return false;
+      raw_iterator_ = copy_;
+      return true;
     }
 
     /**
@@ -72,9 +81,7 @@ namespace u5e {
     inline void rewind_one_codepoint() {
       rewind_to_start_of_codepoint(*raw_iterator_);
       raw_iterator_--;
-      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
-        raw_iterator_--;
-      }
+      rewind_to_start_of_codepoint(*raw_iterator_);
     }
     
     /**
-- 
2.43.0


From d02667660a8bc94eb918cd9f12431fe75dcfd0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 04/15] fix: 0xFE and 0xFF were taken as the start of 7 and 8
 octet sequences

utf8_bounds looks at the last 6 octets only, so these made iteration run
past the end of text that utf8_bounds accepted.
---
 include/u5e/utf8_util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_util.hpp b/include/u5e/utf8_util.hpp
index b678468..44fa269 100644
--- a/include/u5e/utf8_util.hpp
+++ b/include/u5e/utf8_util.hpp
@@ -51,7 +51,10 @@ namespace u5e {
       // count leading zeros on bitwise negated first octet.  for
       // single-octet codepoints, this would return 0, so we do
       // std::max for 1 for those cases.
-      return std::max(__builtin_clz(~(first_octet << 24)),1);
+      //
+      // 0xFE and 0xFF don't start any sequence.
+      int size = __builtin_clz(~(first_octet << 24));
+      return size > 6 ? 1 : std::max(size,1);
     }
 
     /**
-- 
2.43.0


From 174a4ecb283c71d436a1f2933e7aed580cc80848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 05/15] fix: utf8_bounds looked at the octet after the text

check and enforce read, and enforce could overwrite, the octet at the end
iterator, read the first octet of an empty text, never looked at the first
octet as the start of a sequence and at the sixth from the end, and enforce
could run past the end of a text made of continuation octets.
---
 include/u5e/utf8_bounds.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/u5e/utf8_bounds.hpp b/include/u5e/utf8_bounds.hpp
index b1e8cfc..67255e4 100644
--- a/include/u5e/utf8_bounds.hpp
+++ b/include/u5e/utf8_bounds.hpp
@@ -30,7 +30,9 @@ namespace u5e {
      * correct bounds.
      */
     static bool check(NativeIterator begin, NativeIterator end) {
-      if (utf8_util::is_codepoint_continuation(*begin)) {
+      if (begin == end) {
+        return true;
+      } else if (utf8_util::is_codepoint_continuation(*begin)) {
         return false;
       } else {
         int max_walkback = 6; // mathematically, it's impossible for
@@ -38,13 +40,13 @@ namespace u5e {
                               // from the end to generate a overflow.
         int walkback = 0;
         while (walkback < max_walkback && end != begin) {
+          --end; walkback++;
           char octet = *end;
           if (utf8_util::is_codepoint_start(octet)) {
             if (utf8_util::codepoint_size(octet) > walkback) {
               return false;
             }
           }
-          --end; walkback++;
         }
         return true;
       }
@@ -56,7 +58,7 @@ namespace u5e {
      */
     static bool enforce(NativeIterator begin, NativeIterator end) {
       bool ret = true;
-      while (utf8_util::is_codepoint_continuation(*begin)) {
+      while (begin != end && utf8_util::is_codepoint_continuation(*begin)) {
         *begin = '?';
         ++begin;
         ret = false;
@@ -66,6 +68,7 @@ namespace u5e {
                             // from the end to generate a overflow.
       int walkback = 0;
       while (walkback < max_walkback && end != begin) {
+        --end; walkback++;
         char octet = *end;
         if (utf8_util::is_codepoint_start(octet)) {
           if (utf8_util::codepoint_size(octet) > walkback) {
@@ -73,7 +76,6 @@ namespace u5e {
             ret = false;
           }
         }
-        --end; walkback++;
       }
       return ret;
     }
-- 
2.43.0


From 962d78c3775d4df6c7fc4f27e7c5df53a7c3424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 06/15] fix: grapheme iterator opened inside a grapheme started
 at the wrong place

After the first step back find_start_of_grapheme compared each codepoint
with itself shifted the wrong way instead of with the one before it. At
the end of the text it also read the codepoint after the text.
---
 include/u5e/basic_grapheme_iterator.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index cb1b62b..e334033 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -156,26 +156,23 @@ namespace u5e {
 
     void find_start_of_grapheme() {
       // GB2
-      if (where_ == begin_)
+      if (where_ == begin_ || where_ == end_)
         return;
       // rewind where_ until it's no longer in the same grapheme
 
-      // GB1
-      // this always start as copy = where_
-      const_codepoint_iterator copy = where_;
-      --copy;
-      codepoint a = *copy;
-
       while (1) {
+        // GB1
         if (where_ == begin_)
           return;
+        const_codepoint_iterator copy = where_;
+        --copy;
+        codepoint a = *copy;
         codepoint b = *where_;
 
         if (is_grapheme_boundary(a, b)) {
           return;
         }
 
-        a = b;
         --where_;
       }
     }
-- 
2.43.0


From 42cdd2a5fe7ee551a3c80890199004f58fdef9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 07/15] fix: comparing a grapheme iterator at the end read past
 the end of the text

---
 include/u5e/basic_grapheme_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index e334033..8209748 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -245,7 +245,9 @@ namespace u5e {
      * delegate the comparison to the underlying iterator
      */
     bool operator==(const_codepoint_iterator other) {
-      if (where_ == other) {
+      if (where_ == end_) {
+        return other == end_;
+      } else if (where_ == other) {
         return true;
       } else {
         for (const_codepoint_iterator copy = where_;
-- 
2.43.0


From 3befe7334faeb678e5df1fd430196d2fdde52f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 08/15] fix: appending between grapheme iterators cut
 codepoints to one octet

Codepoints were appended to the native string as if they were octets.
---
 include/u5e/basic_encodedstring.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index 35c832d..fd4102e 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -193,8 +193,11 @@ namespace u5e {
     (basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& first,
      basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& last)
     {
-      native_string.append((*first).codepoint_begin(),
-                           (*last).codepoint_begin());
+      native_string.append
+        (Encoding::template native_const_iterator<StorageType>
+         ((*first).codepoint_begin()),
+         Encoding::template native_const_iterator<StorageType>
+         ((*last).codepoint_begin()));
       return *this;
     }
     
-- 
2.43.0


From 07d7f5d8dd1374a702d9e9c50b88bc42b873d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 09/15] fix: opening a grapheme iterator at the end read past
 the end of the text

Comparing an iterator that stands at the end with any other one reads the
octet there, so the comparison with the end has to come first.
---
 include/u5e/basic_grapheme_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index 8209748..5134d60 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -156,7 +156,7 @@ namespace u5e {
 
     void find_start_of_grapheme() {
       // GB2
-      if (where_ == begin_ || where_ == end_)
+      if (where_ == end_ || where_ == begin_)
         return;
       // rewind where_ until it's no longer in the same grapheme
 
-- 
2.43.0


From 8be1c8ec4cb5bfdf1824c0125a7d0c2ec141ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 10/15] fix: canonical ordering moved starters and reordered
 marks of the same class

std::sort over the whole grapheme is not stable, and it also moved
codepoints of combining class zero in front of the marks before them.
Normalising a normalised text again could then give a different text.
---
 include/u5e/canonical_combining_order.hpp | 27 ++++++++++++++++++++++-
 include/u5e/normalization_form_c.hpp      |  4 ++--
 include/u5e/normalization_form_d.hpp      |  4 ++--
 include/u5e/normalization_form_kc.hpp     |  4 ++--
 include/u5e/normalization_form_kd.hpp     |  4 ++--
 5 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/u5e/canonical_combining_order.hpp b/include/u5e/canonical_combining_order.hpp
index 3e86ba9..11734c9 100644
--- a/include/u5e/canonical_combining_order.hpp
+++ b/include/u5e/canonical_combining_order.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 #define INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 
+#include <algorithm>
 #include <u5e/props/canonical_combining_class.hpp>
 
 namespace u5e {
@@ -8,7 +9,8 @@ namespace u5e {
   /**
    * \brief compare codepoints according to the canonical combining order
    *
-   * This is intended to be used with std::sort on a utf32ne string type.
+   * This is intended to be used with std::stable_sort on a run of
+   * combining marks in a utf32ne string type.
    */
   inline bool canonical_combining_order(int a, int b) {
     return
@@ -16,6 +18,29 @@ namespace u5e {
       <
       props::canonical_combining_class::resolve(b);
   }
+
+  /**
+   * \brief put codepoints in canonical order
+   *
+   * Reorders each run of codepoints with a non-zero combining class.
+   * Codepoints with combining class zero don't move, and codepoints of
+   * the same class keep their order.
+   */
+  template <typename Iterator>
+  inline void canonical_combining_sort(Iterator begin, Iterator end) {
+    while (begin != end) {
+      if (props::canonical_combining_class::resolve(*begin) == 0) {
+        begin++;
+      } else {
+        Iterator run = begin;
+        while (begin != end &&
+               props::canonical_combining_class::resolve(*begin) != 0) {
+          begin++;
+        }
+        std::stable_sort(run, begin, canonical_combining_order);
+      }
+    }
+  }
 }
 
 #endif
diff --git a/include/u5e/normalization_form_c.hpp b/include/u5e/normalization_form_c.hpp
index c8f9741..ce920e6 100644
--- a/include/u5e/normalization_form_c.hpp
+++ b/include/u5e/normalization_form_c.hpp
@@ -32,8 +32,8 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_d.hpp b/include/u5e/normalization_form_d.hpp
index 0b435c0..ee38a12 100644
--- a/include/u5e/normalization_form_d.hpp
+++ b/include/u5e/normalization_form_d.hpp
@@ -31,8 +31,8 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
diff --git a/include/u5e/normalization_form_kc.hpp b/include/u5e/normalization_form_kc.hpp
index 7ea4f0f..c84ff04 100644
--- a/include/u5e/normalization_form_kc.hpp
+++ b/include/u5e/normalization_form_kc.hpp
@@ -33,8 +33,8 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_kd.hpp b/include/u5e/normalization_form_kd.hpp
index 49d19a7..d3bcffb 100644
--- a/include/u5e/normalization_form_kd.hpp
+++ b/include/u5e/normalization_form_kd.hpp
@@ -32,8 +32,8 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
-- 
2.43.0


From 59cc9585e94af70ed92d6a09719264f6d8540be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 11/15] fix: moving back from the end of the text read the
 octet after it

---
 include/u5e/utf8_iterator.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 2ba1a82..7ebe994 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -79,9 +79,18 @@ namespace u5e {
      * Go to the previous codepoint.
      */
     inline void rewind_one_codepoint() {
-      rewind_to_start_of_codepoint(*raw_iterator_);
+      const NativeIterator here = raw_iterator_;
       raw_iterator_--;
       rewind_to_start_of_codepoint(*raw_iterator_);
+      // if we were halfway into that codepoint, the previous one is
+      // the one before it. Don't look at where we were unless that is
+      // possible, it may be the end of the text.
+      if (std::distance(raw_iterator_, here) <
+          utf8_util::codepoint_size(*raw_iterator_) &&
+          utf8_util::is_codepoint_continuation(*here)) {
+        raw_iterator_--;
+        rewind_to_start_of_codepoint(*raw_iterator_);
+      }
     }
     
     /**
-- 
2.43.0


From 559fc5ec352976d13dc4bfbe9176b0ecda3ac46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 12/15] fix: reading through a reverse iterator over UTF-8 text
 returned a dangling reference

std::reverse_iterator returns iterator_traits::reference, which was a
reference to a codepoint, bound to the temporary operator* returns.
---
 include/u5e/utf8_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 7ebe994..0d76380 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -30,7 +30,7 @@ namespace u5e {
      * Basic iterator typedefs
      */
     typedef codepoint value_type;
-    typedef const codepoint& reference;
+    typedef const codepoint reference; // decoded, there is no object to refer to
     typedef int difference_type;
     typedef std::bidirectional_iterator_tag iterator_category;
     //@}
-- 
2.43.0


From 078600fa1d7b564d12ea7c28f7941dac76cbb338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 13/15] fix: assigning one encoded string to another did not
 compile, and returned nothing

---
 include/u5e/basic_encodedstring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index fd4102e..5692bb2 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -104,7 +104,8 @@ namespace u5e {
      */
     basic_encodedstring&
     operator= (const basic_encodedstring &other) {
-      native_string = other;
+      native_string = other.native_string;
+      return *this;
     }
 
     //@{
-- 
2.43.0


From 6ceba03db051090abadeb8dd33044e4a17a56bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:42 +0000
Subject: [PATCH 14/15] fix: table generators: report errors in reading the
 data and writing the table

---
 src/u5e/props/canonical_combining_class_data.pl      |  9 ++++++---
 src/u5e/props/canonical_composition_mapping_data.pl  | 12 ++++++++----
 .../props/canonical_decomposition_mapping_data.pl    |  9 ++++++---
 ...ility_and_canonical_decomposition_mapping_data.pl |  9 ++++++---
 4 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/u5e/props/canonical_combining_class_data.pl b/src/u5e/props/canonical_combining_class_data.pl
index 2076778..b466daf 100644
--- a/src/u5e/props/canonical_combining_class_data.pl
+++ b/src/u5e/props/canonical_combining_class_data.pl
@@ -16,7 +16,8 @@ while (defined (my $line = <$ucd>)) {
   next unless $class;
   $d{$codepoint} = $class;
 }
-close $ucd;
+close $ucd
+  or die "Failed to read UnicodeData.txt: $!\n";
 
 #
 # Output the data
@@ -30,5 +31,7 @@ print $o
        map {
          "{ ".hex($_).", ".$d{$_}." }";
        } @sorted_keys
-      );
-close $o;
+      )
+  or die $!;
+close $o
+  or die $!;
diff --git a/src/u5e/props/canonical_composition_mapping_data.pl b/src/u5e/props/canonical_composition_mapping_data.pl
index add5c74..9d4337a 100644
--- a/src/u5e/props/canonical_composition_mapping_data.pl
+++ b/src/u5e/props/canonical_composition_mapping_data.pl
@@ -34,7 +34,8 @@ while (defined (my $line = <$ucd>)) {
     if exists $d{$decomposition};
   $d{$decomposition} = $codepoint;
 }
-close $ucd;
+close $ucd
+  or die "Failed to read UnicodeData.txt: $!\n";
 
 my %excl;
 open my $excl, '<', 'CompositionExclusions.txt'
@@ -46,7 +47,8 @@ while (defined (my $line = <$excl>)) {
   next unless $line;
   $excl{$line} = 1;
 }
-close $excl;
+close $excl
+  or die "Failed to read CompositionExclusions.txt: $!";
 
 my @all_decompositions = keys %d;
 foreach my $decomposition (@all_decompositions) {
@@ -92,5 +94,7 @@ print $o
            if $dc3;
          "{ ".join(", ", map { hex($_) } $dc1, $dc2, $d{$k})." }";
        } @sorted_keys
-      );
-close $o;
+      )
+  or die $!;
+close $o
+  or die $!;
diff --git a/src/u5e/props/canonical_decomposition_mapping_data.pl b/src/u5e/props/canonical_decomposition_mapping_data.pl
index 9fe2f66..66f370c 100644
--- a/src/u5e/props/canonical_decomposition_mapping_data.pl
+++ b/src/u5e/props/canonical_decomposition_mapping_data.pl
@@ -20,7 +20,8 @@ while (defined (my $line = <$ucd>)) {
   next if $decomposition =~ /^\</;
   $d{$codepoint} = [ split /\s+/, $decomposition ];
 }
-close $ucd;
+close $ucd
+  or die "Failed to read UnicodeData.txt: $!\n";
 
 #
 # we have the primary decomposition mapping, now we need to recurse in
@@ -58,5 +59,7 @@ print $o
          my $k = $_;
          "{ ".hex($k).", ".join(", ", map { hex($_) } @{$d{$k}}). ", 0 }";
        } @sorted_keys
-      );
-close $o;
+      )
+  or die $!;
+close $o
+  or die $!;
diff --git a/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl b/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl
index 9f0c62e..9f8fe69 100644
--- a/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl
+++ b/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl
@@ -23,7 +23,8 @@ while (defined (my $line = <$ucd>)) {
   next if $decomposition =~ /^\</;
   $d{$codepoint} = [ split /\s+/, $decomposition ];
 }
-close $ucd;
+close $ucd
+  or die "Failed to read UnicodeData.txt: $!\n";
 
 #
 # we have the primary decomposition mapping, now we need to recurse in
@@ -61,5 +62,7 @@ print $o
          my $k = $_;
          "{ ".hex($k).", ".join(", ", map { hex($_) } @{$d{$k}}). ", 0 }";
        } @sorted_keys
-      );
-close $o;
+      )
+  or die $!;
+close $o
+  or die $!;
-- 
2.43.0


From 481d1f41c0a5379e104a4dbac02ce18caa42d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:42 +0000
Subject: [PATCH 15/15] fix: grapheme_cluster_break_data.sh: fail when any step
 of the pipeline fails

---
 src/u5e/props/grapheme_cluster_break_data.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/u5e/props/grapheme_cluster_break_data.sh b/src/u5e/props/grapheme_cluster_break_data.sh
index 8a368fa..0d4462d 100755
--- a/src/u5e/props/grapheme_cluster_break_data.sh
+++ b/src/u5e/props/grapheme_cluster_break_data.sh
@@ -1,4 +1,5 @@
-#!/bin/sh
+#!/bin/bash
+set -o pipefail
 cat GraphemeBreakProperty.txt \
     | grep '^[A-F0-9]' \
     | perl -pe 's/^([0-9A-F]+)\s/$1..$1/' \
-- 
2.43.0

