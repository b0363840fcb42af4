From aef1e618a2d3a423a93eec875480edc9132cb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 01/13] fix: next_unbiased computes its rejection threshold as
 2^32 mod n

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index d17d53f..138db34 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -837,7 +837,7 @@ namespace ce
             auto p = uint32_t(m);
             if (p < n)
             {
-                auto k = 0u - n % n;
+                auto k = (0u - n) % n;
                 while (p < k)
                 {
                     m = uint64_t(n) * read(q);
-- 
2.43.0


From d76f810362d0ccca7102d0056df1215d3fb9aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 02/13] fix: pcg32_64 read does not shift by 32 when the
 rotation is 0

---
 lib/h/ce/ce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 138db34..165ea17 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -792,7 +792,7 @@ namespace ce
             // also it is really annoying that some processors only have ror or rol, but not both, and there is no particular reason for which one they have!
             // I guess they want some programs to be slightly slower on their processors to save 1 op code
             // RANT OFF
-            return b >> a | b << (32 - a);
+            return b >> a | b << (31 & (32 - a));
         }
 
         inline pcg32_64_t step(pcg32_64_t g)
-- 
2.43.0


From ac2884701a23235a31572ad837eea0944b29e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 03/13] fix: dictionary find does not match the unused slot 0

---
 lib/h/ce/dictionary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/h/ce/dictionary.h b/lib/h/ce/dictionary.h
index cb5abd4..4accf6e 100644
--- a/lib/h/ce/dictionary.h
+++ b/lib/h/ce/dictionary.h
@@ -51,7 +51,7 @@ namespace ce
                     return ptr_t(i);
 
             // linear scan
-            for (size_t i = heap; i < size; ++i)
+            for (size_t i = heap + !heap; i < size; ++i)
                 if (names[i] == n)
                     return ptr_t(i);
 
-- 
2.43.0


From bf4521dee3d50de6f7c35f012a9c608705200433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 04/13] fix: bulk back() compiles (reinterpret_cast of nullptr
 to a pointer is ill-formed)

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 165ea17..5d65a87 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1364,8 +1364,8 @@ namespace ce
         T const* begin() const { return &data[0]; }
         T const* end() const { return &data[size]; }
 
-        T const& back() const { return size > 0 ? data[size - 1] : *reinterpret_cast<T const*>(nullptr); }
-        T& back() { return size > 0 ? data[size - 1] : *reinterpret_cast<T*>(nullptr); }
+        T const& back() const { return size > 0 ? data[size - 1] : *static_cast<T const*>(nullptr); }
+        T& back() { return size > 0 ? data[size - 1] : *static_cast<T*>(nullptr); }
 
         T& operator[](size_t i) { return data[i]; }
         T const& operator[](size_t i) const { return data[i]; }
-- 
2.43.0


From 5e75427374bf319ffe2db72824191f40a0860033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 05/13] fix: as_string stops at the end of a char array without
 terminator

---
 lib/h/ce/ce.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 5d65a87..3cc609b 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1054,6 +1054,9 @@ namespace ce
         }
     }
 
+    // arrays are limited by their own size, they need not be terminated
+    template<size_t N> inline char* to_text_m(char* text, char const (&from)[N]) { return to_text_s(text, N, from); }
+
     template<class...Ts> struct as_string
     {
         char as[measure<Ts...>::value + 1];
-- 
2.43.0


From b55505dd02f68cb4d08f06ac3df9bf67c07dc0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 06/13] fix: vec *= and /= with a component of the same vector
 as the scalar

---
 lib/h/ce/ce.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index 3cc609b..c4e7f6c 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -646,8 +646,8 @@ namespace ce
         template<class...U> constexpr vec2<U...> operator/(const vec2<U...>& a, car_t<U...> const& b) { return { a.x / b, a.y / b }; }
         template<class...U> inline vec2<U...>& operator+=(vec2<U...>& a, const vec2<U...>& b) { a.x += b.x; a.y += b.y; return a; }
         template<class...U> inline vec2<U...>& operator-=(vec2<U...>& a, const vec2<U...>& b) { a.x -= b.x; a.y -= b.y; return a; }
-        template<class...U> inline vec2<U...>& operator*=(vec2<U...>& a, car_t<U...> const& b) { a.x *= b; a.y *= b; return a; }
-        template<class...U> inline vec2<U...>& operator/=(vec2<U...>& a, car_t<U...> const& b) { a.x /= b; a.y /= b; return a; }
+        template<class...U> inline vec2<U...>& operator*=(vec2<U...>& a, car_t<U...> b) { a.x *= b; a.y *= b; return a; }
+        template<class...U> inline vec2<U...>& operator/=(vec2<U...>& a, car_t<U...> b) { a.x /= b; a.y /= b; return a; }
 
         template<class...U> constexpr bool operator==(vec3<U...> const& a, vec3<U...> const& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
         template<class...U> constexpr bool operator==(vec3<U...> const& a, car_t<U...> const& b) { return a.x == b && a.y == b && a.z == b; }
@@ -659,8 +659,8 @@ namespace ce
         template<class...U> constexpr vec3<U...> operator/(const vec3<U...>& a, car_t<U...> const& b) { return { a.x / b, a.y / b, a.z / b }; }
         template<class...U> inline vec3<U...>& operator+=(vec3<U...>& a, const vec3<U...>& b) { a.x += b.x; a.y += b.y; a.z += b.z; return a; }
         template<class...U> inline vec3<U...>& operator-=(vec3<U...>& a, const vec3<U...>& b) { a.x -= b.x; a.y -= b.y; a.z -= b.z; return a; }
-        template<class...U> inline vec3<U...>& operator*=(vec3<U...>& a, car_t<U...> const& b) { a.x *= b; a.y *= b; a.z *= b; return a; }
-        template<class...U> inline vec3<U...>& operator/=(vec3<U...>& a, car_t<U...> const& b) { a.x /= b; a.y /= b; a.z /= b; return a; }
+        template<class...U> inline vec3<U...>& operator*=(vec3<U...>& a, car_t<U...> b) { a.x *= b; a.y *= b; a.z *= b; return a; }
+        template<class...U> inline vec3<U...>& operator/=(vec3<U...>& a, car_t<U...> b) { a.x /= b; a.y /= b; a.z /= b; return a; }
 
         template<class T, class U> size_t in_polygon_xy(T x, T y, size_t n, U const ps[])
         {
-- 
2.43.0


From 3b1aaa4d1b488f91fb2f4b4faeb6c78ba840786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 07/13] fix: in_range_rr_edge rejects projections past the far
 end also near the origin

---
 lib/h/ce/math.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/math.h b/lib/h/ce/math.h
index e478e5d..e7cbc48 100644
--- a/lib/h/ce/math.h
+++ b/lib/h/ce/math.h
@@ -151,14 +151,14 @@ namespace ce
             if (dp < 0)
                 return false;
 
-            auto pp = int64_t(px) * px + int64_t(py) * py;
-            if (pp < rr)
-                return true;
-
             auto dd = int64_t(dx) * dx + int64_t(dy) * dy;
             if (dp > dd)
                 return false;
 
+            auto pp = int64_t(px) * px + int64_t(py) * py;
+            if (pp < rr)
+                return true;
+
             return ab_less_cd(dd, pp - rr, dp, dp);
         };
 
-- 
2.43.0


From f8a57ecbc2a95dca917a5b66c616c538a84f3745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:17 +0000
Subject: [PATCH 08/13] fix: z_query handles boxes reaching the last block and
 keeps a span for every split

---
 lib/h/ce/zorder.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/h/ce/zorder.h b/lib/h/ce/zorder.h
index 389aa89..4f05a49 100644
--- a/lib/h/ce/zorder.h
+++ b/lib/h/ce/zorder.h
@@ -114,16 +114,19 @@ namespace ce
         size = 0;
 
         //data = z_lower_bound(data, last, lo);
-        last = z_lower_bound(data, last, hi + 0x0ffff);
+        // hi is taken up to the end of its 0x10000 block, which must not wrap at the last block
+        if (hi < ~uint64_t(0x0ffff))
+            last = z_lower_bound(data, last, (hi | 0x0ffff) + 1);
 
-        uint64_t spans[32 * 2];
+        // each split lowers the highest differing bit, one of bits 17 to 63
+        uint64_t spans[48 * 2];
         auto next = &spans[0];
 
         while (data < last)
         {
             uint64_t zn = *data++;
 
-            while (zn > hi + 0x0ffff)
+            while (zn > (hi | 0x0ffff))
             {
                 // pop
                 if (next <= &spans[0])
@@ -147,14 +150,14 @@ namespace ce
             uint64_t mi;
             while (z_split(lo, hi, mo, mi))
             {
-                if (zn > mo + 0x0ffff)
+                if (zn > (mo | 0x0ffff))
                 {
                     lo = mi;
                     goto test_lo;
                 }
                 else
                 {
-                    //CE_ASSERT(next < &spans[32 * 2]);
+                    //CE_ASSERT(next < &spans[48 * 2]);
                     // push
                     next[0] = mi;
                     next[1] = hi;
-- 
2.43.0


From 2d425e42b5718698cc13491cf8c9adb7c807580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 09/13] fix: nameof of an enumerator in nested or unnamed
 scopes is its identifier

---
 lib/h/ce/nameof.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 5779a00..26a3b49 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -45,6 +45,15 @@ namespace ce
             return 0;
         };
 
+        static constexpr unsigned skip_last(char what, char const text[])
+        {
+            unsigned last = 0;
+            for (unsigned n = 0; text[n] != 0; ++n)
+                if (text[n] == what)
+                    last = n + 1;
+            return last;
+        };
+
         template<unsigned N> struct const_text
         {
             static constexpr unsigned size = N;
@@ -73,8 +82,9 @@ namespace ce
 
         template<class T, T N> struct nameof<T, N>
         {
-            static constexpr bool is_known = name_item<N>.data[0] != '(';
-            static constexpr auto _skip = skip(':', name_item<N>.data);
+            // the identifier follows the last scope, a value that is no enumerator is a cast: (type)value
+            static constexpr auto _skip = skip_last(':', name_item<N>.data);
+            static constexpr bool is_known = skip_last(')', name_item<N>.data + _skip) == 0;
             static constexpr auto text = const_text<is_known ? name_item<N>.size - _skip : 3>{ is_known ? name_item<N>.data + _skip : "???" };
         };
 
-- 
2.43.0


From 911f2ae3360f42ce188f8abc51d9168421fa4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 10/13] fix: names keep leading and trailing bytes above 127 of
 an identifier

---
 lib/h/ce/ce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/ce.h b/lib/h/ce/ce.h
index c4e7f6c..123ede9 100644
--- a/lib/h/ce/ce.h
+++ b/lib/h/ce/ce.h
@@ -1126,7 +1126,7 @@ namespace ce
                 name = &text[i];
 
                 // skip leading spaces
-                while (*src <= ' ' && *src != '\0')
+                while (static_cast<unsigned char>(*src) <= ' ' && *src != '\0')
                     ++src;
 
                 // if we are at the last data item, start unbalanced so we copy the whole string (
@@ -1156,7 +1156,7 @@ namespace ce
                     else if (*src == quote)
                         quote = 0;
 
-                    if ((text[i++] = *src++) > ' ')
+                    if (static_cast<unsigned char>(text[i++] = *src++) > ' ')
                         trim = i;
                 }
 
-- 
2.43.0


From 1efe95ca9acba963050c5168cd215c8394a4950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 11/13] fix: reflected field names followed by a space or
 holding bytes above 127

---
 lib/h/ce/io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/io.h b/lib/h/ce/io.h
index ce2584b..f7c2487 100644
--- a/lib/h/ce/io.h
+++ b/lib/h/ce/io.h
@@ -40,12 +40,16 @@ namespace ce
             {
                 names[i] = &text[j];
 
-                while (s[k] != '\0' && s[k] <= ' ')
+                while (s[k] != '\0' && static_cast<unsigned char>(s[k]) <= ' ')
                     ++k;
 
-                while (s[k] > ' ' && s[k] != ',')
+                while (static_cast<unsigned char>(s[k]) > ' ' && s[k] != ',')
                     text[j++] = s[k++];
 
+                // spaces before the comma
+                while (s[k] != '\0' && s[k] != ',')
+                    ++k;
+
                 if (s[k] == ',')
                     ++k;
 
-- 
2.43.0


From 6a1fe19097742f23b7146b873237c5ae8e31129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 12/13] fix: nameof compares all bits of a 64-bit enum value

---
 lib/h/ce/nameof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/h/ce/nameof.h b/lib/h/ce/nameof.h
index 26a3b49..6a59dd9 100644
--- a/lib/h/ce/nameof.h
+++ b/lib/h/ce/nameof.h
@@ -99,11 +99,11 @@ namespace ce
             if constexpr (H - L > 64)
             {
                 constexpr auto M = L + (H - L) / 2;
-                return unsigned(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
+                return static_cast<unsigned long long>(n) < M ? nameof_enum<T, L, M>(n) : nameof_enum<T, M, H>(n);
             }
             else if constexpr (L < H)
             {
-                if (unsigned(n) == L)
+                if (static_cast<unsigned long long>(n) == L)
                 {
                     using N = nameof<T, static_cast<T>(L)>;
                     if constexpr (N::is_known)
-- 
2.43.0


From 2096f836f5e5aa597d98ef43ff69b784bdf7c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:58 +0000
Subject: [PATCH 13/13] fix: in-circle test sums its products without signed
 overflow

---
 lib/h/ce/cdt.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/h/ce/cdt.h b/lib/h/ce/cdt.h
index b640cae..22a1350 100644
--- a/lib/h/ce/cdt.h
+++ b/lib/h/ce/cdt.h
@@ -333,11 +333,12 @@ namespace ce
             auto ca = cx * ay - cy * ax;
             auto ab = ax * by - ay * bx;
 
-            auto aabc = aa * bc;
-            auto bbca = bb * ca;
-            auto ccab = cc * ab;
+            // the products may pass 2^63, their sum does not
+            auto aabc = uint64_t(aa) * uint64_t(bc);
+            auto bbca = uint64_t(bb) * uint64_t(ca);
+            auto ccab = uint64_t(cc) * uint64_t(ab);
 
-            return aabc + bbca + ccab < 0;
+            return int64_t(aabc + bbca + ccab) < 0;
         }
 
         template<bool More>
-- 
2.43.0

