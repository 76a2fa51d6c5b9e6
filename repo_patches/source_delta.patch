From a0ce966c17b54b0abd899ea44c598de9e22b9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 01/17] fix: exp2(float) computes 2^x instead of e^x

---
 src/exponential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential.cpp b/src/exponential.cpp
index 06a6857..d6a8956 100644
--- a/src/exponential.cpp
+++ b/src/exponential.cpp
@@ -184,7 +184,7 @@ zcm::quat zcm_vectorcall zcm::exp(zcm::quat x) noexcept
 
 float zcm::exp2(float x) noexcept
 {
-    return expf(x);
+    return exp2f(x);
 }
 
 zcm::vec2 zcm::exp2(const zcm::vec2& x) noexcept
-- 
2.43.0


From a4bde91ec49bde5fc2ef08657fcdf479066bb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 02/17] fix: distance2 of vec3 and vec4 returns the squared
 distance

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 5baab6f..832fa39 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -283,12 +283,12 @@ float zcm::distance2(const zcm::vec2 &first, const zcm::vec2 &second) noexcept
 
 float zcm::distance2(const zcm::vec3 &first, const zcm::vec3 &second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 float zcm_vectorcall zcm::distance2(zcm::vec4 first, zcm::vec4 second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 
-- 
2.43.0


From 5ebd6820366b89e6318255327920d2412b6f7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 03/17] fix: length(float) is never negative

---
 src/geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 832fa39..538d634 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -213,7 +213,7 @@ zcm::vec4 zcm_vectorcall zcm::refract(zcm::vec4 I, zcm::vec4 N, float eta) noexc
 
 float zcm::length(float first) noexcept
 {
-    return first;
+    return abs(first);
 }
 
 float zcm::length(const zcm::vec2& first) noexcept
-- 
2.43.0


From 8d27eeed149c541229b4617599ab5a0da4da946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 04/17] fix: decode_octahedral unfolds the lower hemisphere
 correctly

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 538d634..8bbe0cd 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -327,8 +327,8 @@ zcm::vec3 zcm::decode_octahedral(zcm::vec2 e) noexcept
 {
     auto v = zcm::vec3(e.x, e.y, 1.0f - abs(e.x) - abs(e.y));
     if (v.z < 0.0f) {
-        v.x = 1.0f - abs(v.y) * signNotZero(v.x);
-        v.y = 1.0f - abs(v.x) * signNotZero(v.y);
+        v.x = (1.0f - abs(e.y)) * signNotZero(e.x);
+        v.y = (1.0f - abs(e.x)) * signNotZero(e.y);
     }
     return normalize(v);
 }
-- 
2.43.0


From 757d832de8661989f21957dd759bd26a58c4b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 05/17] fix: roundEven rounds to the nearest integer, not the
 nearest even integer

---
 src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index 17cb888..53420e9 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -353,7 +353,7 @@ zcm::vec4 zcm_vectorcall zcm::round(zcm::vec4 x) noexcept
 
 float zcm::roundEven(float x) noexcept
 {
-    return std::nearbyint(x * 0.5f) * 2.0f;
+    return std::nearbyint(x);
 }
 
 zcm::vec2 zcm::roundEven(const zcm::vec2& x) noexcept
-- 
2.43.0


From 47bf8aa99d5b440e03a9808dab8d69296af67805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 06/17] fix: inverseTranspose and adjugateTranspose of mat2 are
 transposed

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0b1ea48..bdb40e7 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -286,8 +286,8 @@ zcm::mat2 zcm::inverseTranspose(const zcm::mat2 &m) noexcept
 
     mat2 Inverse(
         + m[1][1] / Determinant,
-        - m[0][1] / Determinant,
         - m[1][0] / Determinant,
+        - m[0][1] / Determinant,
         + m[0][0] / Determinant);
 
     return Inverse;
@@ -368,8 +368,8 @@ zcm::mat4 zcm::inverseTranspose(const zcm::mat4 &m) noexcept
 zcm::mat2 zcm::adjugateTranspose(const mat2 &m) noexcept
 {
     mat2 Adjugate(+ m[1][1],
-                  - m[0][1],
                   - m[1][0],
+                  - m[0][1],
                   + m[0][0]);
 
     return Adjugate;
-- 
2.43.0


From 6d3e5ad3880134ee1cb725d5d1e6f531c487e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 07/17] fix: mat3(mat2) does not read past the end of the mat2

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From 0fc96d824ba10530ed7c87a55b49a85c4b2eda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 08/17] fix: values that compare equal (-0 and +0) hash alike

---
 src/hash.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hash.cpp b/src/hash.cpp
index 4d9c34a..e5dc036 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -17,6 +17,9 @@
 static size_t float_hash(float f) noexcept
 {
     static_assert (sizeof(float) == sizeof(unsigned), "Float and unsigned must have same size!");
+    if (f == 0.0f) {
+        f = 0.0f; // -0 compares equal to +0 and must hash alike
+    }
     unsigned ui;
     std::memcpy(&ui, &f, sizeof(float));
     return zcm::hash(ui);
-- 
2.43.0


From f4c60fe805b4d7e401a58e672e31714fa7baba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 09/17] fix: hash(mat4) uses every column

---
 src/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index e5dc036..7912d2b 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -76,7 +76,7 @@ size_t zcm::hash(const zcm::mat3 &m) noexcept
 
 size_t zcm::hash(const zcm::mat4 &m) noexcept
 {
-    return hash(m[0]) ^ hash(m[1]) ^ hash(m[1]) ^ hash(m[3]);
+    return hash(m[0]) ^ hash(m[1]) ^ hash(m[2]) ^ hash(m[3]);
 }
 
 size_t zcm::hash(const zcm::bvec2 &b) noexcept
-- 
2.43.0


From 60831c7da4bc332877d2118489800c873d0ffce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 10/17] fix: hash.hpp includes the header that declares size_t

---
 include/zcm/hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zcm/hash.hpp b/include/zcm/hash.hpp
index 1ce7d36..9d7a10c 100644
--- a/include/zcm/hash.hpp
+++ b/include/zcm/hash.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <zcm/detail/vectorcall.hpp>
+#include <stddef.h>
 #include <functional>
 #include <zcm/vec4.hpp>
 #include <zcm/quat.hpp>
-- 
2.43.0


From ec368005f217eeee633845f33dfcd208b66bff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 11/17] fix: define the ivec4 remainder, bit and shift
 operators

---
 src/ivec4.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index f8ff2cc..7b29d8a 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -90,12 +90,24 @@ ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, +)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, -)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, *)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, /)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, %)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, |)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, &)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, ^)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, >>)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, <<)
 }
 
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, +=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, -=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, *=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, /=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, %=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, |=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, &=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, ^=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, >>=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, <<=)
 
 zcm::ivec4 zcm::operator -(zcm::ivec4 first) noexcept
 {
-- 
2.43.0


From 920d8fbd45114ea06ab9cb3ae30c53a712c0fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 12/17] fix: declare float + vec2 and float - vec2

---
 include/zcm/vec2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index 533647f..ac53815 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -66,8 +66,8 @@ namespace zcm
     vec2 operator *(vec2 vec, float scalar) noexcept;
     vec2 operator /(vec2 vec, float scalar) noexcept;
 
-    vec2 operator +(vec2 vec, float scalar) noexcept;
-    vec2 operator -(vec2 vec, float scalar) noexcept;
+    vec2 operator +(float scalar, vec2 vec) noexcept;
+    vec2 operator -(float scalar, vec2 vec) noexcept;
     vec2 operator *(float scalar, vec2 vec) noexcept;
     vec2 operator /(float scalar, vec2 vec) noexcept;
 
-- 
2.43.0


From 8f2e49aacd5aaa617bcf171561f292ad8fac0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 13/17] fix: two-component operator[] asserts the index is in
 range

---
 src/bvec2.cpp | 4 ++--
 src/ivec2.cpp | 4 ++--
 src/vec2.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bvec2.cpp b/src/bvec2.cpp
index 27f0619..f353495 100644
--- a/src/bvec2.cpp
+++ b/src/bvec2.cpp
@@ -132,7 +132,7 @@ bool zcm::operator !=(zcm::bvec2 first, zcm::bvec2 second) noexcept
 
 bool& zcm::bvec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
@@ -144,7 +144,7 @@ bool& zcm::bvec2::operator[](unsigned val) noexcept
 
 bool zcm::bvec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index ceeca53..43e4e4a 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -105,13 +105,13 @@ bool zcm::operator>=(zcm::ivec2 first, zcm::ivec2 second) noexcept
 
 int32_t& zcm::ivec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const int32_t& zcm::ivec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
diff --git a/src/vec2.cpp b/src/vec2.cpp
index 4a80148..b8bb5b5 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -101,13 +101,13 @@ bool zcm::operator!=(zcm::vec2 first, zcm::vec2 second) noexcept
 
 float& zcm::vec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const float& zcm::vec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
-- 
2.43.0


From 5887a9fc72f0f734f121f1d36bb72bc0bc0fb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 14/17] fix: convertLinearToSRGB with a gamma encodes with its
 inverse

---
 src/color_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6498b69..7471047 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -13,7 +13,7 @@ zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 {
 	auto ClampedColor = clamp(colorLinear, vec3{0}, vec3{1});
-	return mix(pow(ClampedColor, vec3(Gamma)) * 1.055f - 0.055f,
+	return mix(pow(ClampedColor, vec3(1.0f / Gamma)) * 1.055f - 0.055f,
 	           ClampedColor * 12.92f,
 	           lessThan(ClampedColor, vec3(0.0031308f)));
 }
-- 
2.43.0


From cfb028f0b9c665c8d7711ba529323ebbe86daca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 15/17] fix: components of integer vectors can be assigned

---
 include/zcm/detail/vec2_access.hpp | 2 ++
 include/zcm/detail/vec3_access.hpp | 2 ++
 include/zcm/detail/vec4_access.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 9e843e5..1b964a8 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_2<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_2i : public scalar_accessor_2<T, index>
 {
+    using scalar_accessor_2<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_2<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index e44babd..bdefe00 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_3<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_3i : public scalar_accessor_3<T, index>
 {
+    using scalar_accessor_3<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_3<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 812b6b1..c7cdec6 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -59,6 +59,8 @@ T format_as(const scalar_accessor_4<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_4i : public scalar_accessor_4<T, index>
 {
+    using scalar_accessor_4<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_4<T,index>::_data[index] %= s;
     }
-- 
2.43.0


From ae45c97018029e20b0835ac804c5abae3efc8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 16/17] fix: assigning one vector component from another copies
 that component only

---
 include/zcm/detail/vec2_access.hpp | 9 +++++++++
 include/zcm/detail/vec3_access.hpp | 9 +++++++++
 include/zcm/detail/vec4_access.hpp | 9 +++++++++
 include/zcm/ivec2.hpp              | 3 +++
 include/zcm/ivec3.hpp              | 3 +++
 include/zcm/ivec4.hpp              | 3 +++
 include/zcm/vec2.hpp               | 3 +++
 include/zcm/vec3.hpp               | 3 +++
 include/zcm/vec4.hpp               | 3 +++
 src/ivec2.cpp                      | 7 +++++++
 src/ivec3.cpp                      | 8 ++++++++
 src/ivec4.cpp                      | 9 +++++++++
 src/vec2.cpp                       | 7 +++++++
 src/vec3.cpp                       | 8 ++++++++
 src/vec4.cpp                       | 9 +++++++++
 15 files changed, 93 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 1b964a8..2cc5c01 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -13,6 +13,15 @@ struct scalar_accessor_2
 {
     T _data[2];
 
+    scalar_accessor_2() = default;
+    scalar_accessor_2(const scalar_accessor_2&) = default;
+
+    // a.x = b.x copies one component, not the whole vector
+    scalar_accessor_2& operator =(const scalar_accessor_2& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index bdefe00..d933473 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -15,6 +15,15 @@ struct scalar_accessor_3
 {
     T _data[3];
 
+    scalar_accessor_3() = default;
+    scalar_accessor_3(const scalar_accessor_3&) = default;
+
+    // a.x = b.x copies one component, not the whole vector
+    scalar_accessor_3& operator =(const scalar_accessor_3& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index c7cdec6..8edf3dc 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -17,6 +17,15 @@ struct scalar_accessor_4
 {
     T _data[4];
 
+    scalar_accessor_4() = default;
+    scalar_accessor_4(const scalar_accessor_4&) = default;
+
+    // a.x = b.x copies one component, not the whole vector
+    scalar_accessor_4& operator =(const scalar_accessor_4& other) noexcept {
+        _data[index] = other._data[index];
+        return *this;
+    }
+
     void operator +=(T s) noexcept {
         _data[index] += s;
     }
diff --git a/include/zcm/ivec2.hpp b/include/zcm/ivec2.hpp
index a8c94c7..43ce015 100644
--- a/include/zcm/ivec2.hpp
+++ b/include/zcm/ivec2.hpp
@@ -17,6 +17,9 @@ namespace zcm
         ivec2(double)  = delete;
         ivec2(int32_t x, int32_t y) noexcept;
 
+        ivec2(const ivec2& other) noexcept = default;
+        ivec2& operator =(const ivec2& other) noexcept;
+
         int32_t& operator[](unsigned val) noexcept;
         const int32_t& operator[](unsigned val) const noexcept;
 
diff --git a/include/zcm/ivec3.hpp b/include/zcm/ivec3.hpp
index 9fb1c81..a3e8635 100644
--- a/include/zcm/ivec3.hpp
+++ b/include/zcm/ivec3.hpp
@@ -21,6 +21,9 @@ namespace zcm
         ivec3(ivec2 xy, int32_t z) noexcept;
         ivec3(int32_t x, ivec2 yz) noexcept;
 
+        ivec3(const ivec3& other) noexcept = default;
+        ivec3& operator =(const ivec3& other) noexcept;
+
         int32_t& operator[](unsigned val) noexcept;
         const int32_t& operator[](unsigned val) const noexcept;
 
diff --git a/include/zcm/ivec4.hpp b/include/zcm/ivec4.hpp
index feaec88..5714e85 100644
--- a/include/zcm/ivec4.hpp
+++ b/include/zcm/ivec4.hpp
@@ -27,6 +27,9 @@ namespace zcm
         ivec4 (int32_t x, ivec2 yz, int32_t w) noexcept;
         ivec4 (int32_t x, int32_t y, ivec2 zw) noexcept;
 
+        ivec4(const ivec4& other) noexcept = default;
+        ivec4& operator =(const ivec4& other) noexcept;
+
         int32_t& operator[](unsigned val) noexcept;
         const int32_t& operator[](unsigned val) const noexcept;
 
diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index ac53815..f51f971 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -16,6 +16,9 @@ namespace zcm
         vec2(double)  = delete;
         vec2(float x, float y) noexcept;
 
+        vec2(const vec2& other) noexcept = default;
+        vec2& operator =(const vec2& other) noexcept;
+
         float& operator[](unsigned val) noexcept;
         const float& operator[](unsigned val) const noexcept;
 
diff --git a/include/zcm/vec3.hpp b/include/zcm/vec3.hpp
index e3a48ce..3538247 100644
--- a/include/zcm/vec3.hpp
+++ b/include/zcm/vec3.hpp
@@ -20,6 +20,9 @@ namespace zcm
         vec3(vec2 xy, float z) noexcept;
         vec3(float x, vec2 yz) noexcept;
 
+        vec3(const vec3& other) noexcept = default;
+        vec3& operator =(const vec3& other) noexcept;
+
         float& operator[](unsigned val) noexcept;
         const float& operator[](unsigned val) const noexcept;
 
diff --git a/include/zcm/vec4.hpp b/include/zcm/vec4.hpp
index eeadc43..624e5dc 100644
--- a/include/zcm/vec4.hpp
+++ b/include/zcm/vec4.hpp
@@ -27,6 +27,9 @@ namespace zcm
         vec4 (float x, vec2 yz, float w) noexcept;
         vec4 (float x, float y, vec2 zw) noexcept;
 
+        vec4(const vec4& other) noexcept = default;
+        vec4& operator =(const vec4& other) noexcept;
+
         float& operator[](unsigned val) noexcept;
         const float& operator[](unsigned val) const noexcept;
 
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index 43e4e4a..5d21634 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -38,6 +38,13 @@ zcm::ivec2 zcm::operator -(zcm::ivec2 first) noexcept
              -first._data[1] };
 }
 
+zcm::ivec2& zcm::ivec2::operator =(const zcm::ivec2& other) noexcept
+{
+    _data[0] = other._data[0];
+    _data[1] = other._data[1];
+    return *this;
+}
+
 zcm::ivec2 zcm::make_ivec2(const int32_t* ptr) noexcept
 {
     assert(ptr);
diff --git a/src/ivec3.cpp b/src/ivec3.cpp
index 8245379..6dc9726 100644
--- a/src/ivec3.cpp
+++ b/src/ivec3.cpp
@@ -43,6 +43,14 @@ zcm::ivec3::ivec3(int32_t _x, zcm::ivec2 yz) noexcept
     _data[2] = yz._data[1];
 }
 
+zcm::ivec3& zcm::ivec3::operator =(const zcm::ivec3& other) noexcept
+{
+    _data[0] = other._data[0];
+    _data[1] = other._data[1];
+    _data[2] = other._data[2];
+    return *this;
+}
+
 zcm::ivec3 zcm::make_ivec3(const int32_t* ptr) noexcept
 {
     assert(ptr);
diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index 7b29d8a..c080d9c 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -79,6 +79,15 @@ zcm::ivec4::ivec4(int32_t _x, int32_t _y, ivec2 zw) noexcept
     _data[3] = zw._data[1];
 }
 
+zcm::ivec4& zcm::ivec4::operator =(const zcm::ivec4& other) noexcept
+{
+    _data[0] = other._data[0];
+    _data[1] = other._data[1];
+    _data[2] = other._data[2];
+    _data[3] = other._data[3];
+    return *this;
+}
+
 zcm::ivec4 zcm::make_ivec4(const int32_t* ptr) noexcept
 {
     assert(ptr);
diff --git a/src/vec2.cpp b/src/vec2.cpp
index b8bb5b5..ccd33d9 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -29,6 +29,13 @@ zcm::vec2::vec2(float _x, float _y) noexcept
     _data[1] = _y;
 }
 
+zcm::vec2& zcm::vec2::operator =(const zcm::vec2& other) noexcept
+{
+    _data[0] = other._data[0];
+    _data[1] = other._data[1];
+    return *this;
+}
+
 zcm::vec2 zcm::make_vec2(const float * ptr) noexcept
 {
     assert(ptr);
diff --git a/src/vec3.cpp b/src/vec3.cpp
index 43f7d67..e252184 100644
--- a/src/vec3.cpp
+++ b/src/vec3.cpp
@@ -46,6 +46,14 @@ zcm::vec3::vec3(float _x, zcm::vec2 yz) noexcept
     _data[2] = yz._data[1];
 }
 
+zcm::vec3& zcm::vec3::operator =(const zcm::vec3& other) noexcept
+{
+    _data[0] = other._data[0];
+    _data[1] = other._data[1];
+    _data[2] = other._data[2];
+    return *this;
+}
+
 zcm::vec3 zcm::make_vec3(const float * ptr) noexcept
 {
     assert(ptr);
diff --git a/src/vec4.cpp b/src/vec4.cpp
index c31da88..b942b91 100644
--- a/src/vec4.cpp
+++ b/src/vec4.cpp
@@ -83,6 +83,15 @@ zcm::vec4::vec4(float _x, float _y, vec2 zw) noexcept
     _data[3] = zw._data[1];
 }
 
+zcm::vec4& zcm::vec4::operator =(const zcm::vec4& other) noexcept
+{
+    _data[0] = other._data[0];
+    _data[1] = other._data[1];
+    _data[2] = other._data[2];
+    _data[3] = other._data[3];
+    return *this;
+}
+
 zcm::vec4 zcm::make_vec4(const float * ptr) noexcept
 {
     assert(ptr);
-- 
2.43.0


From f29ea440f53e6229f05a4fc4f41468857769b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 17/17] fix: angle of a unit quaternion whose w rounds above 1
 is a number

---
 src/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index f8f2014..8e5be5f 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -204,7 +204,7 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(q.w) * 2.0f;
+    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f; // rounding may leave w of a unit quaternion above 1
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0

