From 3f86e9bd6b6eae4521afbb870cdfe80679603330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:22 +0000
Subject: [PATCH 1/5] fix: copies of integer and float formatters refer to
 their own buffer

FormatInt and FormatFloat keep pointers into their inline buffer; the implicit
copy operations copied the pointers, so a copy showed (or dangled into) the
object it was copied from.
---
 include/lexi/float.hpp |  3 +++
 include/lexi/int.hpp   |  3 +++
 src/float.cpp          | 25 +++++++++++++++++++++++++
 src/int.cpp            | 27 +++++++++++++++++++++++++++
 4 files changed, 58 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..4e10ece 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -32,6 +32,9 @@ public:
     FormatFloat(double value);
     FormatFloat(long double value);
 
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
+
     // DATA
     size_t size() const;
     size_t length() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..689911b 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -37,6 +37,9 @@ public:
     FormatInt(long long value);
     FormatInt(unsigned long long value);
 
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
+
     // DATA
     size_t size() const;
     size_t length() const;
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..7309a5d 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -68,6 +68,31 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor.
+ *
+ *  The range refers to the object's own buffer, never to the source's.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other):
+    first(buffer_),
+    last(buffer_ + other.size())
+{
+    memcpy(buffer_, other.first, other.size() + 1);
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        first = buffer_;
+        last = buffer_ + other.size();
+        memcpy(buffer_, other.first, other.size() + 1);
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..ed2aee9 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,31 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor.
+ *
+ *  The range refers to the object's own buffer, never to the source's.
+ */
+FormatInt::FormatInt(const FormatInt &other):
+    first(buffer_),
+    last(buffer_ + other.size())
+{
+    memcpy(buffer_, other.first, other.size() + 1);
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        first = buffer_;
+        last = buffer_ + other.size();
+        memcpy(buffer_, other.first, other.size() + 1);
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From d6f5ee5459293e0b3ace314adb6453719deaa0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 2/5] fix: extract floats with '.' as the decimal point in
 every locale

Formatting always writes '.', but extraction went through strtold, which expects
the locale's decimal point: under de_DE, "1.5" was extracted as 1.
---
 src/float.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/float.cpp b/src/float.cpp
index 7309a5d..3df2290 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -10,6 +10,8 @@
 #include "lexi/detail/dtoa.hpp"
 #include "lexi/detail/ieee754.hpp"
 
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 
 
@@ -22,6 +24,33 @@ static const char NAN_STRING[] = LEXI_NAN;
 static const char INFINITY_STRING[] = LEXI_INFINITY;
 static const char NEGATIVE_INFINITY_STRING[] = LEXI_NEGATIVE_INFINITY;
 
+// FUNCTIONS -- HELPERS
+// --------------------
+
+
+/** \brief Parse number using '.' as the decimal point in every locale.
+ */
+template <typename T>
+static T parse(const char *string,
+    T (*strto)(const char *, char **))
+{
+    char *end;
+    const T value = strto(string, &end);
+    const char *point = strchr(string, '.');
+    if (point == nullptr || end > point) {
+        return value;
+    }
+
+    // Stopped before the point: the current locale may use another one.
+    char radix[16];
+    snprintf(radix, sizeof(radix), "%.1f", 0.5);
+    std::string localized(string, point);
+    localized.append(radix + 1, strlen(radix) - 2);
+    localized.append(point + 1);
+    return strto(localized.data(), nullptr);
+}
+
+
 // OBJECTS
 // -------
 
@@ -162,7 +191,7 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
-    data_ = std::strtold(string.data(), nullptr);
+    data_ = parse(string.data(), std::strtold);
 }
 
 
-- 
2.43.0


From ced29a6ffe3a52b366d83bbed8f9e26b43f12b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 3/5] fix: extract float and double with a single rounding

Extraction rounded to long double and then to the requested type, so about two
in a million doubles did not read back from the text that formatting gave them:
-3.585620692381522e34 was extracted as its neighbour.
---
 include/lexi/float.hpp |  2 ++
 src/float.cpp          | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index 4e10ece..0b71cc1 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -55,6 +55,8 @@ public:
 class ExtractFloat
 {
 protected:
+    float float_;
+    double double_;
     long double data_;
 
 public:
diff --git a/src/float.cpp b/src/float.cpp
index 3df2290..bcaa2dc 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -10,6 +10,7 @@
 #include "lexi/detail/dtoa.hpp"
 #include "lexi/detail/ieee754.hpp"
 
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -191,6 +192,11 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
+    // Parse at each precision, since narrowing the widest one rounds twice.
+    const int code = errno;
+    float_ = parse(string.data(), std::strtof);
+    double_ = parse(string.data(), std::strtod);
+    errno = code;       // only the widest type sets the range error
     data_ = parse(string.data(), std::strtold);
 }
 
@@ -199,7 +205,7 @@ ExtractFloat::ExtractFloat(const std::string &string)
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    return float_;
 }
 
 
@@ -207,7 +213,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return double_;
 }
 
 
-- 
2.43.0


From c6d76caf7e363990725457a35ba70a5db30de7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:29 +0000
Subject: [PATCH 4/5] fix: keep the power-of-ten lookup of dtoa inside its
 table

---
 src/detail/dtoa.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..e1872e6 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,12 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL,
+    100000ULL, 1000000ULL, 10000000ULL, 100000000ULL, 1000000000ULL,
+    10000000000ULL, 100000000000ULL, 1000000000000ULL, 10000000000000ULL, 100000000000000ULL,
+    1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL, 10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
@@ -247,7 +252,7 @@ void generateDigits(const DiyFp &W,
         uint64_t tmp = (static_cast<uint64_t>(p1) << -one.e) + p2;
         if (tmp <= delta) {
             *k += kappa;
-            grisuRound(buffer, *len, delta, tmp, static_cast<uint64_t>(POWER10[kappa]) << -one.e, wp_w.f);
+            grisuRound(buffer, *len, delta, tmp, POWER10[kappa] << -one.e, wp_w.f);
             return;
         }
     }
-- 
2.43.0


From 045ee8c6bb0fc0b70cf682c1922e21040c16d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:04 +0000
Subject: [PATCH 5/5] fix: format denormal numbers when the processor treats
 them as zero

With flush-to-zero and denormals-are-zero set, as in a program linked with
-ffast-math, dtoa's comparisons took denormal numbers for zero, and they were
formatted as 0.0. Look at the bits of the value instead.
---
 include/lexi/detail/dtoa.hpp | 1 +
 src/detail/dtoa.cpp          | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexi/detail/dtoa.hpp b/include/lexi/detail/dtoa.hpp
index 47c1092..ccd5387 100644
--- a/include/lexi/detail/dtoa.hpp
+++ b/include/lexi/detail/dtoa.hpp
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "diyfp.hpp"
+#include "ieee754.hpp"
 
 
 namespace lexi
diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index e1872e6..4c2b597 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -380,13 +380,14 @@ char * prettify(char *buffer,
 char * dtoa(double value,
     char *buffer)
 {
-    if (value == 0) {
+    // look at the bits: comparisons may take denormal numbers for zero
+    if (isZero(value)) {
         *buffer++ = '0';
         *buffer++ = '.';
         *buffer++ = '0';
         *buffer = '\0';
     } else {
-        if (value < 0) {
+        if (!isPositive(value)) {
             *buffer++ = '-';
             value = -value;
         }
-- 
2.43.0

