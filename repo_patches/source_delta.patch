From 2f712205a004fdfd814c60c2651382bed4424ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:11 +0000
Subject: [PATCH 001/124] fix: do not read past the end of the precomputed
 powers of 10

Table B entries and C07yyy operators can have scales larger than 16: for
example, B40247 in B0000000000254019001 has scale -20.
---
 wreport/varinfo.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 97768b6..642bd87 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -236,12 +236,21 @@ static const double scales[] = {
 	10000000000000000.0,
 };
 
+// Compute 10^x, for scales that may come from tables or C07yyy operators and
+// can be larger than what is precomputed in scales
+static inline double scale_factor(int x)
+{
+    if (x < static_cast<int>(sizeof(scales) / sizeof(scales[0])))
+        return scales[x];
+    return pow(10.0, x);
+}
+
 double _Varinfo::decode_decimal(int val) const
 {
     if (scale > 0)
-        return val / scales[scale];
+        return val / scale_factor(scale);
     else if (scale < 0)
-        return val * scales[-scale];
+        return val * scale_factor(-scale);
     else
         return val;
 }
@@ -252,17 +261,17 @@ double _Varinfo::decode_binary(uint32_t ival) const
         error_consistency::throwf("cannot decode %01d%02d%03d from binary, because the information needed is missing from the B table in use",
                 WR_VAR_FXY(code));
     if (scale >= 0)
-        return ((double)ival + bit_ref) / scales[scale];
+        return ((double)ival + bit_ref) / scale_factor(scale);
     else
-        return ((double)ival + bit_ref) * scales[-scale];
+        return ((double)ival + bit_ref) * scale_factor(-scale);
 }
 
 int _Varinfo::encode_decimal(double fval) const
 {
     if (scale > 0)
-        return (int)rint(fval * scales[scale]);
+        return (int)rint(fval * scale_factor(scale));
     else if (scale < 0)
-        return (int)rint(fval / scales[-scale]);
+        return (int)rint(fval / scale_factor(-scale));
     else
         return (int)rint(fval);
 }
@@ -270,9 +279,9 @@ int _Varinfo::encode_decimal(double fval) const
 double _Varinfo::round_decimal(double val) const
 {
     if (scale > 0)
-        return round(val * scales[scale]) / scales[scale];
+        return round(val * scale_factor(scale)) / scale_factor(scale);
     else if (scale < 0)
-        return round(val / scales[-scale]) * scales[-scale];
+        return round(val / scale_factor(-scale)) * scale_factor(-scale);
     else
         return round(val);
 }
@@ -284,9 +293,9 @@ unsigned _Varinfo::encode_binary(double fval) const
                 WR_VAR_FXY(code));
     double res;
     if (scale > 0)
-        res = rint((fval * scales[scale]) - bit_ref);
+        res = rint((fval * scale_factor(scale)) - bit_ref);
     else if (scale < 0)
-        res = rint((fval / scales[-scale] - bit_ref));
+        res = rint((fval / scale_factor(-scale) - bit_ref));
     else
         res = rint(fval - bit_ref);
     if (res < 0)
-- 
2.43.0


From c07f3a86042d83fd78e9a6a5d65c37d4f6a0f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:25 +0000
Subject: [PATCH 002/124] fix: compute the range of variables without overflows
 or off by one

The range of delayed replication factors (X=31) included 2^bit_len, which does
not fit in bit_len bits and was encoded as 0, and 1 << bit_len overflowed for
variables encoded with 31 or 32 bits.
---
 wreport/varinfo.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 642bd87..759e114 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -191,24 +191,27 @@ void _Varinfo::compute_range()
                 imin =  static_cast<int>(-(intexp10(len) - 1.0));
                 imax = static_cast<int>((intexp10(len) - 2.0));
             } else {
-                int bit_min = bit_ref;
-                int bit_max = (1 << bit_len) + bit_ref;
+                // Use 64 bits, since bit_len can be 32 and bit_ref any value
+                int64_t bit_min = bit_ref;
+                int64_t bit_max = (INT64_C(1) << min(bit_len, 32u)) + bit_ref;
                 // We subtract 2 because 2^bit_len-1 is the
                 // BUFR missing value.
-                // We cannot subtract 2 from the delayed replication
+                // We only subtract 1 from the delayed replication
                 // factors because RADAR BUFR messages have 255
                 // subsets, and the delayed replication field is 8
                 // bits, so 255 is the missing value, and if we
                 // disallow it here we cannot import radars anymore.
                 if (WR_VAR_X(code) != 31)
                     bit_max -= 2;
+                else
+                    bit_max -= 1;
                 // We subtract 2 because 10^len-1 is the
                 // CREX missing value
-                int dec_min = static_cast<int>(-(intexp10(len) - 1.0));
-                int dec_max = static_cast<int>((intexp10(len) - 2.0));
+                int64_t dec_min = static_cast<int>(-(intexp10(len) - 1.0));
+                int64_t dec_max = static_cast<int>((intexp10(len) - 2.0));
 
-                imin = max(bit_min, dec_min);
-                imax = min(bit_max, dec_max);
+                imin = static_cast<int>(max(bit_min, dec_min));
+                imax = static_cast<int>(min(bit_max, dec_max));
             }
             dmin = decode_decimal(imin);
             dmax = decode_decimal(imax);
-- 
2.43.0


From 8152a5723a94f3f44ea01d988468f690e43dab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:00 +0000
Subject: [PATCH 003/124] fix: refuse to encode values that do not fit in the
 bits available

Values too big for the field were silently truncated by BufrOutput, and values
that encode as all ones were read back as missing.
---
 wreport/varinfo.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 759e114..015007a 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -304,6 +304,12 @@ unsigned _Varinfo::encode_binary(double fval) const
     if (res < 0)
         error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives negative value %f",
                 WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
+    // All bits set to 1 means missing value, except in delayed replication
+    // factors (see compute_range)
+    double res_max = ldexp(1.0, static_cast<int>(min(bit_len, 32u))) - (WR_VAR_X(code) == 31 ? 1 : 2);
+    if (!(res <= res_max))
+        error_consistency::throwf("Cannot encode %01d%02d%03d %f to %u bits using scale %d and ref %d: encoding gives %f which does not fit",
+                WR_VAR_FXY(code), fval, bit_len, scale, bit_ref, res);
     return (unsigned)res;
 }
 
-- 
2.43.0


From 774ccade9dfdb9a3f80ababe2b02d0ef11f8b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 004/124] fix: assign variables of different types or lengths

Var::operator= kept using the old value storage with the new varinfo, causing
leaks, buffer overflows or dereferencing numbers as pointers. The move
assignment did not assign the varinfo at all.
---
 wreport/var.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 844f9ed..9d27b24 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -150,24 +150,26 @@ Var& Var::operator=(const Var& var)
 {
     if (&var == this) return *this;
 
-    // Copy info
-    m_info = var.m_info;
-
-    // Copy value
-    copy_value(var);
-
-    // Copy attributes
-    setattrs(var);
+    // Copy to a temporary first: var can be one of our attributes, and the
+    // storage for our value depends on the current info
+    *this = Var(var);
     return *this;
 }
 
 Var& Var::operator=(Var&& var)
 {
     if (&var == this) return *this;
-    move_value(var);
-    delete m_attrs;
-    m_attrs = var.m_attrs;
-    var.m_attrs = nullptr;
+
+    // Take everything from var before changing this, since var can be one of
+    // our attributes
+    Var tmp(std::move(var));
+
+    // The storage for the value depends on the info: exchange both, and have
+    // tmp deallocate the old ones
+    std::swap(m_info, tmp.m_info);
+    std::swap(m_isset, tmp.m_isset);
+    std::swap(m_value, tmp.m_value);
+    std::swap(m_attrs, tmp.m_attrs);
     return *this;
 }
 
-- 
2.43.0


From 1c5128c2bd616fa6851da18a19afa9a997cb134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 005/124] fix: move the attribute instead of copying it in
 Var::seta(Var&&)

The documentation states that attr is left unset.
---
 wreport/var.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 9d27b24..7fe96d6 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -639,7 +639,7 @@ void Var::seta(const Var& attr)
 
 void Var::seta(Var&& attr)
 {
-    seta(unique_ptr<Var>(new Var(attr)));
+    seta(unique_ptr<Var>(new Var(std::move(attr))));
 }
 
 void Var::seta(unique_ptr<Var>&& attr)
-- 
2.43.0


From 0963b68131a09832fd1c495aa86cad5b2af2d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 006/124] fix: avoid a signed overflow when converting INT_MIN
 to string

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 7fe96d6..9a50bd0 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -322,7 +322,7 @@ static inline void int32_to_str(int32_t val, char* buf, unsigned size)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = 0u - static_cast<uint32_t>(val);
         buf[0] = '-';
         ++dest;
         --size;
@@ -342,7 +342,7 @@ static inline std::string int32_to_stdstr(int32_t val)
     uint32_t dec;
     if (val < 0)
     {
-        dec = -val;
+        dec = 0u - static_cast<uint32_t>(val);
         unsigned digits = count_digits(dec);
         res.resize(digits + 1);
         char* dest = res.data();
-- 
2.43.0


From 3ada3f96c104261ab681ac768c905396beb7a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 007/124] fix: do not truncate formatted values to 19
 characters

---
 wreport/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 9a50bd0..857a9a1 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -736,8 +736,8 @@ std::string Var::format(const char* ifundef) const
         case Vartype::Integer:
         case Vartype::Decimal: {
             Varinfo i = info();
-            char buf[30];
-            snprintf(buf, 20, "%.*f", i->scale > 0 ? i->scale : 0, enqd());
+            char buf[350];
+            snprintf(buf, sizeof(buf), "%.*f", i->scale > 0 ? i->scale : 0, enqd());
             return buf;
         }
     }
-- 
2.43.0


From e31157f0a4be713f5dcc5409cc49c8dae0d6c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 008/124] fix: do not read past the end of binary values

Binary values were not zero-terminated, and Var::enqs and Var::diff treated them
as zero-terminated strings.
---
 wreport/var.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 857a9a1..c100eb1 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -214,7 +214,7 @@ void Var::copy_value(const Var& var)
     {
         case Vartype::Binary:
             allocate();
-            memcpy(m_value.c, var.m_value.c, m_info->len);
+            memcpy(m_value.c, var.m_value.c, m_info->len + 1);
             break;
         case Vartype::String:
             allocate();
@@ -394,8 +394,9 @@ std::string Var::enqs() const
     switch (m_info->type)
     {
         case Vartype::String:
-        case Vartype::Binary:
             return m_value.c;
+        case Vartype::Binary:
+            return std::string(m_value.c, m_info->len);
         case Vartype::Integer:
         case Vartype::Decimal:
             return int32_to_stdstr(m_value.i);
@@ -492,6 +493,7 @@ void Var::assign_b_checked(const uint8_t* val, unsigned size)
         if (m_info->bit_len % 8)
             m_value.c[m_info->len - 1] &= static_cast<unsigned char>((1 << (m_info->bit_len % 8)) - 1);
     }
+    m_value.c[m_info->len] = 0;
     m_isset = true;
 }
 
-- 
2.43.0


From ae97fc03a04ba68afe308923903beef629864570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:56 +0000
Subject: [PATCH 009/124] fix: do not read past the end of the source in
 Var::setval for binary variables

---
 wreport/var.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index c100eb1..585e388 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -702,7 +702,12 @@ void Var::setval(const Var& src)
     switch (m_info->type)
     {
         case Vartype::String: assign_c_checked(src.enqc(), m_info->len); break;
-        case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(src.enqc()), m_info->len); break;
+        case Vartype::Binary:
+        {
+            string val = src.enqs();
+            assign_b_checked(reinterpret_cast<const uint8_t*>(val.data()), static_cast<unsigned>(val.size()));
+            break;
+        }
         case Vartype::Integer:
         case Vartype::Decimal:
             /// Convert and set the new value
-- 
2.43.0


From f0a2331de5dac36d58401b935b9a99e9838262f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:38 +0000
Subject: [PATCH 010/124] fix: raise domain errors when setting integers from
 doubles that do not fit

NaN, infinity, and numbers that do not fit in an int were stored as some
unrelated integer.
---
 wreport/var.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 585e388..324a7e2 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -538,7 +538,13 @@ void Var::setd(double val)
         case Vartype::Binary:
             error_type::throwf("seti: %01d%02d%03d (%s) is an opaque binary",
                     WR_VAR_FXY(m_info->code), m_info->desc);
-        case Vartype::Integer: assign_i_checked(static_cast<int>(lround(val))); break;
+        case Vartype::Integer:
+            if (fabs(val) < 2147483647.0)
+                assign_i_checked(static_cast<int>(lround(val)));
+            else
+                // NaN, infinity, or a value that may not fit in an int
+                assign_d_checked(val);
+            break;
         case Vartype::Decimal: assign_d_checked(val); break;
     }
 }
-- 
2.43.0


From 4010410b8fdc68dfd1460f687ad98bb64e056806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:41 +0000
Subject: [PATCH 011/124] fix: raise domain errors when setting variables from
 strings of digits that do not fit in an int

---
 wreport/var.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 324a7e2..98a379b 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -75,12 +75,20 @@ size_t uint32_to_str(uint32_t value, unsigned value_digits, char *dst)
 }
 
 // From http://stackoverflow.com/questions/16826422/c-most-efficient-way-to-convert-string-to-int-faster-than-atoi
-unsigned str_to_unsigned(const char *str)
+// Returns false if the value does not fit in an int
+bool str_to_int(const char *str, int32_t& res)
 {
-    unsigned val = 0;
+    const bool negative = *str == '-';
+    if (negative) ++str;
+    int64_t val = 0;
     while (*str)
+    {
         val = val * 10 + (*str++ - '0');
-    return val;
+        if (val > static_cast<int64_t>(INT32_MAX) + (negative ? 1 : 0))
+            return false;
+    }
+    res = static_cast<int32_t>(negative ? -val : val);
+    return true;
 }
 
 bool isnumber(const char *str)
@@ -557,13 +565,16 @@ void Var::setc(const char* val)
         case Vartype::Binary: assign_b_checked((const uint8_t*)val, m_info->len); break;
         case Vartype::Decimal:
         case Vartype::Integer:
+        {
+            int32_t ival;
             if (!isnumber(val))
                 unset();
-            else if (*val == '-')
-                assign_i_checked(-str_to_unsigned(val + 1));
+            else if (str_to_int(val, ival))
+                assign_i_checked(ival);
             else
-                assign_i_checked(str_to_unsigned(val));
+                assign_d_checked(strtod(val, nullptr) * m_info->decode_decimal(1));
             break;
+        }
     }
 }
 
@@ -590,12 +601,7 @@ void Var::sets(const std::string& val)
         case Vartype::Binary: assign_b_checked(reinterpret_cast<const uint8_t*>(val.c_str()), static_cast<unsigned>(val.size())); break;
         case Vartype::Integer:
         case Vartype::Decimal:
-            if (!isnumber(val.c_str()))
-                unset();
-            else if (val[0] == '-')
-                assign_i_checked(-str_to_unsigned(val.c_str() + 1));
-            else
-                assign_i_checked(str_to_unsigned(val.c_str()));
+            setc(val.c_str());
             break;
     }
 }
-- 
2.43.0


From c8750b52f89bb87e40182e129bdaa6510d073d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:44 +0000
Subject: [PATCH 012/124] fix: compare the attributes of unset variables in
 Var::diff

---
 wreport/var.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 98a379b..2b61897 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -844,27 +844,25 @@ unsigned Var::diff(const Var& var) const
                 WR_VAR_F(var.info()->code), WR_VAR_X(var.info()->code), WR_VAR_Y(var.info()->code), var.info()->desc);
         return 1;
     }
-    if (!isset() && !var.isset())
-        return 0;
-    if (!isset())
+    if (!isset() && var.isset())
     {
         notes::logf("[%d%02d%03d %s] first value is NULL, second value is %s\n",
                 WR_VAR_FXY(code()), m_info->desc, var.enqc());
         return 1;
     }
-    if (!var.isset())
+    if (isset() && !var.isset())
     {
         notes::logf("[%d%02d%03d %s] first value is %s, second value is NULL\n",
                 WR_VAR_FXY(code()), m_info->desc, enqc());
         return 1;
     }
-    if (m_info->type != var.m_info->type)
+    if (isset() && m_info->type != var.m_info->type)
     {
         notes::logf("[%d%02d%03d %s] first variable has type %s, second has type %s\n",
                 WR_VAR_FXY(code()), m_info->desc, vartype_format(m_info->type), vartype_format(var.m_info->type));
         return 1;
     }
-    switch (m_info->type)
+    if (isset()) switch (m_info->type)
     {
         case Vartype::Binary:
             if (m_info->bit_len != var.info()->bit_len)
-- 
2.43.0


From 9c4ab604615574a6f03a0dced9469df0b26c8dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:47 +0000
Subject: [PATCH 013/124] fix: do not dereference numbers as pointers when
 comparing variables of different types

---
 wreport/var.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index 2b61897..80cdecc 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -266,12 +266,16 @@ bool Var::value_equals(const Var& var) const
     switch (m_info->type)
     {
         case Vartype::Binary:
-            return memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
+            return var.m_info->type == Vartype::Binary
+                && m_info->bit_len == var.m_info->bit_len
+                && memcmp(m_value.c, var.m_value.c, m_info->len) == 0;
         case Vartype::String:
-            return strcmp(m_value.c, var.m_value.c) == 0;
+            return var.m_info->type == Vartype::String
+                && strcmp(m_value.c, var.m_value.c) == 0;
         case Vartype::Integer:
         case Vartype::Decimal:
-            return m_value.i == var.m_value.i;
+            return (var.m_info->type == Vartype::Integer || var.m_info->type == Vartype::Decimal)
+                && m_value.i == var.m_value.i;
     }
     error_consistency::throwf("unknown variable type %d", (int)m_info->type);
 }
-- 
2.43.0


From 79209dc508113fce6205ef5fce0c7b20ea44b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:51 +0000
Subject: [PATCH 014/124] fix: avoid overlapping copies when calling
 Var::setval on itself

---
 wreport/var.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/var.cc b/wreport/var.cc
index 80cdecc..fe36eac 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -710,6 +710,7 @@ const Var* Var::next_attr() const
 
 void Var::setval(const Var& src)
 {
+    if (&src == this) return;
     if (!src.isset())
     {
         unset();
-- 
2.43.0


From 5ddb057f1ef0a4dfd004868337d6fb1c4456f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:00 +0000
Subject: [PATCH 015/124] fix: do not lose attributes when calling
 Var::setattrs on itself

---
 wreport/var.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wreport/var.cc b/wreport/var.cc
index fe36eac..e75d523 100644
--- a/wreport/var.cc
+++ b/wreport/var.cc
@@ -735,9 +735,10 @@ void Var::setval(const Var& src)
 
 void Var::setattrs(const Var& src)
 {
+    // Copy before deleting, since src can be this, or one of its attributes
+    Var* new_attrs = src.m_attrs ? new Var(*src.m_attrs) : nullptr;
     clear_attrs();
-    if (src.m_attrs)
-        m_attrs = new Var(*src.m_attrs);
+    m_attrs = new_attrs;
 }
 
 std::string Var::format(const char* ifundef) const
-- 
2.43.0


From 9d46dd43aca66408d8f4aadfa1b2bec2f9f0df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:05 +0000
Subject: [PATCH 016/124] fix: reject incomplete or unknown codes in
 varcode_parse

Strings shorter than 6 characters were read past their end, and any unknown
letter was parsed as B.
---
 wreport/varinfo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/varinfo.cc b/wreport/varinfo.cc
index 015007a..2dadc1e 100644
--- a/wreport/varinfo.cc
+++ b/wreport/varinfo.cc
@@ -79,12 +79,12 @@ Varcode varcode_parse(const char* entry)
         case '3':
             res = 3 << 14; break;
         default:
-            res = 0; break;
+            error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
     }
 
     // Ensure that B is followed by 5 integers
     for (unsigned i = 1; i < 6; ++i)
-        if (entry[i] and !isdigit(entry[i]))
+        if (!isdigit(entry[i]))
             error_consistency::throwf("cannot parse a Varcode out of '%s'", entry);
 
     return res + WR_STRING_TO_VAR(entry + 1);
-- 
2.43.0


From 024ec427809ba4db2fca1a91c507cca076c9edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 017/124] fix: zero-terminate descriptions and units that fill
 their table field

---
 wreport/vartable.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index affb634..1c0094c 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -349,14 +349,16 @@ struct BufrVartable : public VartableBase
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
+            entry->desc[63] = 0;
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the unit
             memcpy(entry->unit, line+73, 24);
+            entry->unit[23] = 0;
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
@@ -430,14 +432,16 @@ struct CrexVartable : public VartableBase
 
             // Read the description
             memcpy(entry->desc, line+8, 64);
+            entry->desc[63] = 0;
             // Convert the description from space-padded to zero-padded
-            for (int i = 63; i >= 0 && isspace(entry->desc[i]); --i)
+            for (int i = 62; i >= 0 && isspace(entry->desc[i]); --i)
                 entry->desc[i] = 0;
 
             // Read the CREX unit
             memcpy(entry->unit, line+119, 24);
+            entry->unit[23] = 0;
             // Convert the unit from space-padded to zero-padded
-            for (int i = 23; i >= 0 && isspace(entry->unit[i]); --i)
+            for (int i = 22; i >= 0 && isspace(entry->unit[i]); --i)
                 entry->unit[i] = 0;
             normalise_unit(entry->unit);
 
-- 
2.43.0


From 9bc2866228447c2293eecc78b39b23beda9e5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:27 +0000
Subject: [PATCH 018/124] fix: compute the length of altered binary variables
 rounding up the last byte

---
 wreport/vartable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 1c0094c..818474f 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -136,7 +136,7 @@ struct VartableEntry
                 varinfo.len = varinfo.bit_len / 8;
                 break;
             case Vartype::Binary:
-                varinfo.len = static_cast<unsigned>(ceil(varinfo.bit_len / 8));
+                varinfo.len = static_cast<unsigned>(ceil(varinfo.bit_len / 8.0));
                 break;
         }
 
-- 
2.43.0


From c7f07241bd785e452184ef655404beeb09527d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 019/124] fix: check the length of CREX table lines before
 parsing the variable code

---
 wreport/vartable.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index 818474f..fe087c9 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -412,9 +412,12 @@ struct CrexVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
+            size_t line_len = strlen(line);
+            if (line_len < 7)
+                throw error_parse(pathname.c_str(), line_no, "crex table line too short");
             Varcode code = WR_STRING_TO_VAR(line + 2);
 
-            if (strlen(line) < 157)
+            if (line_len < 157)
             {
                 // Rows for delayed replicators do not have crex entries, so we
                 // skip them
-- 
2.43.0


From 9999e80f68929c33f6007c5dcdb7a206310b5026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:57 +0000
Subject: [PATCH 020/124] fix: find all the entries of D tables that are not
 sorted

Entries are looked up by binary search, but versions 12 and 13 of the WMO
tables, and some local tables, have entries that are out of order and could
not be found.
---
 wreport/dtable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index ec183ce..fedcda3 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <algorithm>
 #include <map>
 
 using namespace std;
@@ -123,6 +124,9 @@ struct DTableBase : public DTable
         unsigned last_count = static_cast<unsigned>(varcodes.size()) - begin;
         if (last_count != nentries_check)
             error_parse::throwf(pathname.c_str(), line_no, "advertised number of expansion items (%u) does not match the number of items found (%u)", nentries_check, last_count);
+
+        // query() does a binary search, but some tables have unsorted entries
+        std::stable_sort(entries.begin(), entries.end(), [](const Entry& a, const Entry& b) { return a.code < b.code; });
     }
 
     ~DTableBase()
-- 
2.43.0


From 0f9d9fa00a10b9b9e1ef83a98849fd77bf6578f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:34 +0000
Subject: [PATCH 021/124] fix: realign the fields of B15028 in tables 27 to 31

Fields are read by byte position: the multibyte unit shifted the following
fields, and the entry was loaded with a bit length of 0.
---
 tables/B0000000000000027000.txt | 2 +-
 tables/B0000000000000028000.txt | 2 +-
 tables/B0000000000000029000.txt | 2 +-
 tables/B0000000000000030000.txt | 2 +-
 tables/B0000000000000031000.txt | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tables/B0000000000000027000.txt b/tables/B0000000000000027000.txt
index a5322d0..0a1b143 100644
--- a/tables/B0000000000000027000.txt
+++ b/tables/B0000000000000027000.txt
@@ -824,7 +824,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000028000.txt b/tables/B0000000000000028000.txt
index 24b3e06..c4e7563 100644
--- a/tables/B0000000000000028000.txt
+++ b/tables/B0000000000000028000.txt
@@ -839,7 +839,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000029000.txt b/tables/B0000000000000029000.txt
index bb02701..d190da7 100644
--- a/tables/B0000000000000029000.txt
+++ b/tables/B0000000000000029000.txt
@@ -844,7 +844,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000030000.txt b/tables/B0000000000000030000.txt
index 1aa1157..c050287 100644
--- a/tables/B0000000000000030000.txt
+++ b/tables/B0000000000000030000.txt
@@ -845,7 +845,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
diff --git a/tables/B0000000000000031000.txt b/tables/B0000000000000031000.txt
index d8d2a13..73483ac 100644
--- a/tables/B0000000000000031000.txt
+++ b/tables/B0000000000000031000.txt
@@ -850,7 +850,7 @@
  015025 Type of pollutant                                                CODE TABLE                 0            0   4 CODE TABLE                0         2
  015026 Concentration of pollutant (mol mol-1)                           MOL/MOL                    9            0   9 MOL/MOL                   9         3
  015027 Concentration of pollutant (kg m-3)                              KG M-3                     9            0  10 KG M-3                    9         4
- 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                          5            0  16 ‰                         5         5
+ 015028 Mole fraction of atmospheric constituent/pollutant in dry air    ‰                        5            0  16 ‰                       5         5
  015029 Extinction coefficient                                           /M                         9            0  30 /M                        9        10
  015030 Aerosol contamination index                                      NUMERIC                    2        -1000  12 NUMERIC                   2         4
  015031 Atmospheric path delay in satellite signal                       M                          4        10000  15 M                         4         5
-- 
2.43.0


From 7983bfe16e00e566b783dbfa25304cea88f11fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:36 +0000
Subject: [PATCH 022/124] fix: realign the fields of B27031 and B28031 in table
 B000000002551104

Fields are read by byte position: the multibyte quote shifted the unit.
---
 tables/B000000002551104.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tables/B000000002551104.txt b/tables/B000000002551104.txt
index 06db702..fffd2e5 100644
--- a/tables/B000000002551104.txt
+++ b/tables/B000000002551104.txt
@@ -769,12 +769,12 @@
  027004 Alternate latitude (high accuracy)                               DEGREE                     5     -9000000  25 DEGREE                    5          7 
  027020 Satellite location counter                                       NUMERIC                    0            0  16 NUMERIC                   0          5 
  027021 Satellite sublocation dimension                                  NUMERIC                    0            0  16 NUMERIC                   0          5 
- 027031 In direction of 0 degrees longitude, distance from the Earths c M                          2  -1073741824  31 M                         2         10 
+ 027031 In direction of 0 degrees longitude, distance from the Earth's c M                          2  -1073741824  31 M                         2         10 
  028001 Longitude (high accuracy)                                        DEGREE                     5    -18000000  26 DEGREE                    5          8 
  028002 Longitude (coarse accuracy)                                      DEGREE                     2       -18000  16 DEGREE                    2          5 
  028003 Alternate longitude (coarse accuracy)                            DEGREE                     2       -18000  16 DEGREE                    2          5 
  028004 Alternate longitude (high accuracy)                              DEGREE                     5    -18000000  26 DEGREE                    5          8 
- 028031 In direction 90 degrees East, distance from the Earths centre   M                          2  -1073741824  31 M                         2         10 
+ 028031 In direction 90 degrees East, distance from the Earth's centre   M                          2  -1073741824  31 M                         2         10 
  029001 Projection type                                                  CODE TABLE                 0            0   3 CODE TABLE                0          1 
  029002 Co-ordinate grid type                                            CODE TABLE                 0            0   3 CODE TABLE                0          1 
  029193 Long Origin                                                      DEGREE                     2       -18000  16 DEGREE                    2          5 
-- 
2.43.0


From 939b2f9874266e05d76febdee7a69ca5bff97c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:56 +0000
Subject: [PATCH 023/124] fix: initialize the pointer to the value in new
 variables

m_value{} only initialized its first member, leaving half of the pointer
uninitialized when compiled with clang.
---
 wreport/var.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/var.h b/wreport/var.h
index 46e1060..1445141 100644
--- a/wreport/var.h
+++ b/wreport/var.h
@@ -42,8 +42,10 @@ protected:
      * bits are the binary value, and the rest is set to 0.
      */
     union {
-        int32_t i;
+        // This is the first member, so that initializing with {} sets it to
+        // nullptr
         char* c;
+        int32_t i;
     } m_value;
 
     /// Attribute list (ordered by Varcode)
-- 
2.43.0


From 782c7c480a04f4c7ffdc9862cf9bdf49e1a02799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:41 +0000
Subject: [PATCH 024/124] fix: convert C/10 back to K with the right offset

---
 wreport/conv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 1a9f309..956e26e 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -216,7 +216,7 @@ struct ConvertRepository
     void add_linear(const char* from, const char* to, double mul, double add)
     {
         repo.emplace_back(from, to, new ConvertLinear(mul, add));
-        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add));
+        repo.emplace_back(to, from, new ConvertLinear(1/mul, -add/mul));
     }
 
     void add_function(const char* from, const char* to,
-- 
2.43.0


From bbf12f111d07d46d2da5ff576a83ff662e885c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:41 +0000
Subject: [PATCH 025/124] fix: convert between PA and NBAR (nanobar) with the
 right factor

---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 956e26e..8e4d0aa 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -136,8 +136,8 @@ struct ConvertRepository
         add_linear("hPa",         "PA", 100, 0);
         add_linear("PA",          "Bar", 0.00001, 0);
         add_linear("Bar",         "PA", 100000, 0);
-        add_linear("PA",          "NBAR", 0.0001, 0 );
-        add_linear("NBAR",        "PA", 10000, 0);
+        add_linear("PA",          "NBAR", 10000, 0);
+        add_linear("NBAR",        "PA", 0.0001, 0);
         add_linear("hm",          "M", 100, 0);
         add_linear("M",           "hm", 0.01, 0);
         add_linear("mm",          "M", 0.001, 0);
-- 
2.43.0


From 31eb5ff7fa5660759088fd987b546eb490009679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:41 +0000
Subject: [PATCH 026/124] fix: refuse to convert NaN and values that do not fit
 in an int to octants and degrees

---
 wreport/conv.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 8e4d0aa..6f7fbfb 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -92,6 +92,14 @@ struct Conv
     }
 };
 
+double octants_to_degrees(double val)
+{
+    // Check the range here, since out of range values cannot be cast to int
+    if (!(val > -1 && val < 9))
+        error_domain::throwf("cannot handle octants (%f) values below 0 or above 8", val);
+    return convert_octants_to_degrees(static_cast<int>(val));
+}
+
 struct ConvertRepository
 {
     std::vector<Conv> repo;
@@ -198,7 +206,7 @@ struct ConvertRepository
         add_ident("J M-2",        "J/M**2");
         add_ident("ppt",          "PART PER THOUSAND");
         add_ident("NTU",          "LM");
-        add_function("octants",   "DEGREE TRUE", convert_octants_to_degrees, convert_degrees_to_octants);
+        add_function("octants",   "DEGREE TRUE", octants_to_degrees, convert_degrees_to_octants);
 
         sort(repo.begin(), repo.end());
     }
@@ -475,7 +483,8 @@ double convert_octants_to_degrees(int from)
 
 int convert_degrees_to_octants(double from)
 {
-  if (from < 0 || from > 360)
+  // Also refuse NaN
+  if (!(from >= 0 && from <= 360))
     error_domain::throwf("cannot handle  degrees (%f) values below 0.0 or above 360.0", from);
   // 0 degrees = undefined direction (wind calm)
   if (from == 0)
-- 
2.43.0


From 1c490488d20f93a8a95b2741428d742588bcc6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:41 +0000
Subject: [PATCH 027/124] fix: make the first call to convert_units safe when
 called by several threads

---
 wreport/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/conv.cc b/wreport/conv.cc
index 6f7fbfb..ba4391d 100644
--- a/wreport/conv.cc
+++ b/wreport/conv.cc
@@ -261,10 +261,10 @@ struct ConvertRepository
 
 double convert_units(const char* from, const char* to, double val)
 {
-    static ConvertRepository* repo = nullptr;
     if (strcmp(from, to) == 0)
         return val;
-    if (!repo) repo = new ConvertRepository;
+    // Initialization is thread safe
+    static ConvertRepository* repo = new ConvertRepository;
     const Convert* conv = repo->find(from, to);
     if (!conv)
         error_unimplemented::throwf("conversion from \"%s\" to \"%s\" is not implemented", from, to);
-- 
2.43.0


From 399aad3a9cdaf80dbd310b7fd081469bd3819d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:41 +0000
Subject: [PATCH 028/124] fix: do not access memory past the end in
 Opcodes::operator[]

---
 wreport/opcodes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/opcodes.h b/wreport/opcodes.h
index 8fc5596..7eb11c9 100644
--- a/wreport/opcodes.h
+++ b/wreport/opcodes.h
@@ -35,7 +35,7 @@ struct Opcodes
     /// Return the i-th varcode in the chain
     Varcode operator[](unsigned i) const
     {
-        if (begin + i > end)
+        if (i >= size())
             return 0;
         else
             return begin[i];
@@ -97,7 +97,7 @@ struct Opcodes
     /// Return the opcodes from \a skip until the end
     Opcodes sub(unsigned skip) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
         else
             return Opcodes(begin + skip, end);
@@ -106,9 +106,9 @@ struct Opcodes
     /// Return \a len opcodes starting from \a skip
     Opcodes sub(unsigned skip, unsigned len) const
     {
-        if (begin + skip > end)
+        if (skip > size())
             return Opcodes(end, end);
-        else if (begin + skip + len >= end)
+        else if (len >= size() - skip)
             return Opcodes(begin + skip, end);
         else
             return Opcodes(begin + skip, begin + skip + len);
-- 
2.43.0


From 6e2cabc3e02998a0f4cec114fb6e26a5cab788c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:17 +0000
Subject: [PATCH 029/124] fix: prefer tables without local extensions when none
 are requested

---
 wreport/tableinfo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/tableinfo.cc b/wreport/tableinfo.cc
index bd94ebc..620421a 100644
--- a/wreport/tableinfo.cc
+++ b/wreport/tableinfo.cc
@@ -183,6 +183,10 @@ struct Compare
                         decide_second("closest match for local master table version number");
                 }
         }
+        else if (first.master_table_version_number_local < second.master_table_version_number_local)
+            decide_first("closest match for local master table version number");
+        else if (first.master_table_version_number_local > second.master_table_version_number_local)
+            decide_second("closest match for local master table version number");
         return false;
     }
 };
-- 
2.43.0


From 6015000ff1b80e788be0255abc18412ce25fa0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:17 +0000
Subject: [PATCH 030/124] fix: do not depend on the order of directory entries
 when choosing between equivalent tables

---
 wreport/internals/tabledir.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/internals/tabledir.cc b/wreport/internals/tabledir.cc
index 8b17e9f..2fd42e1 100644
--- a/wreport/internals/tabledir.cc
+++ b/wreport/internals/tabledir.cc
@@ -5,6 +5,7 @@
 #include "wreport/notes.h"
 #include "wreport/utils/sys.h"
 #include "config.h"
+#include <algorithm>
 #include <map>
 #include <cstddef>
 #include <cstring>
@@ -120,6 +121,9 @@ void Dir::refresh()
                 break;
         }
     }
+    // Directory entries are listed in no particular order: sort them, so that
+    // the table chosen among equivalent candidates is always the same
+    std::sort(tables.begin(), tables.end(), [](const Table* a, const Table* b) { return a->btable_id < b->btable_id; });
     mtime = st.st_mtime;
 }
 
-- 
2.43.0


From eaed4cb8d0e0751b13ac0e3b161881693a85d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:17 +0000
Subject: [PATCH 031/124] fix: reject table lines too long for the line buffer
 instead of reading their end as another line

---
 wreport/dtable.cc   | 2 ++
 wreport/vartable.cc | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/wreport/dtable.cc b/wreport/dtable.cc
index fedcda3..ef3dd4e 100644
--- a/wreport/dtable.cc
+++ b/wreport/dtable.cc
@@ -71,6 +71,8 @@ struct DTableBase : public DTable
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
+            if (strlen(line) == sizeof(line) - 1 && line[sizeof(line) - 2] != '\n')
+                throw error_parse(pathname.c_str(), line_no, "line too long");
             if (strlen(line) < 18)
                 throw error_parse(pathname.c_str(), line_no, "line too short");
 
diff --git a/wreport/vartable.cc b/wreport/vartable.cc
index fe087c9..1b05f35 100644
--- a/wreport/vartable.cc
+++ b/wreport/vartable.cc
@@ -337,6 +337,8 @@ struct BufrVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
+            if (strlen(line) == sizeof(line) - 1 && line[sizeof(line) - 2] != '\n')
+                throw error_parse(pathname.c_str(), line_no, "line too long");
 
             if (strlen(line) < 119)
                 throw error_parse(pathname.c_str(), line_no, "bufr table line too short");
@@ -412,6 +414,8 @@ struct CrexVartable : public VartableBase
         while (fgets(line, 200, in) != NULL)
         {
             line_no++;
+            if (strlen(line) == sizeof(line) - 1 && line[sizeof(line) - 2] != '\n')
+                throw error_parse(pathname.c_str(), line_no, "line too long");
             size_t line_len = strlen(line);
             if (line_len < 7)
                 throw error_parse(pathname.c_str(), line_no, "crex table line too short");
-- 
2.43.0


From 246e2bd1926e29887b8fa6090bc8a755e76828ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:48 +0000
Subject: [PATCH 032/124] fix: compare the BUFR master table version number of
 CREX bulletins

---
 wreport/bulletin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 5a91e27..3b1dd97 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -594,7 +594,7 @@ unsigned CrexBulletin::diff_details(const Bulletin& bulletin) const
                 master_table_version_number_local, msg.master_table_version_number_local);
         ++diffs;
     }
-    if (master_table_version_number != msg.master_table_version_number)
+    if (master_table_version_number_bufr != msg.master_table_version_number_bufr)
     {
         notes::logf("BUFR master table version numbers differ (first is %hhu, second is %hhu)\n",
                 master_table_version_number_bufr, msg.master_table_version_number_bufr);
-- 
2.43.0


From 004b50da43bb9c9e6a0dd3a62b09080b8d874a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:28 +0000
Subject: [PATCH 033/124] fix: do not share between threads the stream that
 discards notes

---
 wreport/notes.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/wreport/notes.cc b/wreport/notes.cc
index 253dd88..54ae750 100644
--- a/wreport/notes.cc
+++ b/wreport/notes.cc
@@ -17,8 +17,6 @@ struct null_streambuf : public std::streambuf
 };
 
 thread_local ostream* target = 0;
-null_streambuf* null_sb = 0;
-ostream* null_stream = 0;
 
 void set_target(std::ostream& out)
 {
@@ -41,12 +39,9 @@ std::ostream& log() throw ()
     if (target) return *target;
 
     // If there is no target, return an ostream that discards all data
-    if (!null_sb)
-    {
-        null_sb = new null_streambuf;
-        null_stream = new ostream(null_sb);
-    }
-    return *null_stream;
+    static thread_local null_streambuf null_sb;
+    static thread_local ostream null_stream(&null_sb);
+    return null_stream;
 }
 
 void logf(const char* fmt, ...)
-- 
2.43.0


From 2305995deb2b1393c54fa247d4555dac2d754888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:56 +0000
Subject: [PATCH 034/124] fix: do not apply width and scale changes to strings,
 code tables and flag tables

---
 wreport/bulletin/interpreter.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index f7be256..fac1cc3 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -5,6 +5,7 @@
 #include "wreport/vartable.h"
 #include "wreport/tables.h"
 #include "wreport/var.h"
+#include <cstring>
 
 // #define TRACE_INTERPRETER
 
@@ -85,8 +86,13 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             !c_scale_ref_width_increase && c03_refval_overrides.empty())
         return peek;
 
+    // Width, scale and reference value changes do not apply to strings, code
+    // tables and flag tables
+    bool is_quantity = (peek->type == Vartype::Integer || peek->type == Vartype::Decimal)
+        && strcmp(peek->unit, "CODE TABLE") != 0 && strcmp(peek->unit, "FLAG TABLE") != 0;
+
     int scale = peek->scale;
-    if (c_scale_change)
+    if (c_scale_change && is_quantity)
     {
         TRACE("get_varinfo:applying %d scale change\n", c_scale_change);
         scale += c_scale_change;
@@ -98,14 +104,14 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         TRACE("get_varinfo:overriding string to %d bytes\n", c_string_len_override);
         bit_len = c_string_len_override * 8;
     }
-    else if (c_width_change)
+    else if (c_width_change && is_quantity)
     {
         TRACE("get_varinfo:applying %d width change\n", c_width_change);
         bit_len += c_width_change;
     }
 
     int bit_ref = peek->bit_ref;
-    if (c_scale_ref_width_increase)
+    if (c_scale_ref_width_increase && is_quantity)
     {
         static const int pow10[10] = {
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
-- 
2.43.0


From 50e50d57d40cd9fa04cf6ae91cf41d6adbeab335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:11 +0000
Subject: [PATCH 035/124] fix: write all the bits of missing values longer than
 32 bits

---
 wreport/buffers/bufr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/buffers/bufr.h b/wreport/buffers/bufr.h
index e22adcb..4b37723 100644
--- a/wreport/buffers/bufr.h
+++ b/wreport/buffers/bufr.h
@@ -69,6 +69,8 @@ struct BufrOutput
     /// Append a missing value \a len_bits long
     void append_missing(unsigned len_bits)
     {
+        for ( ; len_bits > 32; len_bits -= 32)
+            add_bits(0xffffffff, 32);
         add_bits(0xffffffff, len_bits);
     }
 
-- 
2.43.0


From 1871099176d5c96f2eb672534e763547dfc6e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:05 +0000
Subject: [PATCH 036/124] fix: decode the value of B33041 associated fields

---
 wreport/bulletin/associated_fields.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index b27427c..da07da8 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -72,8 +72,10 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 21:
             // Add attribute B33041=value
-            if (!skip_missing || !missing)
-                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), 0));
+            if (!missing)
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41)), (int)value));
+            else if (!skip_missing)
+                return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 41))));
             else
                 return std::unique_ptr<Var>();
         case 63:
-- 
2.43.0


From 5ae276329b4eb5a225fdc645b8eb737412dee7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:16 +0000
Subject: [PATCH 037/124] fix: do not add undefined attributes for associated
 fields unless requested

---
 wreport/bulletin/associated_fields.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index da07da8..4ab90df 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -27,13 +27,17 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
     {
         case 1:
             // Add attribute B33002=value
-            if (missing)
+            if (missing && skip_missing)
+                return std::unique_ptr<Var>();
+            else if (missing)
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2))));
             else
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 2)), (int)value));
         case 2:
             // Add attribute B33003=value
-            if (missing)
+            if (missing && skip_missing)
+                return std::unique_ptr<Var>();
+            else if (missing)
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3))));
             else
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 3)), (int)value));
@@ -56,7 +60,9 @@ std::unique_ptr<Var> AssociatedField::make_attribute(unsigned value) const
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 50)), (int)value));
         case 7:
             // Add attribute B33040=value
-            if (missing)
+            if (missing && skip_missing)
+                return std::unique_ptr<Var>();
+            else if (missing)
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40))));
             else
                 return std::unique_ptr<Var>(new Var(btable.query(WR_VAR(0, 33, 40)), (int)value));
-- 
2.43.0


From 23140c8561d8df90542d851994693e8bcb9538b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:54 +0000
Subject: [PATCH 038/124] fix: restore the original reference values when
 C03000 is found

---
 wreport/bulletin/interpreter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index fac1cc3..207b16f 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -211,6 +211,10 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
             {
                 TRACE("End of reference value changes\n");
                 c03_refval_override_bits = 0;
+            } else if (bits == 0) {
+                // Restore the reference values given in table B
+                c03_refval_override_bits = 0;
+                c03_refval_overrides.clear();
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From 7439daffae410b32fb75093d724db8f6e4a92301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:40 +0000
Subject: [PATCH 039/124] fix: encode reference value overrides of 0

---
 wreport/bufr_encoder.cc           | 2 +-
 wreport/bulletin/dds-validator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index c112c1d..dcc6f63 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -132,7 +132,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             encoded |= 1 << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
-            nbits = 32 - __builtin_clz(encoded);
+            nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
         }
 
         // Check if it fits (encoded bits plus 1 for the sign)
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index a1af42b..35776da 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -112,7 +112,7 @@ void DDSValidator::define_c03_refval_override(Varcode code)
         encoded |= 1 << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
-        nbits = 32 - __builtin_clz(encoded);
+        nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
     }
 
     // Check if it fits (encoded bits plus 1 for the sign)
-- 
2.43.0


From 0c2014a1ddc2bda45f482b46a2433666ea1a2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:43 +0000
Subject: [PATCH 040/124] fix: look only among the next variables for reference
 value overrides

---
 wreport/bufr_encoder.cc           | 6 +++---
 wreport/bulletin/dds-validator.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index dcc6f63..dc48209 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -99,13 +99,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void define_c03_refval_override(Varcode code) override
     {
-        // Scan the subset looking for a variables with the given code, to see what
+        // Scan the rest of the subset looking for a variables with the given code, to see what
         // is its bit_ref
         bool found = false;
         int bit_ref = 0;
-        for (const auto& var: current_subset)
+        for (unsigned pos = current_var; pos < current_subset.size(); ++pos)
         {
-            Varinfo info = var.info();
+            Varinfo info = current_subset[pos].info();
             if (info->code == code)
             {
                 bit_ref = info->bit_ref;
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 35776da..e8db061 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -80,13 +80,13 @@ void DDSValidator::define_raw_character_data(Varcode code)
 
 void DDSValidator::define_c03_refval_override(Varcode code)
 {
-    // Scan the subset looking for a variables with the given code, to see what
+    // Scan the rest of the subset looking for a variables with the given code, to see what
     // is its bit_ref
     bool found = false;
     int bit_ref = 0;
-    for (const auto& var: current_subset)
+    for (unsigned pos = current_var; pos < current_subset.size(); ++pos)
     {
-        Varinfo info = var.info();
+        Varinfo info = current_subset[pos].info();
         if (info->code == code)
         {
             bit_ref = info->bit_ref;
-- 
2.43.0


From a2ac6645122983e8165ab79bbe18abbd5e33b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:30 +0000
Subject: [PATCH 041/124] fix: recognise missing binary values when their size
 is not a multiple of 8 bits

---
 wreport/bufr/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 5106f68..1e46d8d 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -306,7 +306,7 @@ void Input::decode_binary(Var& dest)
         unsigned count = toread > 8 ? 8 : toread;
         uint32_t bitval = get_bits(count);
         /* Check that the string is not all 0xff, meaning missing value */
-        if (bitval != 0xff)
+        if (bitval != (0xffu >> (8 - count)))
             missing = false;
         buf[len++] = bitval;
         toread -= count;
-- 
2.43.0


From 3aa0a6a1c3e391e5491368b6d6c0669cbaa3795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:15 +0000
Subject: [PATCH 042/124] fix: avoid signed overflow with 32 bits long fields

---
 wreport/buffers/bufr.cc               | 2 +-
 wreport/bufr/decoder.cc               | 2 +-
 wreport/bufr/input.cc                 | 2 +-
 wreport/bulletin/associated_fields.cc | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index ba7a2f3..b839cc9 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -22,7 +22,7 @@ namespace {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return ((1u << (bitlen - 1))-1) | (1u << (bitlen - 1));
 }
 
 }
diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 325af80..4e97266 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -9,7 +9,7 @@ namespace bufr {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return ((1u << (bitlen - 1))-1) | (1u << (bitlen - 1));
 }
 
 
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 1e46d8d..ff678ce 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -20,7 +20,7 @@ const char* bufr_sec_names[] = {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return ((1u << (bitlen - 1))-1) | (1u << (bitlen - 1));
 }
 
 }
diff --git a/wreport/bulletin/associated_fields.cc b/wreport/bulletin/associated_fields.cc
index 4ab90df..4b67652 100644
--- a/wreport/bulletin/associated_fields.cc
+++ b/wreport/bulletin/associated_fields.cc
@@ -11,7 +11,7 @@ namespace bulletin {
 // Return a value with bitlen bits set to 1
 static inline uint32_t all_ones(int bitlen)
 {
-    return ((1 << (bitlen - 1))-1) | (1 << (bitlen - 1));
+    return ((1u << (bitlen - 1))-1) | (1u << (bitlen - 1));
 }
 
 AssociatedField::AssociatedField(const Vartable& btable)
-- 
2.43.0


From e0331e54289e1fd4cb516b460112c942c472fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:03 +0000
Subject: [PATCH 043/124] fix: support bitmaps that mark no data as present, do
 not keep a deleted bitmap if the next one is invalid

---
 wreport/bulletin/bitmaps.cc | 15 ++++++++++++++-
 wreport/bulletin/bitmaps.h  |  3 +++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 51c173b..483af8a 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -94,8 +94,20 @@ void Bitmaps::define(const Var& bitmap, const Subset& subset)
 
 void Bitmaps::define(const Var& bitmap, const Subset& subset, unsigned anchor_point)
 {
+    Bitmap* defined = new Bitmap(bitmap, subset, anchor_point);
     delete current;
-    current = new Bitmap(bitmap, subset, anchor_point);
+    current = defined;
+    skip_empty();
+}
+
+void Bitmaps::skip_empty()
+{
+    // A bitmap that marks no data as present has nothing to iterate
+    if (!current || !current->eob())
+        return;
+    delete last;
+    last = current;
+    current = nullptr;
 }
 
 void Bitmaps::reuse_last()
@@ -107,6 +119,7 @@ void Bitmaps::reuse_last()
     current = last;
     last = nullptr;
     if (current) current->reuse();
+    skip_empty();
 }
 
 void Bitmaps::discard_last()
diff --git a/wreport/bulletin/bitmaps.h b/wreport/bulletin/bitmaps.h
index f7a9079..990bba5 100644
--- a/wreport/bulletin/bitmaps.h
+++ b/wreport/bulletin/bitmaps.h
@@ -93,6 +93,9 @@ struct Bitmaps
      */
     unsigned next();
 
+    /// Deactivate the current bitmap if it marks no data as present
+    void skip_empty();
+
     /// Return true if there is an active bitmap
     bool active() const { return (bool)current; }
 };
-- 
2.43.0


From 8358bacff8c4c7868f2374e50b4105293ac1e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:06 +0000
Subject: [PATCH 044/124] fix: reuse the last defined bitmap also when it has
 not been completely used

---
 wreport/bulletin/bitmaps.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wreport/bulletin/bitmaps.cc b/wreport/bulletin/bitmaps.cc
index 483af8a..63b76b1 100644
--- a/wreport/bulletin/bitmaps.cc
+++ b/wreport/bulletin/bitmaps.cc
@@ -115,9 +115,11 @@ void Bitmaps::reuse_last()
 // Only throw an error when the bitmap is actually used
 //    if (!last)
 //        throw error_consistency("cannot reuse bitmap, because no bitmap is currently defined");
-    delete current;
-    current = last;
-    last = nullptr;
+    if (!current)
+    {
+        current = last;
+        last = nullptr;
+    }
     if (current) current->reuse();
     skip_empty();
 }
-- 
2.43.0


From 4c8fc4d3768a04c38ab257c988d3b6a4518d655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:29 +0000
Subject: [PATCH 045/124] fix: allow to use the same bitmap with different
 operators, and different local descriptors with the same size

---
 wreport/tables.cc | 18 ++++--------------
 wreport/tables.h  |  4 ++--
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/wreport/tables.cc b/wreport/tables.cc
index 8fa4900..d07299c 100644
--- a/wreport/tables.cc
+++ b/wreport/tables.cc
@@ -78,16 +78,11 @@ void Tables::load_crex(const CrexTableID& id)
 
 Varinfo Tables::get_bitmap(Varcode code, const std::string& bitmap) const
 {
-    auto res = bitmap_table.find(bitmap);
+    auto res = bitmap_table.find(make_pair(code, bitmap));
     if (res != bitmap_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Bitmap '%s' has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bitmap.c_str(), WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = bitmap_table.emplace(make_pair(bitmap, _Varinfo()));
+    auto new_entry = bitmap_table.emplace(make_pair(code, bitmap), _Varinfo());
     _Varinfo& vi = new_entry.first->second;
     vi.set_string(code, "DATA PRESENT BITMAP", bitmap.size());
     return &vi;
@@ -112,16 +107,11 @@ Varinfo Tables::get_chardata(Varcode code, unsigned len) const
 
 Varinfo Tables::get_unknown(Varcode code, unsigned bit_len) const
 {
-    auto res = unknown_table.find(bit_len);
+    auto res = unknown_table.find(make_pair(code, bit_len));
     if (res != unknown_table.end())
-    {
-        if (res->second.code != code)
-            error_consistency::throwf("Unknown binary data %u bits long has been requested with varcode %01d%02d%03d but it already exists as %01d%02d%03d",
-                    bit_len, WR_VAR_FXY(code), WR_VAR_FXY(res->second.code));
         return &(res->second);
-    }
 
-    auto new_entry = unknown_table.emplace(make_pair(bit_len, _Varinfo()));
+    auto new_entry = unknown_table.emplace(make_pair(code, bit_len), _Varinfo());
     _Varinfo& vi = new_entry.first->second;
     vi.set_binary(code, "UNKNOWN LOCAL DESCRIPTOR", bit_len);
     return &vi;
diff --git a/wreport/tables.h b/wreport/tables.h
index 643f6d6..91445fc 100644
--- a/wreport/tables.h
+++ b/wreport/tables.h
@@ -18,11 +18,11 @@ struct Tables
     /// DTable used to lookup D table codes
     const DTable* dtable;
     /// Storage for temporary Varinfos for bitmaps
-    mutable std::map<std::string, _Varinfo> bitmap_table;
+    mutable std::map<std::pair<Varcode, std::string>, _Varinfo> bitmap_table;
     /// Storage for temporary Varinfos for arbitrary character data
     mutable std::map<Varcode, _Varinfo> chardata_table;
     /// Storage for temporary Varinfos for C06 unknown local descriptors
-    mutable std::map<unsigned, _Varinfo> unknown_table;
+    mutable std::map<std::pair<Varcode, unsigned>, _Varinfo> unknown_table;
 
     Tables();
     Tables(const Tables&) = delete;
-- 
2.43.0


From 61253ec130a439d9eee603ec0a20fdd81b41443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:35 +0000
Subject: [PATCH 046/124] fix: replication factors have no missing value in
 compressed messages, too

---
 wreport/bufr/input.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index ff678ce..8209f82 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -469,7 +469,17 @@ void Input::decode_compressed_semantic_number(Var& dest, unsigned)
     //TRACE("datasec:decode_b_num:reading %s (%s), size %d, scale %d, starting point %d\n", info->desc, info->bufr_unit, info->bit_len, info->scale, base);
 
     // Check if there are bits which are not 1 (that is, if the value is present)
+    // In case of delayed replications, there is no missing value
     bool missing = (base == all_ones(info->bit_len));
+    switch (info->code)
+    {
+        case WR_VAR(0, 31, 0):
+        case WR_VAR(0, 31, 1):
+        case WR_VAR(0, 31, 2):
+        case WR_VAR(0, 31, 11):
+        case WR_VAR(0, 31, 12):
+            missing = false;
+    }
 
     //TRACE("datasec:decode_b_num:len %d base %d info-len %d info-desc %s\n", info->bit_len, base, info->bit_len, info->desc);
 
-- 
2.43.0


From 977ad90396f8a6d7501a643c26bc193e868e0e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 047/124] fix: encode the master table number in edition 4
 messages

---
 wreport/bufr_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index dc48209..b055847 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -241,7 +241,7 @@ void Encoder::encode_sec1ed4()
     // Length of section
     out.add_bits(22, 24);
     // Master table number
-    out.append_byte(0);
+    out.append_byte(in.master_table_number);
     // Originating/generating centre (Common Code tableC-1)
     out.append_short(in.originating_centre);
     // Originating/generating sub-centre (defined by Originating/generating centre)
-- 
2.43.0


From 52260ce7bf0e863e80ce4be5cc12278cd52c117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:50 +0000
Subject: [PATCH 048/124] fix: decode associated fields of strings, and missing
 associated fields, in compressed messages

---
 wreport/bufr/decoder.cc |  4 ++-
 wreport/bufr/input.cc   | 62 ++++++++++++++++++++++++++---------------
 wreport/bufr/input.h    | 14 ++++++++++
 3 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 4e97266..01f77c6 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -505,7 +505,9 @@ void CompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Varin
     switch (info->type)
     {
         case Vartype::String:
-            in.decode_string(info, subset_count, dest);
+            in.decode_string_af(info, field, subset_count, [&](unsigned subset_no, Var&& var) {
+                dest.add_var(subset_no, std::move(var));
+            });
             break;
         case Vartype::Binary:
             throw error_unimplemented("decode_b_binary TODO");
diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 8209f82..282044a 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -412,7 +412,7 @@ void Input::decode_compressed_number(Var& dest, uint32_t base, unsigned diffbits
     }
 }
 
-void Input::decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+std::vector<std::unique_ptr<Var>> Input::decode_compressed_associated_fields(const bulletin::AssociatedField& associated_field, unsigned subsets)
 {
     // debug_dump_next_bits("Input:decode_compressed_base:", 500, {associated_field.bit_count, 6, info->bit_len, 6});
 
@@ -423,12 +423,9 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
      *  - $ASSOCIATED_FIELD_BITS bits of base value for the associated field
      *  - 6 bits specifying the number of bits used to encode the associated
      *    field difference values
-     *  - base value for the actual variable (number of bits defined in table B)
-     *  - 6 difference bits for the actual variable
+     *  - for each subset, the difference bits for the associated field
      *
-     * Then, for each subset:
-     *  - the difference bits for the associated field
-     *  - the difference bits for the actual variable
+     * followed by the actual variable, encoded as usual.
      */
 
     /// Associated field base value
@@ -436,28 +433,47 @@ void Input::decode_compressed_number_af(Varinfo info, const bulletin::Associated
     /// Number of bits used to encode the associated field differences
     uint32_t af_diffbits = get_bits(6);
 
-    if (af_base == all_ones(associated_field.bit_count))
-    {
-        // Associated field is missing
-        decode_compressed_number(info, subsets, dest);
-    } else {
-        Var var(info);
+    uint32_t af_missing = all_ones(associated_field.bit_count);
+    if (af_base == af_missing && af_diffbits != 0)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value of an associated field is missing", af_diffbits);
+    if (af_diffbits > 32)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length of an associated field is %u but it must be at most 32", af_diffbits);
 
-        std::vector<std::unique_ptr<Var>> associated_fields(subsets);
-        for (unsigned i = 0; i < subsets; ++i)
+    std::vector<std::unique_ptr<Var>> associated_fields(subsets);
+    for (unsigned i = 0; i < subsets; ++i)
+    {
+        uint32_t value = af_base;
+        if (af_diffbits)
         {
             uint32_t diff = get_bits(af_diffbits);
-            uint32_t value = af_base + diff;
-            TRACE("Input:decode_compressed_base:decoded af %ubits %u+%u=%u\n", af_diffbits, af_base, diff, value);
-            associated_fields[i] = associated_field.make_attribute(value);
+            value = diff == all_ones(af_diffbits) ? af_missing : af_base + diff;
         }
-
-        decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
-            if (associated_fields[subset].get())
-                var.seta(std::move(associated_fields[subset]));
-            dest(subset, std::move(var));
-        });
+        TRACE("Input:decode_compressed_base:decoded af %ubits %u->%u\n", af_diffbits, af_base, value);
+        associated_fields[i] = associated_field.make_attribute(value);
     }
+    return associated_fields;
+}
+
+void Input::decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+{
+    auto associated_fields = decode_compressed_associated_fields(associated_field, subsets);
+
+    decode_compressed_number(info, subsets, [&](unsigned subset, Var&& var) {
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    });
+}
+
+void Input::decode_string_af(Varinfo info, const bulletin::AssociatedField& associated_field, unsigned subsets, std::function<void(unsigned, Var&&)> dest)
+{
+    auto associated_fields = decode_compressed_associated_fields(associated_field, subsets);
+
+    decode_string(info, subsets, [&](unsigned subset, Var&& var) {
+        if (associated_fields[subset].get())
+            var.seta(std::move(associated_fields[subset]));
+        dest(subset, std::move(var));
+    });
 }
 
 void Input::decode_compressed_semantic_number(Var& dest, unsigned)
diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 10da1a6..74d8d74 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -319,6 +319,20 @@ public:
      */
     void decode_compressed_number_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
 
+    /**
+     * Decode a string as described by \a info, preceded by associated fields,
+     * from a compressed bufr with \a subsets subsets, and send the resulting
+     * variables to \a dest
+     */
+    void decode_string_af(Varinfo info, const bulletin::AssociatedField& afield, unsigned subsets, std::function<void(unsigned, Var&&)> dest);
+
+    /**
+     * Decode the associated fields of a variable from a compressed bufr with
+     * \a subsets subsets, returning an attribute for each subset, or nullptr
+     * where there is none.
+     */
+    std::vector<std::unique_ptr<Var>> decode_compressed_associated_fields(const bulletin::AssociatedField& afield, unsigned subsets);
+
     /**
      * Decode a number as described by dest.info(), and set it as value for \a
      * dest. The number is decoded for \a subsets compressed datasets, and an
-- 
2.43.0


From 41a711e749c00f1cce0e4472fc29eff0bfd09e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:46 +0000
Subject: [PATCH 049/124] fix: do not copy associated fields to the next
 subsets of compressed messages

---
 wreport/bufr/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index 74d8d74..d84fdd2 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -34,7 +34,7 @@ struct DispatchToSubsets
     }
     void add_var(unsigned subset, Var&& var)
     {
-        out.subsets[subset].store_variable(var);
+        out.subsets[subset].store_variable(std::move(var));
     }
 };
 
-- 
2.43.0


From c9cd3fcb45eb4785cd02af935ada3590f3935f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:43 +0000
Subject: [PATCH 050/124] fix: reject C03 modifiers with more than 32 bits

---
 wreport/bufr/decoder.cc           | 4 ++--
 wreport/bufr_encoder.cc           | 2 +-
 wreport/bulletin/dds-validator.cc | 2 +-
 wreport/bulletin/interpreter.cc   | 2 ++
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 01f77c6..91ffaec 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -375,9 +375,9 @@ void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
 int UncompressedDecoderTarget::decode_c03_refval_override(unsigned bits)
 {
     uint32_t res = in.get_bits(bits);
-    uint32_t sign_bit = 1 << (bits - 1);
+    uint32_t sign_bit = 1u << (bits - 1);
 
-    if (res & (1 << (bits - 1)))
+    if (res & sign_bit)
         return -(res & ~sign_bit);
     else
         return res;
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index b055847..b3d7024 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -129,7 +129,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         {
             encoded = -bit_ref;
             nbits = 32 - __builtin_clz(encoded);
-            encoded |= 1 << (c03_refval_override_bits - 1);
+            encoded |= 1u << (c03_refval_override_bits - 1);
         } else {
             encoded = bit_ref;
             nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index e8db061..1d67e96 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -109,7 +109,7 @@ void DDSValidator::define_c03_refval_override(Varcode code)
     {
         encoded = -bit_ref;
         nbits = 32 - __builtin_clz(encoded);
-        encoded |= 1 << (c03_refval_override_bits - 1);
+        encoded |= 1u << (c03_refval_override_bits - 1);
     } else {
         encoded = bit_ref;
         nbits = encoded ? 32 - __builtin_clz(encoded) : 0;
diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 207b16f..bdbd65b 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -215,6 +215,8 @@ void Interpreter::c_modifier(Varcode code, Opcodes& next)
                 // Restore the reference values given in table B
                 c03_refval_override_bits = 0;
                 c03_refval_overrides.clear();
+            } else if (bits > 32) {
+                error_unimplemented::throwf("C03 modifier wants %u bits but only at most 32 are supported", bits);
             } else {
                 TRACE("Change reference values, %u bit reference values follow\n", bits);
                 // Change decoded mode:
-- 
2.43.0


From 339f1cd674d903bfa3b747a5f1939daaacf9f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:45 +0000
Subject: [PATCH 051/124] fix: structured printing of empty bitmaps

---
 wreport/bulletin/dds-printer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index dcf51cf..82c3d5a 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -81,8 +81,10 @@ void DDSPrinter::define_bitmap(unsigned bitmap_size)
         var.print(out);
     }
 #endif
-    print_context(bitmaps.current->bitmap.info(), 0);
-    bitmaps.current->bitmap.print(out);
+    // Bitmaps that mark no data as present are not set as current
+    const Var& bitmap = get_var(current_var - 1);
+    print_context(bitmap.info(), 0);
+    bitmap.print(out);
 }
 
 void DDSPrinter::define_raw_character_data(Varcode code)
-- 
2.43.0


From deadf60752b917f87881049690381b5f7dc10ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:49 +0000
Subject: [PATCH 052/124] fix: do not read past the end of the data section

---
 wreport/bufr/input.cc | 2 ++
 wreport/bufr/input.h  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 282044a..8c8c77f 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -68,6 +68,8 @@ void Input::scan_other_sections(bool has_optional)
         scan_section_length(i);
 
     s4_cursor = sec[4] + 4;
+    if (s4_cursor > data_len)
+        parse_error(sec[4], "section 4 (%s) is too short to hold its header", bufr_sec_names[4]);
 }
 
 void Input::debug_dump_next_bits(const char* desc, unsigned count, const std::vector<unsigned>& groups) const
diff --git a/wreport/bufr/input.h b/wreport/bufr/input.h
index d84fdd2..35dc5a9 100644
--- a/wreport/bufr/input.h
+++ b/wreport/bufr/input.h
@@ -166,7 +166,7 @@ public:
     {
         uint32_t result = 0;
 
-        if (s4_cursor == data_len)
+        if (n > bits_left())
             parse_error("end of buffer while looking for %u bits of bit-packed data", n);
 
         // TODO: review and benchmark and possibly simplify
@@ -195,7 +195,7 @@ public:
      */
     void skip_bits(unsigned n)
     {
-        if (s4_cursor == data_len)
+        if (n > bits_left())
             parse_error("end of buffer while looking for %u bits of bit-packed data", n);
 
         for (unsigned i = 0; i < n; i++)
-- 
2.43.0


From ccc834b01ffc2074305a29ecb4c84fae50509d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:52 +0000
Subject: [PATCH 053/124] fix: reject BUFR messages without subsets

---
 wreport/bufr/decoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 91ffaec..726ad42 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -187,6 +187,8 @@ void Decoder::decode_header()
 
 void Decoder::decode_data()
 {
+    if (!expected_subsets)
+        throw error_consistency("the message contains no subsets");
     out.obtain_subset(expected_subsets - 1);
 
     /* Read BUFR section 4 (Data section) */
-- 
2.43.0


From 78fde0190eae88267cd768f58e8ea0b9904896f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:18 +0000
Subject: [PATCH 054/124] fix: reject compressed differences of more than 32
 bits

---
 wreport/bufr/input.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr/input.cc b/wreport/bufr/input.cc
index 8c8c77f..c5dd65a 100644
--- a/wreport/bufr/input.cc
+++ b/wreport/bufr/input.cc
@@ -377,6 +377,8 @@ bool Input::decode_compressed_base(Varinfo info, uint32_t& base, uint32_t& diffb
     diffbits = get_bits(6);
     if (missing && diffbits != 0)
         error_consistency::throwf("When decoding compressed BUFR data, the difference bit length must be 0 (and not %u like in this case) when the base value is missing", diffbits);
+    if (diffbits > 32)
+        error_consistency::throwf("When decoding compressed BUFR data, the difference bit length is %u but it must be at most 32", diffbits);
 
     TRACE("Input:decode_compressed_base:decoded base %u diffbits %u (%smissing) for %01d%02d%03d %s\n",
             (unsigned)base, (unsigned)diffbits, missing ? "" : "not ", WR_VAR_FXY(info->code), info->unit);
-- 
2.43.0


From 8f3429dc51895e1c497f3bf3f3764c576c856fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 055/124] fix: out of bounds access with C07 modifiers that
 increase the scale by 10 or more

---
 wreport/bulletin/interpreter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index bdbd65b..53f6371 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -117,9 +117,12 @@ Varinfo Interpreter::get_varinfo(Varcode code)
             1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000
         };
         TRACE("get_varinfo:applying %d increase of scale, ref, width\n", c_scale_ref_width_increase);
+        if (c_scale_ref_width_increase >= 10)
+            error_unimplemented::throwf("C07 modifier wants to increase the scale by %d but only at most 9 is supported", c_scale_ref_width_increase);
         scale += c_scale_ref_width_increase;
         bit_len += (10 * c_scale_ref_width_increase + 2) / 3;
-        bit_ref *= pow10[c_scale_ref_width_increase];
+        if (__builtin_mul_overflow(bit_ref, pow10[c_scale_ref_width_increase], &bit_ref))
+            error_consistency::throwf("the reference value of %01d%02d%03d multiplied by 10^%d does not fit in 32 bits", WR_VAR_FXY(code), c_scale_ref_width_increase);
     }
 
     auto refval = c03_refval_overrides.find(code);
-- 
2.43.0


From e5e8e3317e5a9c802f6626c045f3e4df5f95b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:25 +0000
Subject: [PATCH 056/124] fix: reject data widths reduced to nothing by C01
 modifiers

---
 wreport/bulletin/interpreter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 53f6371..4adc7cd 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -132,6 +132,9 @@ Varinfo Interpreter::get_varinfo(Varcode code)
         bit_ref = refval->second;
     }
 
+    if (bit_len <= 0)
+        error_consistency::throwf("the width of %01d%02d%03d is changed to %d bits", WR_VAR_FXY(code), bit_len);
+
     TRACE("get_info:requesting alteration scale:%d, bit_len:%d, bit_ref: %d\n", scale, bit_len, bit_ref);
     return tables.btable->query_altered(code, scale, bit_len, bit_ref);
 }
-- 
2.43.0


From 5394b266148379cc80a87ffdd920030b856be445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:19 +0000
Subject: [PATCH 057/124] fix: printing data descriptors with substituted
 values

---
 wreport/bulletin/interpreter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index 4adc7cd..aedc646 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -653,7 +653,9 @@ void Printer::c_modifier(Varcode code, Opcodes& next)
 {
     print_lead(code); putc(' ', out);
     Interpreter::print_c_modifier(out, code, next);
-    Interpreter::c_modifier(code, next);
+    // There are no bitmaps to apply when there are only data descriptors
+    if (code != WR_VAR(2, 23, 255))
+        Interpreter::c_modifier(code, next);
 }
 
 void Printer::r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops)
-- 
2.43.0


From edd5de4fab79c039769ae921ad3f5468e505a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:39 +0000
Subject: [PATCH 058/124] fix: structured printing of bulletins with C03
 modifiers

---
 wreport/bulletin/dds-printer.cc | 6 ++++++
 wreport/bulletin/dds-printer.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/wreport/bulletin/dds-printer.cc b/wreport/bulletin/dds-printer.cc
index 82c3d5a..77e116d 100644
--- a/wreport/bulletin/dds-printer.cc
+++ b/wreport/bulletin/dds-printer.cc
@@ -95,6 +95,12 @@ void DDSPrinter::define_raw_character_data(Varcode code)
     var.print(out);
 }
 
+void DDSPrinter::define_c03_refval_override(Varcode code)
+{
+    print_context(code, 0);
+    fprintf(out, "reference value override (%u bits)\n", c03_refval_override_bits);
+}
+
 void DDSPrinter::define_substituted_value(unsigned pos)
 {
     // Use the details of the corrisponding variable for decoding
diff --git a/wreport/bulletin/dds-printer.h b/wreport/bulletin/dds-printer.h
index 8c533d4..b1e307e 100644
--- a/wreport/bulletin/dds-printer.h
+++ b/wreport/bulletin/dds-printer.h
@@ -38,6 +38,7 @@ public:
     void define_substituted_value(unsigned pos) override;
     void define_attribute(Varinfo info, unsigned pos) override;
     void define_raw_character_data(Varcode code) override;
+    void define_c03_refval_override(Varcode code) override;
     void encode_var(Varinfo info, const Var& var) override;
     void encode_associated_field(const Var& var) override;
 
-- 
2.43.0


From 82ea56d5dadfbfbc6f7c5b34c752a503078a8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:31 +0000
Subject: [PATCH 059/124] fix: printing data descriptors with C05 modifiers

---
 wreport/bulletin/interpreter.cc | 4 ++++
 wreport/bulletin/interpreter.h  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/wreport/bulletin/interpreter.cc b/wreport/bulletin/interpreter.cc
index aedc646..a59af2d 100644
--- a/wreport/bulletin/interpreter.cc
+++ b/wreport/bulletin/interpreter.cc
@@ -697,6 +697,10 @@ void Printer::define_bitmap(unsigned bitmap_size)
 {
 }
 
+void Printer::define_raw_character_data(Varcode code)
+{
+}
+
 unsigned Printer::define_associated_field_significance(Varinfo info)
 {
     print_lead(info->code);
diff --git a/wreport/bulletin/interpreter.h b/wreport/bulletin/interpreter.h
index b98019f..61ff4d7 100644
--- a/wreport/bulletin/interpreter.h
+++ b/wreport/bulletin/interpreter.h
@@ -259,6 +259,7 @@ public:
     void define_variable(Varinfo info) override;
     void define_variable_with_associated_field(Varinfo info) override;
     void define_bitmap(unsigned bitmap_size) override;
+    void define_raw_character_data(Varcode code) override;
     unsigned define_bitmap_delayed_replication_factor(Varinfo info) override;
     unsigned define_associated_field_significance(Varinfo info) override;
 };
-- 
2.43.0


From 459844cac733ac671808237e3d1b07ff1b01064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 060/124] fix: do not silently drop variables not described by
 the data descriptors when encoding BUFR

---
 wreport/bufr_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index b3d7024..83da644 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -352,6 +352,9 @@ void Encoder::encode_sec4()
         // Encode the data of this subset
         DDSEncoder e(in, i, out);
         e.run();
+        if (e.current_var < in.subsets[i].size())
+            error_consistency::throwf("subset %u contains %zu variables but the data descriptors only describe %u of them",
+                    i, in.subsets[i].size(), e.current_var);
     }
 
     // Write all the bits and pad the data section to reach an even length
-- 
2.43.0


From 922740163e9d6e7d4dd55234bb96d074f2ac25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:56 +0000
Subject: [PATCH 061/124] fix: do not encode variables in place of different
 ones in BUFR messages

---
 wreport/bufr_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 83da644..40dfdb3 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -64,6 +64,9 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
     void encode_var(Varinfo info, const Var& var) override
     {
+        if (var.code() != info->code)
+            error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
+                    WR_VAR_FXY(var.code()), WR_VAR_FXY(info->code));
         ob.append_var(info, var);
     }
 
-- 
2.43.0


From 55f55b2ee55bf4d40032cccdc5387a105c3b58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:28 +0000
Subject: [PATCH 062/124] fix: validation of 32 bit wide values

---
 wreport/bulletin/dds-validator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 1d67e96..56c9c0d 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -37,7 +37,7 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
                 encoded = info->encode_binary(var.enqd());
             if (!is_crex)
             {
-                if (encoded >= (1u<<info->bit_len))
+                if (info->bit_len < 32 && encoded >= (1u<<info->bit_len))
                     error_consistency::throwf("value %f (%u) does not fit in %u bits", var.enqd(), encoded, info->bit_len);
             }
         }
-- 
2.43.0


From 702c54522bd7a13dca8472c5bf165a139094a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:31 +0000
Subject: [PATCH 063/124] fix: do not encode BUFR messages with more subsets or
 data than their lengths can represent

---
 wreport/bufr_encoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 40dfdb3..f168258 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -321,6 +321,9 @@ void Encoder::encode_sec3()
     if (in.datadesc.empty())
         throw error_consistency("message to encode has no data descriptors");
 
+    if (in.subsets.size() > 0xffff)
+        error_consistency::throwf("message to encode has %zu data subsets but at most 65535 can be encoded", in.subsets.size());
+
     // Length of section
     out.add_bits(8 + 2 * static_cast<uint32_t>(in.datadesc.size()), 24);
     // Set to 0 (reserved)
@@ -403,6 +406,10 @@ string BufrBulletin::encode() const
     e.encode_sec4();
     e.encode_sec5();
 
+    // All lengths in the message are 24 bits long
+    if (out.out.size() > 0xffffff)
+        error_consistency::throwf("encoded message is %zu bytes long but at most 16777215 are possible", out.out.size());
+
     // Write the length of the BUFR message in its header
     {
         uint32_t val = htonl(static_cast<uint32_t>(out.out.size()));
-- 
2.43.0


From 9ee09fe4209cc3fd8d7cd8a71d57c14c91573426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:34 +0000
Subject: [PATCH 064/124] fix: do not truncate values that do not fit in their
 associated field

---
 wreport/bufr_encoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index f168258..bd65a94 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -57,7 +57,12 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     {
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
-            ob.add_bits(att->enqi(), associated_field.bit_count);
+        {
+            int val = att->enqi();
+            if (val < 0 || (uint64_t)val >= ((uint64_t)1 << associated_field.bit_count))
+                error_consistency::throwf("value %d does not fit in an associated field of %u bits", val, associated_field.bit_count);
+            ob.add_bits(val, associated_field.bit_count);
+        }
         else
             ob.append_missing(associated_field.bit_count);
     }
-- 
2.43.0


From 4a0f5f45acba9699f4b118e5b3ca3d0a30edf586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:54 +0000
Subject: [PATCH 065/124] fix: encoding and decoding of missing or mismatching
 C05 character data

---
 wreport/bufr/decoder.cc | 7 ++++++-
 wreport/bufr_encoder.cc | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/wreport/bufr/decoder.cc b/wreport/bufr/decoder.cc
index 726ad42..eb2a522 100644
--- a/wreport/bufr/decoder.cc
+++ b/wreport/bufr/decoder.cc
@@ -356,6 +356,7 @@ void UncompressedDecoderTarget::decode_and_add_b_value_with_associated_field(Var
 void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
 {
     std::string buf;
+    bool missing = true;
     buf.resize(info->len);
     TRACE("decode_c_data:character data %d long\n", info->len);
     for (unsigned i = 0; i < info->len; ++i)
@@ -363,12 +364,16 @@ void UncompressedDecoderTarget::decode_and_add_raw_character_data(Varinfo info)
         uint32_t bitval = in.get_bits(8);
         TRACE("decode_c_data:decoded character %d %c\n", (int)bitval, (char)bitval);
         buf[i] = bitval;
+        if (bitval != 0xff)
+            missing = false;
     }
 
     // Add as C variable to the subset
 
     // Store the character data
-    Var cdata(info, buf);
+    Var cdata(info);
+    if (!missing)
+        cdata.sets(buf);
     out.store_variable(cdata);
 
     TRACE("decode_c_data:decoded string %s\n", buf.c_str());
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index bd65a94..1e0d447 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -101,8 +101,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     void define_raw_character_data(Varcode code) override
     {
         const Var& var = get_var();
-        const char* val = var.enq("");
-        ob.append_string(val, WR_VAR_Y(code) * 8);
+        if (var.code() != code)
+            error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
+                    WR_VAR_FXY(var.code()), WR_VAR_FXY(code));
+        if (var.isset())
+            ob.append_string(var, WR_VAR_Y(code) * 8);
+        else
+            ob.append_missing(WR_VAR_Y(code) * 8);
     }
 
     void define_c03_refval_override(Varcode code) override
-- 
2.43.0


From e239cd97b0f0a6e954a39017067531714224e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:57 +0000
Subject: [PATCH 066/124] fix: do not encode missing replication factors as
 their highest value

---
 wreport/bufr_encoder.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 1e0d447..8aeb80c 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -44,10 +44,28 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         encode_attr(info, pos, info->code);
     }
 
+    // Delayed replication factors have no missing value: all bits set to 1 is
+    // just the highest value
+    void check_can_be_missing(Varinfo info)
+    {
+        switch (info->code)
+        {
+            case WR_VAR(0, 31, 0):
+            case WR_VAR(0, 31, 1):
+            case WR_VAR(0, 31, 2):
+            case WR_VAR(0, 31, 11):
+            case WR_VAR(0, 31, 12):
+                error_consistency::throwf("cannot encode a missing value for %01d%02d%03d", WR_VAR_FXY(info->code));
+        }
+    }
+
     void encode_attr(Varinfo info, unsigned var_pos, Varcode attr_code)
     {
         const Var& var = get_var(var_pos);
-        if (const Var* a = var.enqa(attr_code))
+        const Var* a = var.enqa(attr_code);
+        if (!a || !a->isset())
+            check_can_be_missing(info);
+        if (a)
             ob.append_var(info, *a);
         else
             ob.append_missing(info);
@@ -72,6 +90,8 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         if (var.code() != info->code)
             error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
                     WR_VAR_FXY(var.code()), WR_VAR_FXY(info->code));
+        if (!var.isset())
+            check_can_be_missing(info);
         ob.append_var(info, var);
     }
 
-- 
2.43.0


From 90cf8170602a7ce2e4143ec259474db2e08e994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:50 +0000
Subject: [PATCH 067/124] fix: do not truncate strings and binary values that
 do not fit in their BUFR field

---
 wreport/buffers/bufr.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index b839cc9..7f05eb4 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -1,6 +1,7 @@
 #include "bufr.h"
 #include "wreport/var.h"
 #include <cstdarg>
+#include <cstring>
 #include "config.h"
 
 // #define TRACE_INTERPRETER
@@ -126,9 +127,22 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
     switch (info->type)
     {
         case Vartype::String:
-            append_string(var.enqc(), info->bit_len);
+        {
+            const char* val = var.enqc();
+            // Trailing spaces are only padding
+            size_t len = strlen(val);
+            while (len && val[len - 1] == ' ')
+                --len;
+            if (len * 8 > info->bit_len)
+                error_toolong::throwf("value \"%s\" of %01d%02d%03d does not fit in %u bits",
+                        val, WR_VAR_FXY(info->code), info->bit_len);
+            append_string(val, info->bit_len);
             break;
+        }
         case Vartype::Binary:
+            if (var.info()->type != Vartype::Binary || var.info()->bit_len != info->bit_len)
+                error_consistency::throwf("the value of %01d%02d%03d cannot be encoded as %u bits of binary data",
+                        WR_VAR_FXY(info->code), info->bit_len);
             append_binary((const unsigned char*)var.enqc(), info->bit_len);
             break;
         case Vartype::Integer:
-- 
2.43.0


From fabcc590f3dff467161aba5707ffc820a438f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:07 +0000
Subject: [PATCH 068/124] fix: repeat a delayed replication as many times as
 the encoded factor says

---
 wreport/bulletin/internals.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin/internals.cc b/wreport/bulletin/internals.cc
index 57a57f4..e08101e 100644
--- a/wreport/bulletin/internals.cc
+++ b/wreport/bulletin/internals.cc
@@ -83,7 +83,8 @@ unsigned UncompressedEncoder::define_delayed_replication_factor(Varinfo info)
 {
     const Var& var = get_var();
     encode_var(info, var);
-    return var.enqi();
+    // Use the value as encoded, in case var has a different definition
+    return info->encode_decimal(var.enqd());
 }
 
 unsigned UncompressedEncoder::define_associated_field_significance(Varinfo info)
-- 
2.43.0


From ec4bcfd8f4cfc20f35021d358ad7c5bd1aa38f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:36 +0000
Subject: [PATCH 069/124] fix: encode substituted values with the definition
 used to encode the variable

---
 wreport/bufr_encoder.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 8aeb80c..546f8e3 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -3,6 +3,7 @@
 #include "buffers/bufr.h"
 #include "vartable.h"
 #include <netinet/in.h>
+#include <map>
 #include <cstring>
 #include "config.h"
 
@@ -26,6 +27,10 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 {
     buffers::BufrOutput& ob;
 
+    /// Definitions used to encode each variable, which the decoder will use
+    /// for their substituted values
+    std::map<unsigned, Varinfo> encoded_infos;
+
     DDSEncoder(const Bulletin& b, unsigned subset_idx, buffers::BufrOutput& ob)
         : UncompressedEncoder(b, subset_idx), ob(ob)
     {
@@ -35,7 +40,8 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     void define_substituted_value(unsigned pos) override
     {
         // Use the details of the corrisponding variable for decoding
-        Varinfo info = current_subset[pos].info();
+        auto i = encoded_infos.find(pos);
+        Varinfo info = i == encoded_infos.end() ? current_subset[pos].info() : i->second;
         encode_attr(info, pos, info->code);
     }
 
@@ -92,6 +98,8 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
                     WR_VAR_FXY(var.code()), WR_VAR_FXY(info->code));
         if (!var.isset())
             check_can_be_missing(info);
+        if (current_var && &var == &current_subset[current_var - 1])
+            encoded_infos[current_var - 1] = info;
         ob.append_var(info, var);
     }
 
-- 
2.43.0


From 0dea08805dce02b6217920f270ef74701c9df61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:57 +0000
Subject: [PATCH 070/124] fix: do not encode the bitmap of a different operator

---
 wreport/bufr_encoder.cc       | 2 +-
 wreport/bulletin/internals.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 546f8e3..41779b7 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -106,7 +106,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     void define_bitmap(unsigned bitmap_size) override
     {
         const Var& var = get_var();
-        if (WR_VAR_F(var.code()) != 2)
+        if (var.code() != bitmaps.pending_definitions)
             error_consistency::throwf("variable at %u is %01d%02d%03d and not a data present bitmap",
                     current_var-1, WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()));
         IFTRACE{
diff --git a/wreport/bulletin/internals.cc b/wreport/bulletin/internals.cc
index e08101e..3a40b13 100644
--- a/wreport/bulletin/internals.cc
+++ b/wreport/bulletin/internals.cc
@@ -52,7 +52,7 @@ const Var& UncompressedEncoder::get_var(unsigned pos) const
 void UncompressedEncoder::define_bitmap(unsigned bitmap_size)
 {
     const Var& var = get_var();
-    if (WR_VAR_F(var.code()) != 2)
+    if (var.code() != bitmaps.pending_definitions)
         error_consistency::throwf("variable at %u is %01d%02d%03d and not a data present bitmap",
                 current_var-1, WR_VAR_F(var.code()), WR_VAR_X(var.code()), WR_VAR_Y(var.code()));
     bitmaps.define(var, current_subset, current_var);
-- 
2.43.0


From df7c93c17c7105da06fb4b1b82dc051c781cac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:24 +0000
Subject: [PATCH 071/124] fix: do not encode associated field values that
 cannot be decoded

---
 wreport/bufr_encoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 41779b7..bd85f19 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -85,6 +85,8 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             int val = att->enqi();
             if (val < 0 || (uint64_t)val >= ((uint64_t)1 << associated_field.bit_count))
                 error_consistency::throwf("value %d does not fit in an associated field of %u bits", val, associated_field.bit_count);
+            // Reject values that the attribute cannot have once decoded
+            associated_field.make_attribute(val);
             ob.add_bits(val, associated_field.bit_count);
         }
         else
-- 
2.43.0


From eddc13ce60087a6bd934b4a9d9492aad50c460e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:49 +0000
Subject: [PATCH 072/124] fix: do not encode values and associated fields that
 cannot be read back

---
 wreport/buffers/bufr.cc | 5 +++++
 wreport/bufr_encoder.cc | 5 ++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index 7f05eb4..b025c18 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -148,6 +148,11 @@ void BufrOutput::append_var(Varinfo info, const Var& var)
         case Vartype::Integer:
         case Vartype::Decimal:
             unsigned ival = info->encode_binary(var.enqd());
+            // The value must also be one that can be read back
+            int64_t raw = (int64_t)ival + info->bit_ref;
+            if (raw < info->imin || raw > info->imax)
+                error_domain::throwf("value %f is outside the range [%g,%g] of %01d%02d%03d",
+                        var.enqd(), info->dmin, info->dmax, WR_VAR_FXY(info->code));
             add_bits(ival, info->bit_len);
             break;
     }
diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index bd85f19..210462e 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -82,11 +82,10 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         const Var* att = associated_field.get_attribute(var);
         if (att && att->isset())
         {
-            int val = att->enqi();
+            // Use the scale of the definition used when decoding
+            int val = Var(associated_field.btable.query(att->code()), *att).enqi();
             if (val < 0 || (uint64_t)val >= ((uint64_t)1 << associated_field.bit_count))
                 error_consistency::throwf("value %d does not fit in an associated field of %u bits", val, associated_field.bit_count);
-            // Reject values that the attribute cannot have once decoded
-            associated_field.make_attribute(val);
             ob.add_bits(val, associated_field.bit_count);
         }
         else
-- 
2.43.0


From 18aca048834aa928f65498c59d8031c3ec1ad30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:50 +0000
Subject: [PATCH 073/124] fix: encode CREX header fields greater than 127 as
 unsigned

---
 wreport/crex_encoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 1226109..4db0f5f 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -80,13 +80,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
 {
     if (in.data_subcategory == 0xff)
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
                 in.data_category);
     else
-        out.raw_appendf("T%02hhd%02hhd%02hhd A%03hhd%03hhd",
+        out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu%03hhu",
                 in.master_table_number,
                 in.edition_number,
                 in.master_table_version_number,
-- 
2.43.0


From 8c2b27ae40628c47e76f7dca41d09ec729e34369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:53 +0000
Subject: [PATCH 074/124] fix: encode check digits in CREX bulletins that have
 them

---
 wreport/crex_encoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 4db0f5f..06837a9 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -77,7 +77,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
-void encode_sec1(const CrexBulletin& in, buffers::CrexOutput out)
+void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
@@ -131,6 +131,7 @@ string CrexBulletin::encode() const
     std::string buf;
     buf.reserve(1024);
     buffers::CrexOutput out(buf);
+    out.has_check_digit = has_check_digit;
 
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
-- 
2.43.0


From 5c3b20268e88a41ae3bb5742e4772d501a84efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:55 +0000
Subject: [PATCH 075/124] fix: separate CREX missing values from what precedes
 them, with their check digit

---
 wreport/buffers/crex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index e9bcf20..fba7ffe 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -197,6 +197,8 @@ void CrexOutput::encode_check_digit()
 void CrexOutput::append_missing(Varinfo info)
 {
     // TRACE("encode_b missing len: %d\n", info->len);
+    raw_append(" ", 1);
+    encode_check_digit();
     for (unsigned i = 0; i < info->len; i++)
         raw_append("/", 1);
 }
-- 
2.43.0


From ecd6bb778d24439e12967888892accfba2d449ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:11 +0000
Subject: [PATCH 076/124] fix: use 4 digits to decode CREX replication counts,
 as when encoding them, and do not accept missing ones

---
 wreport/crex_decoder.cc | 12 ++++++++----
 wreport/crex_encoder.cc |  7 +++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 8e74589..bbbf0f0 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -129,7 +129,7 @@ struct CrexParser : public bulletin::Interpreter
     {
     }
 
-    uint32_t read_variable(Varinfo info)
+    uint32_t read_variable(Varinfo info, unsigned len)
     {
         uint32_t res = 0xffffffff;
 
@@ -139,7 +139,7 @@ struct CrexParser : public bulletin::Interpreter
         // Parse value from the data section
         const char* d_start;
         const char* d_end;
-        in.parse_value(info->len, info->type != Vartype::String, &d_start, &d_end);
+        in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
         if (*d_start != '/')
@@ -165,12 +165,16 @@ struct CrexParser : public bulletin::Interpreter
 
     void define_variable(Varinfo info) override
     {
-        read_variable(info);
+        read_variable(info, info->len);
     }
 
     unsigned define_delayed_replication_factor(Varinfo info) override
     {
-        return read_variable(info);
+        // Replication counts are always encoded with 4 digits
+        uint32_t count = read_variable(info, 4);
+        if (count > 9999)
+            in.parse_error("delayed replication factor is missing or negative");
+        return count;
     }
 };
 
diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 06837a9..683f3f5 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -53,17 +53,20 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         }
         switch (info->code)
         {
+            case WR_VAR(0, 31, 0):
             case WR_VAR(0, 31, 1):
             case WR_VAR(0, 31, 2):
             case WR_VAR(0, 31, 11):
             case WR_VAR(0, 31, 12):
             {
-                unsigned count = var.enqi();
+                int count = var.enqi();
+                if (count < 0 || count > 9999)
+                    error_consistency::throwf("delayed replication factor %d cannot be encoded with 4 digits", count);
 
                 /* Encode the repetition count */
                 ob.raw_append(" ", 1);
                 ob.encode_check_digit();
-                ob.raw_appendf("%04u", count);
+                ob.raw_appendf("%04d", count);
 
                 return count;
             }
-- 
2.43.0


From d153aed3a7cc2e471fd61668fd1d288bd47c82c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:44 +0000
Subject: [PATCH 077/124] fix: skip the space between CREX subsets

---
 wreport/crex_decoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index bbbf0f0..95d7b04 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -203,6 +203,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
             ++in.cur;
             break;
         }
+        in.skip_spaces();
     }
     in.skip_spaces();
 
-- 
2.43.0


From 8a48bcde4246545ba2bf65db965521761c035306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:23 +0000
Subject: [PATCH 078/124] fix: decode CREX messages with an optional section

---
 wreport/crex_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 95d7b04..f6b97ea 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -214,7 +214,7 @@ void decode_data(buffers::CrexInput& in, CrexBulletin& out)
     {
         for (in.cur += 4; strncmp(in.cur, "++", 2) != 0; ++in.cur)
             in.check_available_data(2, "end of CREX optional section 3");
-        in.skip_spaces();
+        in.skip_data_and_spaces(2);
     }
 
     /* Decode crex end section 4 */
-- 
2.43.0


From b187a5d58726ff64d5d02e80b4c071975b8442f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:06 +0000
Subject: [PATCH 079/124] fix: do not decode as missing the CREX strings that
 begin with a slash

---
 wreport/crex_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index f6b97ea..02795b6 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -142,7 +142,7 @@ struct CrexParser : public bulletin::Interpreter
         in.parse_value(len, info->type != Vartype::String, &d_start, &d_end);
 
         /* If the variable is not missing, set its value */
-        if (*d_start != '/')
+        if (d_start == d_end || d_start + strspn(d_start, "/") < d_end)
         {
             if (info->type == Vartype::String)
             {
-- 
2.43.0


From 96fc6fd48a7ef52fb3e9e5766297fd3541f48c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:38 +0000
Subject: [PATCH 080/124] fix: do not decode as a different value the CREX
 groups that are not an int

---
 wreport/crex_decoder.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index 02795b6..cbd49ea 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -1,6 +1,7 @@
 #include "bulletin.h"
 #include "bulletin/interpreter.h"
 #include "buffers/crex.h"
+#include <climits>
 #include <cstring>
 #include "config.h"
 
@@ -149,9 +150,14 @@ struct CrexParser : public bulletin::Interpreter
                 std::string buf(d_start, d_end - d_start);
                 var.setc(buf.c_str());
             } else {
-                int val = static_cast<int>(strtol(d_start, 0, 10));
-                var.seti(val);
-                res = val;
+                // Do not read past the end of the value
+                std::string buf(d_start, d_end - d_start);
+                char* end;
+                long val = strtol(buf.c_str(), &end, 10);
+                if (buf.empty() || *end || val < INT_MIN || val > INT_MAX)
+                    in.parse_error("cannot decode \"%s\" as an integer value", buf.c_str());
+                var.seti(static_cast<int>(val));
+                res = static_cast<uint32_t>(val);
             }
         }
 
-- 
2.43.0


From 930f0b69fd7acd9fea9410f22fde46abd9207324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:37 +0000
Subject: [PATCH 081/124] fix: reject CREX data descriptor sections that do not
 end, or with unexpected characters

---
 wreport/crex_decoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_decoder.cc b/wreport/crex_decoder.cc
index cbd49ea..856b9d8 100644
--- a/wreport/crex_decoder.cc
+++ b/wreport/crex_decoder.cc
@@ -99,12 +99,15 @@ void decode_header(buffers::CrexInput& in, CrexBulletin& out)
         }
         else if (*in.cur == '+')
         {
-            in.check_available_data(1, "end of data descriptor section");
+            in.check_available_data(2, "end of data descriptor section");
             if (*(in.cur+1) != '+')
                 in.parse_error("data descriptor section ends with only one '+'");
             in.skip_data_and_spaces(2);
             break;
         }
+        else
+            in.parse_error("unexpected character in data descriptor section");
+        in.check_eof("end of data descriptor section");
     }
     IFTRACE{
         TRACE(" -> data descriptor section:");
-- 
2.43.0


From f34965622dd8aca6274b7dbfbf4e09940d374c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 082/124] fix: do not encode CREX subsets with more variables
 than the data descriptors describe

---
 wreport/crex_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 683f3f5..cb6f85e 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -152,6 +152,9 @@ string CrexBulletin::encode() const
     {
         DDSEncoder e(*this, i, out);
         e.run();
+        if (e.current_var < subsets[i].size())
+            error_consistency::throwf("subset %u contains %zu variables but the data descriptors only describe %u of them",
+                    i, subsets[i].size(), e.current_var);
     }
     out.raw_append("++\r\r\n", 5);
 
-- 
2.43.0


From 6e2b7d40a34848ae28473dadd4d5c319a736c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:11 +0000
Subject: [PATCH 083/124] fix: do not encode a CREX variable in place of
 another

---
 wreport/crex_encoder.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index cb6f85e..d96bbb1 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -34,6 +34,13 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
     virtual ~DDSEncoder() {}
 
+    void check_code(Varinfo info, const Var& var) const
+    {
+        if (var.code() != info->code)
+            error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
+                    WR_VAR_FXY(var.code()), WR_VAR_FXY(info->code));
+    }
+
     void define_variable(Varinfo info) override
     {
         const Var& var = get_var();
@@ -41,6 +48,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_var ");
             var.print(stderr);
         }
+        check_code(info, var);
         ob.append_var(info, var);
     }
 
@@ -51,6 +59,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             TRACE("encode_semantic_var ");
             var.print(stderr);
         }
+        check_code(info, var);
         switch (info->code)
         {
             case WR_VAR(0, 31, 0):
-- 
2.43.0


From db5f3839134aecdfd21465d0abbf1a9797578ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 084/124] fix: do not encode CREX header values that do not fit
 in two digits

---
 wreport/crex_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index d96bbb1..4b6452d 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -91,6 +91,9 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
 
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
+    if (in.master_table_number > 99 || in.edition_number > 99 || in.master_table_version_number > 99)
+        error_consistency::throwf("CREX master table number %hhu, edition %hhu and master table version %hhu need to be encoded with 2 digits",
+                in.master_table_number, in.edition_number, in.master_table_version_number);
     if (in.data_subcategory == 0xff)
         out.raw_appendf("T%02hhu%02hhu%02hhu A%03hhu",
                 in.master_table_number,
-- 
2.43.0


From 6b496ba52fae16a1e024332053623e70b78db90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:17 +0000
Subject: [PATCH 085/124] fix: do not encode values that do not fit in their
 CREX field

---
 wreport/buffers/crex.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index fba7ffe..71c2a02 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -1,6 +1,8 @@
 #include "crex.h"
 #include "wreport/var.h"
+#include <cctype>
 #include <cstdarg>
+#include <cstring>
 #include "config.h"
 
 /*
@@ -203,6 +205,24 @@ void CrexOutput::append_missing(Varinfo info)
         raw_append("/", 1);
 }
 
+// Check that the string can be decoded back
+static void check_string(Varinfo info, const char* val, bool has_check_digit)
+{
+    // Trailing spaces are only padding
+    size_t len = strlen(val);
+    while (len && isspace(val[len - 1]))
+        --len;
+    if (len > info->len)
+        error_toolong::throwf("value \"%s\" of %01d%02d%03d does not fit in %u characters",
+                val, WR_VAR_FXY(info->code), info->len);
+    if (len && strspn(val, "/") >= len)
+        error_consistency::throwf("value \"%s\" of %01d%02d%03d would be encoded as a missing value",
+                val, WR_VAR_FXY(info->code));
+    if (!has_check_digit && isspace(val[0]))
+        error_consistency::throwf("value \"%s\" of %01d%02d%03d begins with a space, and needs check digits to be encoded",
+                val, WR_VAR_FXY(info->code));
+}
+
 void CrexOutput::append_var(Varinfo info, const Var& var)
 {
     if (!var.isset())
@@ -215,6 +235,7 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
     switch (info->type)
     {
         case Vartype::String:
+            check_string(info, var.enqc(), has_check_digit);
             raw_appendf("%-*.*s", len, len, var.enqc());
             // TRACE("encode_b string len: %d val %-*.*s\n", len, len, len, var.value());
             break;
@@ -222,7 +243,11 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
             throw error_unimplemented("cannot encode a binary variable into a CREX message");
         case Vartype::Integer:
         case Vartype::Decimal: {
-            int val = var.enqi();
+            // Use the scale of the definition used when decoding
+            int val = info->encode_decimal(var.enqd());
+            if (val < info->imin || val > info->imax)
+                error_domain::throwf("value %f is outside the range [%g,%g] of %01d%02d%03d",
+                        var.enqd(), info->dmin, info->dmax, WR_VAR_FXY(info->code));
 
             /* FIXME: here goes handling of active C table modifiers */
 
-- 
2.43.0


From 6a4aad3d78c011727aa0284d94b80e66c61b87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 086/124] fix: only drop from CREX data descriptors the factors
 of delayed replications

---
 wreport/crex_encoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 4b6452d..b3d0ad3 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -124,7 +124,8 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
         }
 
         // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3)
+        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3
+            && i != in.datadesc.begin() && WR_VAR_F(*(i - 1)) == 1 && WR_VAR_Y(*(i - 1)) == 0)
             continue;
 
         out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
-- 
2.43.0


From 7f3ec0e146e9ca86f5b438b810e2adcbd14088ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 087/124] fix: encode CREX values with the unit, scale and
 range that are used when decoding them

---
 wreport/buffers/crex.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index 71c2a02..3a079c8 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -243,11 +243,8 @@ void CrexOutput::append_var(Varinfo info, const Var& var)
             throw error_unimplemented("cannot encode a binary variable into a CREX message");
         case Vartype::Integer:
         case Vartype::Decimal: {
-            // Use the scale of the definition used when decoding
-            int val = info->encode_decimal(var.enqd());
-            if (val < info->imin || val > info->imax)
-                error_domain::throwf("value %f is outside the range [%g,%g] of %01d%02d%03d",
-                        var.enqd(), info->dmin, info->dmax, WR_VAR_FXY(info->code));
+            // Use the unit, scale and range of the definition used when decoding
+            int val = Var(info, var).enqi();
 
             /* FIXME: here goes handling of active C table modifiers */
 
-- 
2.43.0


From dc91ac15b08524ead8e95950da948f4d08158591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:36 +0000
Subject: [PATCH 088/124] fix: do not encode CREX messages without data subsets
 or data descriptors

---
 wreport/crex_encoder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index b3d0ad3..83b6259 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -149,6 +149,12 @@ string CrexBulletin::encode() const
     buffers::CrexOutput out(buf);
     out.has_check_digit = has_check_digit;
 
+    if (subsets.empty())
+        throw error_consistency("message to encode has no data subsets");
+
+    if (datadesc.empty())
+        throw error_consistency("message to encode has no data descriptors");
+
     // Encode section 0
     out.raw_append("CREX++\r\r\n", 9);
 
-- 
2.43.0


From 2e304a97a6b19eb65f6bf1e97a82c9993477a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:13 +0000
Subject: [PATCH 089/124] fix: encode CREX replication counts with the scale
 that is used when decoding them

---
 wreport/crex_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index 83b6259..bb69847 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -68,7 +68,7 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
             case WR_VAR(0, 31, 11):
             case WR_VAR(0, 31, 12):
             {
-                int count = var.enqi();
+                int count = Var(info, var).enqi();
                 if (count < 0 || count > 9999)
                     error_consistency::throwf("delayed replication factor %d cannot be encoded with 4 digits", count);
 
-- 
2.43.0


From ec6a54ce828468f76de2596b1ad9192be59ae213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:16 +0000
Subject: [PATCH 090/124] fix: do not count the CREX replication factors that
 are not encoded among the replicated descriptors

---
 wreport/crex_encoder.cc | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/wreport/crex_encoder.cc b/wreport/crex_encoder.cc
index bb69847..139a414 100644
--- a/wreport/crex_encoder.cc
+++ b/wreport/crex_encoder.cc
@@ -89,6 +89,15 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
     }
 };
 
+// Check if the descriptor at the given position is the factor of a delayed
+// replication, which is implicit in CREX
+bool is_implicit_factor(const std::vector<Varcode>& datadesc, size_t pos)
+{
+    Varcode code = datadesc[pos];
+    return WR_VAR_F(code) == 0 && WR_VAR_X(code) == 31 && WR_VAR_Y(code) < 3
+        && pos > 0 && WR_VAR_F(datadesc[pos - 1]) == 1 && WR_VAR_Y(datadesc[pos - 1]) == 0;
+}
+
 void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
 {
     if (in.master_table_number > 99 || in.edition_number > 99 || in.master_table_version_number > 99)
@@ -124,11 +133,22 @@ void encode_sec1(const CrexBulletin& in, buffers::CrexOutput& out)
         }
 
         // Don't put delayed replication counts in the data section
-        if (WR_VAR_F(*i) == 0 && WR_VAR_X(*i) == 31 && WR_VAR_Y(*i) < 3
-            && i != in.datadesc.begin() && WR_VAR_F(*(i - 1)) == 1 && WR_VAR_Y(*(i - 1)) == 0)
+        if (is_implicit_factor(in.datadesc, i - in.datadesc.begin()))
             continue;
 
-        out.raw_appendf(" %c%02d%03d", prefix, WR_VAR_X(*i), WR_VAR_Y(*i));
+        // Nor count them among what gets replicated
+        int x = WR_VAR_X(*i);
+        if (WR_VAR_F(*i) == 1)
+        {
+            size_t begin = i - in.datadesc.begin() + 1;
+            if (WR_VAR_Y(*i) == 0 && begin < in.datadesc.size() && WR_VAR_F(in.datadesc[begin]) == 0 && WR_VAR_X(in.datadesc[begin]) == 31)
+                ++begin;
+            for (size_t pos = begin; pos < begin + WR_VAR_X(*i) && pos < in.datadesc.size(); ++pos)
+                if (is_implicit_factor(in.datadesc, pos))
+                    --x;
+        }
+
+        out.raw_appendf(" %c%02d%03d", prefix, x, WR_VAR_Y(*i));
     }
 
     if (out.has_check_digit)
-- 
2.43.0


From 79f314f4d42e16b716366474919020e49d724831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:59 +0000
Subject: [PATCH 091/124] fix: have the validator check that CREX values are in
 range, as the encoder does

---
 wreport/bulletin/dds-validator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/bulletin/dds-validator.cc b/wreport/bulletin/dds-validator.cc
index 56c9c0d..014aee0 100644
--- a/wreport/bulletin/dds-validator.cc
+++ b/wreport/bulletin/dds-validator.cc
@@ -32,7 +32,7 @@ void DDSValidator::check_fits(Varinfo info, const Var& var)
         {
             unsigned encoded;
             if (is_crex)
-                encoded = info->encode_decimal(var.enqd());
+                encoded = Var(info, var).enqi();
             else
                 encoded = info->encode_binary(var.enqd());
             if (!is_crex)
-- 
2.43.0


From 5cb8f32576eba1bcab99003318dae2c35789dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 092/124] fix: find messages that follow a partial signature
 when reading a stream

---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 3b1dd97..9c8cc27 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -28,7 +28,8 @@ bool seek_past_signature(FILE* fd, const char* sig, unsigned sig_len, const char
         if (c == sig[got])
             got++;
         else
-            got = 0;
+            // The byte that breaks a match can be the start of another one
+            got = c == sig[0] ? 1 : 0;
     }
 
     if (errno != 0)
-- 
2.43.0


From 2f37bc2dc9c94a02686c053ea80d55a5f86ab3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:26 +0000
Subject: [PATCH 093/124] fix: find the end of CREX messages when data before
 it looks like a part of the end

---
 wreport/bulletin.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index 9c8cc27..ae7af06 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -644,6 +644,9 @@ bool CrexBulletin::read(FILE* fd, std::string& buf, const char* fname, off_t* of
                 got += 2;
             else if (c == target[got])
                 got++;
+            else if (c == '+')
+                // In a run of plus signs, the last two can be the end mark
+                got = got == 2 ? 2 : 1;
             else
                 got = 0;
 
-- 
2.43.0


From 89e0b2dd96537f4ad77fb640ed86696469f87807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:44 +0000
Subject: [PATCH 094/124] fix: do not read past the variables of a subset when
 computing a data present bitmap

---
 wreport/subset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wreport/subset.cc b/wreport/subset.cc
index a62823e..3f41875 100644
--- a/wreport/subset.cc
+++ b/wreport/subset.cc
@@ -88,12 +88,16 @@ int Subset::append_dpb(Varcode ccode, unsigned size, Varcode attr)
     size_t src, dst;
     size_t count = 0;
 
+    // If there are less than 'size' variables, there is no data for the rest
+    memset(bitmap, '-', size);
+
     // Scan first 'size' variables checking for the presence of 'attr'
     for (src = 0, dst = 0; src < this->size() && dst < size; ++dst, ++src)
     {
         // Skip extra, special vars
         while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)
             ++src;
+        if (src >= this->size()) break;
 
         // Check if the variable has the attribute we want
         if ((*this)[src].enqa(attr) == NULL)
-- 
2.43.0


From 3468bcc3b7b76d93564404c57450803ae82bbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:12 +0000
Subject: [PATCH 095/124] fix: do not truncate binary values read from Lua at
 the first zero

---
 wreport/var-lua.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wreport/var-lua.cc b/wreport/var-lua.cc
index d0a0650..351afb8 100644
--- a/wreport/var-lua.cc
+++ b/wreport/var-lua.cc
@@ -72,7 +72,10 @@ static int dbalua_var_enqc(lua_State *L)
 {
     const Var* var = Var::lua_const_check(L, 1);
     try {
-        if (var->isset())
+        if (var->isset() && var->info()->type == Vartype::Binary)
+            // Binary values can contain zeros
+            lua_pushlstring(L, var->enqc(), var->info()->len);
+        else if (var->isset())
             lua_pushstring(L, var->enqc());
         else
             lua_pushnil(L);
-- 
2.43.0


From 1df96dc8f49a541084f93ceaccba2df248bcd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:58 +0000
Subject: [PATCH 096/124] fix: avoid an undefined shift when writing zero bits
 of BUFR data

---
 wreport/buffers/bufr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/buffers/bufr.cc b/wreport/buffers/bufr.cc
index b025c18..76ca41d 100644
--- a/wreport/buffers/bufr.cc
+++ b/wreport/buffers/bufr.cc
@@ -39,6 +39,9 @@ BufrOutput::BufrOutput(std::string& out)
 
 void BufrOutput::add_bits(uint32_t val, int n)
 {
+    // Nothing to write, and no mask to compute
+    if (n <= 0) return;
+
     /* Mask for reading data out of val */
     uint32_t mask = 1 << (n - 1);
     int i;
-- 
2.43.0


From 9a635682e0ff62b26cfa8690acd310ae3d64cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:11 +0000
Subject: [PATCH 097/124] fix: do not truncate Python integers that do not fit
 in a variable

---
 python/utils/values.cc | 12 +++++++++---
 python/var.cc          |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/utils/values.cc b/python/utils/values.cc
index 84d87f5..87fe926 100644
--- a/python/utils/values.cc
+++ b/python/utils/values.cc
@@ -1,5 +1,6 @@
 #include "values.h"
 #include "core.h"
+#include <limits>
 #include <string>
 
 namespace wreport {
@@ -77,10 +78,15 @@ bool bool_from_python(PyObject* o)
 
 int int_from_python(PyObject* o)
 {
-    int res = PyLong_AsLong(o);
-    if (PyErr_Occurred())
+    long res = PyLong_AsLong(o);
+    if (res == -1 && PyErr_Occurred())
         throw PythonException();
-    return res;
+    if (res < std::numeric_limits<int>::min() || res > std::numeric_limits<int>::max())
+    {
+        PyErr_SetString(PyExc_OverflowError, "value is too big for an int");
+        throw PythonException();
+    }
+    return static_cast<int>(res);
 }
 
 PyObject* int_to_python(int val)
diff --git a/python/var.cc b/python/var.cc
index 02d2e10..76afd22 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -521,7 +521,7 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
     try {
         if (PyLong_Check(o))
         {
-            var.seti(PyLong_AsLong(o));
+            var.seti(from_python<int>(o));
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-- 
2.43.0


From fc16b458b839d2da9d4b8f8a2b93793c52beca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:14 +0000
Subject: [PATCH 098/124] fix: use the real size of binary values in the Python
 bindings

---
 python/var.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/var.cc b/python/var.cc
index 76afd22..6e52b9d 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -506,7 +506,7 @@ PyObject* var_value_to_python(const wreport::Var& v)
             case Vartype::String:
                 return PyUnicode_FromString(v.enqc());
             case Vartype::Binary:
-                return PyBytes_FromString(v.enqc());
+                return PyBytes_FromStringAndSize(v.enqc(), v.info()->len);
             case Vartype::Integer:
                 return PyLong_FromLong(v.enqi());
             case Vartype::Decimal:
@@ -525,7 +525,7 @@ int var_value_from_python(PyObject* o, wreport::Var& var)
         } else if (PyFloat_Check(o)) {
             var.setd(PyFloat_AsDouble(o));
         } else if (PyBytes_Check(o)) {
-            var.setc(PyBytes_AsString(o));
+            var.sets(std::string(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)));
         } else if (PyUnicode_Check(o)) {
             var.sets(from_python<std::string>(o));
         } else {
-- 
2.43.0


From 08d64a5077592c77861f570236d8dcd84af41c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:17 +0000
Subject: [PATCH 099/124] fix: do not crash when wreport.Var is called with
 wrong arguments

---
 python/var.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/var.cc b/python/var.cc
index 6e52b9d..036d5ac 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -390,7 +390,11 @@ representations.
         PyObject* varinfo_or_var = nullptr;
         PyObject* val = nullptr;
         if (!PyArg_ParseTupleAndKeywords(args, kw, "O|O", const_cast<char**>(kwlist), &varinfo_or_var, &val))
+        {
+            // Have something to destroy when the object is deallocated
+            new (&self->var) Var(&dummy_var);
             return -1;
+        }
 
         try {
             if (wrpy_Varinfo_Check(varinfo_or_var))
-- 
2.43.0


From 6d81c20e94cf2ed8cf18f969bde4109d8e7fba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 100/124] fix: return only the attribute requested from
 Var.enqa in Python

---
 python/var.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/var.cc b/python/var.cc
index 036d5ac..6863f84 100644
--- a/python/var.cc
+++ b/python/var.cc
@@ -230,7 +230,12 @@ struct enqa : public MethKwargs<enqa, wrpy_Var>
             const Var* attr = self->var.enqa(varcode_parse(code));
             if (!attr)
                 Py_RETURN_NONE;
-            return (PyObject*)var_create(*attr);
+            // As in get_attrs, do not copy the rest of the attribute chain
+            py_unique_ptr<wrpy_Var> var((wrpy_Var*)var_create(attr->info()));
+            if (!var)
+                return nullptr;
+            var.get()->var.setval(*attr);
+            return (PyObject*)var.release();
         } WREPORT_CATCH_RETURN_PYO
     }
 };
-- 
2.43.0


From e8617682471ca508c2db6208fc7c50e45fd8498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:23 +0000
Subject: [PATCH 101/124] fix: do not iterate forever on a Vartable in Python

---
 python/vartable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/vartable.cc b/python/vartable.cc
index 54c9ac8..e011239 100644
--- a/python/vartable.cc
+++ b/python/vartable.cc
@@ -264,7 +264,9 @@ A Vartable is instantiated by one of the :meth:`get_bufr`, :meth:`get_crex`,
 
     static PyObject* sq_item(Impl* self, Py_ssize_t i)
     {
-        Py_RETURN_NONE;
+        // The length is 0: this is what makes iteration end
+        PyErr_SetString(PyExc_IndexError, "Vartable index out of range");
+        return nullptr;
     }
 
     static int sq_contains(Impl* self, PyObject *value)
-- 
2.43.0


From 749e7f59f93100b79028a21f223969b7cc69f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 102/124] fix: do not leak the representation of objects in
 Python error messages

---
 python/common.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/common.cc b/python/common.cc
index 96716e2..fc320e4 100644
--- a/python/common.cc
+++ b/python/common.cc
@@ -132,7 +132,8 @@ PyObject* file_get_data(PyObject* o, char*&buf, Py_ssize_t& len)
 
 std::string object_repr(PyObject* o)
 {
-    return from_python<std::string>(throw_ifnull(PyObject_Repr(o)));
+    pyo_unique_ptr repr(throw_ifnull(PyObject_Repr(o)));
+    return from_python<std::string>(repr);
 }
 
 }
-- 
2.43.0


From 9338be4e3b728bfee86007e3c5a411f0c1ce12ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:42 +0000
Subject: [PATCH 103/124] fix: wrep: -p takes an argument, -h does not

---
 src/wrep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index c1f8ede..38c8f6a 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -89,10 +89,10 @@ int main(int argc, char* argv[])
         int option_index = 0;
 
 #ifdef HAS_GETOPT_LONG
-        int c = getopt_long(argc, argv, "cdsDpivtUTFLh:",
+        int c = getopt_long(argc, argv, "cdsDp:ivtUTFLh",
                 long_options, &option_index);
 #else
-        int c = getopt(argc, argv, "cdsDpivtUTFLh:");
+        int c = getopt(argc, argv, "cdsDp:ivtUTFLh");
 #endif
 
         // Detect the end of the options
-- 
2.43.0


From 40722735748a0b28bf48a2e105c38e70b3dba11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:45 +0000
Subject: [PATCH 104/124] fix: wrep: report invalid variable codes instead of
 aborting

---
 src/wrep.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wrep.cc b/src/wrep.cc
index 38c8f6a..6c5aaa8 100644
--- a/src/wrep.cc
+++ b/src/wrep.cc
@@ -109,7 +109,12 @@ int main(int argc, char* argv[])
             case 'D': options.action = DUMP_DDS; break;
             case 'p':
                 options.action = PRINT_VARS;
-                options.init_varcodes(optarg);
+                try {
+                    options.init_varcodes(optarg);
+                } catch (std::exception& e) {
+                    fprintf(stderr, "%s: %s\n", optarg, e.what());
+                    return 1;
+                }
                 break;
             case 'i': options.action = INFO; break;
             case 'U': options.action = UNPARSABLE; break;
-- 
2.43.0


From 1011f868e6922343915580b918501cafbe0bdd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 105/124] fix: do not truncate character data that does not fit
 the 205YYY operator

---
 wreport/bufr_encoder.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wreport/bufr_encoder.cc b/wreport/bufr_encoder.cc
index 210462e..70c8be0 100644
--- a/wreport/bufr_encoder.cc
+++ b/wreport/bufr_encoder.cc
@@ -133,10 +133,20 @@ struct DDSEncoder : public bulletin::UncompressedEncoder
         if (var.code() != code)
             error_consistency::throwf("input variable %01d%02d%03d differs from expected variable %01d%02d%03d",
                     WR_VAR_FXY(var.code()), WR_VAR_FXY(code));
-        if (var.isset())
-            ob.append_string(var, WR_VAR_Y(code) * 8);
-        else
+        if (!var.isset())
+        {
             ob.append_missing(WR_VAR_Y(code) * 8);
+            return;
+        }
+        // Trailing spaces are only padding
+        const char* val = var.enqc();
+        size_t len = strlen(val);
+        while (len && val[len - 1] == ' ')
+            --len;
+        if (len > WR_VAR_Y(code))
+            error_toolong::throwf("value \"%s\" of %01d%02d%03d does not fit in %d characters",
+                    val, WR_VAR_FXY(code), WR_VAR_Y(code));
+        ob.append_string(val, WR_VAR_Y(code) * 8);
     }
 
     void define_c03_refval_override(Varcode code) override
-- 
2.43.0


From d8ed72f973a2ecbeb3a7e6123b1c3cbba2599e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:59 +0000
Subject: [PATCH 106/124] fix: wrep-importtable: report failure in the exit
 status

---
 src/wrep-importtable | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrep-importtable b/src/wrep-importtable
index bbd31af..b7488a2 100755
--- a/src/wrep-importtable
+++ b/src/wrep-importtable
@@ -309,3 +309,4 @@ if __name__ == "__main__":
         sys.exit(1)
     except Exception:
         log.exception("uncaught exception")
+        sys.exit(1)
-- 
2.43.0


From c77e16ea3d0fcfd54446ba434f014882c5578b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:00 +0000
Subject: [PATCH 107/124] fix: wrep-importtable: write UTF-8 and count the
 table columns in bytes

---
 src/wrep-importtable | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/wrep-importtable b/src/wrep-importtable
index b7488a2..0347f05 100755
--- a/src/wrep-importtable
+++ b/src/wrep-importtable
@@ -42,6 +42,16 @@ def normalise_crex_unit(unit):
     return CREX_UNIT_MAP.get(unit, unit)
 
 
+def column(text, width):
+    """
+    Fit text in a table column. Columns are counted in bytes when tables are
+    loaded, so characters that take more than one byte need to be taken into
+    account
+    """
+    text = text.encode("utf-8")[:width].decode("utf-8", "ignore")
+    return text + " " * (width - len(text.encode("utf-8")))
+
+
 def read_text(el):
     """
     Return the concatenation of all text nodes that are direct children of el
@@ -108,29 +118,29 @@ class TableB(Table):
             if el_name is None:
                 el_name = data["ElementName_E"]
             if "CREX_Unit" not in data or "CREX_Scale" not in data or "CREX_DataWidth_Char" not in data:
-                yield " %-6.6s %-64.64s %-24.24s %3d %12d %3d" % (
+                yield " %-6.6s %s %s %3d %12d %3d" % (
                     data["FXY"],
-                    el_name,
-                    normalise_bufr_unit(data["BUFR_Unit"]),
+                    column(el_name, 64),
+                    column(normalise_bufr_unit(data["BUFR_Unit"]), 24),
                     int(data["BUFR_Scale"]),
                     int(data["BUFR_ReferenceValue"]),
                     int(data["BUFR_DataWidth_Bits"]))
             else:
-                yield " %-6.6s %-64.64s %-24.24s %3d %12d %3d %-24.24s %2d %9d" % (
+                yield " %-6.6s %s %s %3d %12d %3d %s %2d %9d" % (
                     data["FXY"],
-                    el_name,
-                    normalise_bufr_unit(data["BUFR_Unit"]),
+                    column(el_name, 64),
+                    column(normalise_bufr_unit(data["BUFR_Unit"]), 24),
                     int(data["BUFR_Scale"]),
                     int(data["BUFR_ReferenceValue"]),
                     int(data["BUFR_DataWidth_Bits"]),
-                    normalise_crex_unit(data["CREX_Unit"]),
+                    column(normalise_crex_unit(data["CREX_Unit"]), 24),
                     int(data["CREX_Scale"]),
                     int(data["CREX_DataWidth_Char"]))
 
     def write_files(self):
-        out1 = open("B0000000000000{:03d}{:03d}.txt".format(self.v, self.sv), "w")
+        out1 = open("B0000000000000{:03d}{:03d}.txt".format(self.v, self.sv), "w", encoding="utf-8")
         log.info("Writing %s...", out1.name)
-        out2 = open("B00{:02d}{:02d}.txt".format(self.v, self.sv), "w")
+        out2 = open("B00{:02d}{:02d}.txt".format(self.v, self.sv), "w", encoding="utf-8")
         log.info("Writing %s...", out2.name)
         try:
             for line in self.make_xml_b_lines():
-- 
2.43.0


From 173c19d778e4c0afcdd4b371fbf542149f1482dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:08 +0000
Subject: [PATCH 108/124] fix: do not encode empty CREX strings without check
 digits, since they cannot be found when decoding

---
 wreport/buffers/crex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/buffers/crex.cc b/wreport/buffers/crex.cc
index 3a079c8..7936d50 100644
--- a/wreport/buffers/crex.cc
+++ b/wreport/buffers/crex.cc
@@ -218,8 +218,8 @@ static void check_string(Varinfo info, const char* val, bool has_check_digit)
     if (len && strspn(val, "/") >= len)
         error_consistency::throwf("value \"%s\" of %01d%02d%03d would be encoded as a missing value",
                 val, WR_VAR_FXY(info->code));
-    if (!has_check_digit && isspace(val[0]))
-        error_consistency::throwf("value \"%s\" of %01d%02d%03d begins with a space, and needs check digits to be encoded",
+    if (!has_check_digit && (!len || isspace(val[0])))
+        error_consistency::throwf("value \"%s\" of %01d%02d%03d is empty or begins with a space, and needs check digits to be encoded",
                 val, WR_VAR_FXY(info->code));
 }
 
-- 
2.43.0


From 614492a588092de0dc0fc23c48f5f6dd8356d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:46 +0000
Subject: [PATCH 109/124] fix: delete the variables before the definitions they
 use in Bulletin::clear

---
 wreport/bulletin.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wreport/bulletin.cc b/wreport/bulletin.cc
index ae7af06..72c5181 100644
--- a/wreport/bulletin.cc
+++ b/wreport/bulletin.cc
@@ -68,9 +68,10 @@ void Bulletin::clear()
     update_sequence_number = 0;
     rep_year = 0;
     rep_month = rep_day = rep_hour = rep_minute = rep_second = 0;
-    tables.clear();
     datadesc.clear();
+    // Variables can use definitions stored in tables: delete them first
     subsets.clear();
+    tables.clear();
 }
 
 Subset& Bulletin::obtain_subset(unsigned subsection)
-- 
2.43.0


From df7269765518a967f546783e0f248b0001a79e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:26 +0000
Subject: [PATCH 110/124] fix: no remainder after the end of a string split

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index beffd21..57c29b8 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -224,7 +224,7 @@ Split::const_iterator::~const_iterator()
 
 std::string Split::const_iterator::remainder() const
 {
-    if (end == std::string::npos)
+    if (!split || end == std::string::npos)
         return std::string();
     else
         return split->str.substr(end);
-- 
2.43.0


From 8b44c2191977f7a1e216058f09e6f803cdf1fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:30 +0000
Subject: [PATCH 111/124] fix: no empty token when a string split without empty
 tokens has separators only

---
 wreport/utils/string.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 57c29b8..2d0dd30 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -214,7 +214,11 @@ Split::const_iterator::const_iterator(const Split& split_)
     {
         // Ignore leading separators if skip_end is true
         if (split_.skip_empty) skip_separators();
-        ++*this;
+        if (split_.skip_empty && end == split_.str.size())
+            // There is nothing but separators
+            this->split = nullptr;
+        else
+            ++*this;
     }
 }
 
-- 
2.43.0


From 2b5049a059fd88e08ef0397d2cf1706af52f3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 112/124] fix: splitting on an empty separator without empty
 tokens does not end

---
 wreport/utils/string.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 2d0dd30..11d4230 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -239,6 +239,9 @@ void Split::const_iterator::skip_separators()
     const std::string& str = split->str;
     const std::string& sep = split->sep;
 
+    // An empty separator takes no space
+    if (sep.empty()) return;
+
     while (end + sep.size() <= str.size())
     {
         unsigned i = 0;
-- 
2.43.0


From 7b1214e2cb22f36b5900cdca17507c56d55016bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 113/124] fix: normpath on empty paths and on paths that start
 with ..

---
 wreport/utils/string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 11d4230..56732e0 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -175,7 +175,7 @@ void appendpath(std::string& dest, const std::string& path2)
 std::string normpath(const std::string& pathname)
 {
     vector<string> st;
-    if (pathname[0] == '/')
+    if (!pathname.empty() && pathname[0] == '/')
         st.push_back("/");
 
     Split split(pathname, "/");
@@ -183,7 +183,7 @@ std::string normpath(const std::string& pathname)
     {
         if (i == "." || i.empty()) continue;
         if (i == "..")
-            if (st.back() == "..")
+            if (st.empty() || st.back() == "..")
                 st.emplace_back(i);
             else if (st.back() == "/")
                 continue;
-- 
2.43.0


From 9495311f085baac056488f54f853b51b5992de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:40 +0000
Subject: [PATCH 114/124] fix: decode hexadecimal escapes in decode_cstring

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index 56732e0..fb2f532 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -396,7 +396,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From b975ac36ff86f541a26bb984f405ae449c082cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 115/124] fix: decode_url of a lone percent sign

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index fb2f532..b59fc8b 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -438,7 +438,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From b4207d55a06da2f3004f80abc0f5a41a1a2fda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 116/124] fix: read past the table of base64 digits

---
 wreport/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/string.cc b/wreport/utils/string.cc
index b59fc8b..1a54b0b 100644
--- a/wreport/utils/string.cc
+++ b/wreport/utils/string.cc
@@ -456,7 +456,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From dd0192545406f4ff057a039e61448cd5ddb42c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:51 +0000
Subject: [PATCH 117/124] fix: assign to a MMap that was moved

---
 wreport/utils/sys.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index cc6c8aa..bb32d6e 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -244,7 +244,7 @@ MMap& MMap::operator=(MMap&& o)
 {
     if (this == &o) return *this;
 
-    munmap();
+    if (addr != MAP_FAILED) munmap();
     addr = o.addr;
     length = o.length;
     o.addr = MAP_FAILED;
-- 
2.43.0


From d9d9a940bf3c370309587b52ad784fd3af2ba196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:55 +0000
Subject: [PATCH 118/124] fix: write_file_atomically leaves its temporary file
 behind on errors

---
 wreport/utils/sys.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index bb32d6e..c82a305 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -1113,7 +1113,8 @@ void write_file_atomically(const std::string& file, const void* data, size_t siz
 
 void write_file_atomically(const std::filesystem::path& file, const void* data, size_t size, mode_t mode)
 {
-    File out = File::mkstemp(file);
+    // Do not leave the temporary file around in case of errors
+    Tempfile out(file);
 
     // Read the umask
     mode_t mask = umask(0777);
@@ -1127,6 +1128,7 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 
     if (::rename(out.path().c_str(), file.c_str()) < 0)
         throw std::system_error(errno, std::system_category(), "cannot rename "s + out.path().native() + " to " + file.native());
+    out.unlink_on_exit(false);
 }
 
 #if 0
-- 
2.43.0


From a5e8901604d9711c6000714cfe08c550e8afcc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 119/124] fix: sys::islnk never sees a link

---
 wreport/utils/sys.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wreport/utils/sys.cc b/wreport/utils/sys.cc
index c82a305..cdb67a6 100644
--- a/wreport/utils/sys.cc
+++ b/wreport/utils/sys.cc
@@ -132,7 +132,15 @@ bool isfifo(const std::string& pathname)
 
 bool islnk(const std::string& pathname)
 {
-    common_stat_body(S_ISLNK);
+    // Look at the link itself instead of what it points to
+    struct stat st;
+    if (::lstat(pathname.c_str(), &st) == -1) {
+        if (errno == ENOENT)
+            return false;
+        else
+            throw std::system_error(errno, std::system_category(), "cannot stat " + pathname);
+    }
+    return S_ISLNK(st.st_mode);
 }
 
 bool isreg(const std::string& pathname)
-- 
2.43.0


From 58639d0d706d16a17b1d1c7e563ea3faf0dc0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 120/124] fix: moving a Path::iterator loses its path

---
 wreport/utils/sys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/sys.h b/wreport/utils/sys.h
index 9a0edf9..25a11f2 100644
--- a/wreport/utils/sys.h
+++ b/wreport/utils/sys.h
@@ -420,7 +420,7 @@ struct Path : public ManagedNamedFileDescriptor
         explicit iterator(Path& dir);
         iterator(iterator&) = delete;
         iterator(iterator&& o)
-            : dir(o.dir), cur_entry(o.cur_entry)
+            : path(o.path), dir(o.dir), cur_entry(o.cur_entry)
         {
             o.dir = nullptr;
             o.cur_entry = nullptr;
-- 
2.43.0


From 16966c12f33107a82c9b8236cdca3e0062aa83c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:39 +0000
Subject: [PATCH 121/124] fix: Child::wait with a timeout returns the exit code
 of a child that has terminated

---
 wreport/utils/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 6f7cf72..407bd36 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -410,7 +410,7 @@ bool Child::wait(int msecs)
         throw std::runtime_error("wait called before Child process was started");
 
     if (m_terminated)
-        return returncode();
+        return true;
 
     // this is the old complex logic needed to support old kernels without
     // pidfd_open
-- 
2.43.0


From 41448b3df50da9e1b942473192d3d65ed17e4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:43 +0000
Subject: [PATCH 122/124] fix: copy_env_from_parent keeps the previous contents
 of env

---
 wreport/utils/subprocess.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 407bd36..1358a1f 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -499,6 +499,7 @@ Popen::Popen(std::initializer_list<std::string> args_)
 
 void Popen::copy_env_from_parent()
 {
+    env.clear();
     for (char** s = environ; *s; ++s)
         env.emplace_back(*s);
 }
-- 
2.43.0


From b649640e044ffc899642dc54c08b3068e3be998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:47 +0000
Subject: [PATCH 123/124] fix: redirecting two streams of a child to one file
 descriptor fails

---
 wreport/utils/subprocess.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 1358a1f..77e22c5 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -216,7 +216,8 @@ void Child::post_fork_child()
         switch (m_stdin_action)
         {
             case Redirect::FD:
-                redirect(m_stdin[0], STDIN_FILENO, "failed to redirect stdin");
+                if (dup2(m_stdin[0], STDIN_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stdin");
                 break;
             case Redirect::PIPE:
                 if (close(m_stdin[1]) == -1)
@@ -236,7 +237,8 @@ void Child::post_fork_child()
         switch (m_stdout_action)
         {
             case Redirect::FD:
-                redirect(m_stdout[1], STDOUT_FILENO, "failed to redirect stdout");
+                if (dup2(m_stdout[1], STDOUT_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stdout");
                 break;
             case Redirect::PIPE:
                 if (close(m_stdout[0]) == -1)
@@ -256,7 +258,8 @@ void Child::post_fork_child()
         switch (m_stderr_action)
         {
             case Redirect::FD:
-                redirect(m_stderr[1], STDERR_FILENO, "failed to redirect stderr");
+                if (dup2(m_stderr[1], STDERR_FILENO) == -1)
+                    throw std::system_error(errno, std::system_category(), "failed to redirect stderr");
                 break;
             case Redirect::PIPE:
                 if (close(m_stderr[0]) == -1)
-- 
2.43.0


From c2a919852bbcc420fbc96103356eed578ce78973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:51 +0000
Subject: [PATCH 124/124] fix: signals to a child that has not started go to
 the whole process group

---
 wreport/utils/subprocess.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wreport/utils/subprocess.cc b/wreport/utils/subprocess.cc
index 77e22c5..9533ce4 100644
--- a/wreport/utils/subprocess.cc
+++ b/wreport/utils/subprocess.cc
@@ -460,6 +460,9 @@ bool Child::wait(int msecs)
 
 void Child::send_signal(int sig)
 {
+    if (m_pid == 0)
+        throw std::runtime_error("send_signal called before Child process was started");
+
     if (::kill(m_pid, sig) == -1)
         throw std::system_error(
                 errno, std::system_category(),
-- 
2.43.0

