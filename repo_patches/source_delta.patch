From 6fa367fdbb60222f72af679d746fa6be06442ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 01/56] fix: strcmp, strncmp, memcmp: compare bytes as unsigned
 char.

* lib/string/memcmp.c, lib/string/strcmp.c, lib/string/strncmp.c: Order bytes
of 128 and up after ASCII, as the standard requires.
---
 lib/string/memcmp.c  | 2 +-
 lib/string/strcmp.c  | 2 +-
 lib/string/strncmp.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/string/memcmp.c b/lib/string/memcmp.c
index ca72f63..8fd0744 100644
--- a/lib/string/memcmp.c
+++ b/lib/string/memcmp.c
@@ -36,5 +36,5 @@ memcmp (void const *s1, void const *s2, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strcmp.c b/lib/string/strcmp.c
index b0fee26..f5d2591 100644
--- a/lib/string/strcmp.c
+++ b/lib/string/strcmp.c
@@ -29,5 +29,5 @@ strcmp (char const *a, char const *b)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strncmp.c b/lib/string/strncmp.c
index 75c84b7..f0bf698 100644
--- a/lib/string/strncmp.c
+++ b/lib/string/strncmp.c
@@ -33,5 +33,5 @@ strncmp (char const *a, char const *b, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
-- 
2.43.0


From 0ac19631e20bbd91907c3064d16b0b667a0ca4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 02/56] fix: memchr, strchr, strrchr: convert the character
 sought to char.

* lib/string/memchr.c, lib/string/strchr.c, lib/string/strrchr.c: Find bytes of
128 and up when passed as unsigned char value.
---
 lib/string/memchr.c  | 3 ++-
 lib/string/strchr.c  | 5 +++--
 lib/string/strrchr.c | 7 ++++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/string/memchr.c b/lib/string/memchr.c
index 255fdf6..69c4d1e 100644
--- a/lib/string/memchr.c
+++ b/lib/string/memchr.c
@@ -24,11 +24,12 @@ void *
 memchr (void const *block, int c, size_t size)
 {
   char const *p = block;
+  char ch = c;
 
   while (size != 0)
     {
       size = size - 1;
-      if (c == p[0])
+      if (ch == p[0])
         return (void*) p;
       p = p + 1;
     }
diff --git a/lib/string/strchr.c b/lib/string/strchr.c
index da1a707..a5c0cac 100644
--- a/lib/string/strchr.c
+++ b/lib/string/strchr.c
@@ -24,9 +24,10 @@ char *
 strchr (char const *s, int c)
 {
   char const *p = s;
-  while (*p || !c)
+  char ch = c;
+  while (*p || !ch)
     {
-      if (c == *p)
+      if (ch == *p)
         return (char *) p;
       p++;
     }
diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 08766fd..9735f81 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -24,15 +24,16 @@ char *
 strrchr (char const *s, int c)
 {
   int n = strlen (s);
+  char ch = c;
   if (!n)
     return 0;
   char const *p = s + n;
-  if (!*p && !c)
+  if (!*p && !ch)
     return (char *) p;
   p--;
-  while (n-- && (*p || !c))
+  while (n-- && (*p || !ch))
     {
-      if (c == *p)
+      if (ch == *p)
         return (char *) p;
       p--;
     }
-- 
2.43.0


From 44c5025750283ca24a4461ec33095ea3ddf588d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 03/56] fix: strrchr: find the terminator of the empty string.

* lib/string/strrchr.c (strrchr): Do not return 0 early for "", its terminator
is part of the string.
---
 lib/string/strrchr.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 9735f81..c116827 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -25,8 +25,6 @@ strrchr (char const *s, int c)
 {
   int n = strlen (s);
   char ch = c;
-  if (!n)
-    return 0;
   char const *p = s + n;
   if (!*p && !ch)
     return (char *) p;
-- 
2.43.0


From 498c385de4153a7f4ee6c7ae1f7e14e4ad7680ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 04/56] fix: strpbrk: return 0 if there is no match.

* lib/string/strpbrk.c (strpbrk): Return 0 instead of the end of the string.
---
 lib/string/strpbrk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/string/strpbrk.c b/lib/string/strpbrk.c
index 57583ee..14000c4 100644
--- a/lib/string/strpbrk.c
+++ b/lib/string/strpbrk.c
@@ -26,8 +26,8 @@ strpbrk (char const *string, char const *stopset)
   char *p = (char *) string;
   while (*p)
     if (strchr (stopset, *p))
-      break;
+      return p;
     else
       p++;
-  return p;
+  return 0;
 }
-- 
2.43.0


From e052c304196ff27f0fa11a1c2e3239b100f4aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 05/56] fix: isxdigit: accept upper case.

* lib/ctype/isxdigit.c (isxdigit): 'A' to 'F' are hexadecimal digits.
---
 lib/ctype/isxdigit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ctype/isxdigit.c b/lib/ctype/isxdigit.c
index 13f7a66..b15546e 100644
--- a/lib/ctype/isxdigit.c
+++ b/lib/ctype/isxdigit.c
@@ -24,5 +24,5 @@
 int
 isxdigit (int c)
 {
-  return isdigit (c) || (c >= 'a' && c <= 'f');
+  return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
-- 
2.43.0


From a41b4ee43a200c7cdfd646fb42c30adc19614a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 06/56] fix: iscntrl: DEL is a control character.

* lib/ctype/iscntrl.c (iscntrl): Accept 127.
---
 lib/ctype/iscntrl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ctype/iscntrl.c b/lib/ctype/iscntrl.c
index 82d4c3d..73ad555 100644
--- a/lib/ctype/iscntrl.c
+++ b/lib/ctype/iscntrl.c
@@ -23,5 +23,5 @@
 int
 iscntrl (int c)
 {
-  return c >= 0 && c < 32;
+  return (c >= 0 && c < 32) || c == 127;
 }
-- 
2.43.0


From 7c85681e5c7ee39d2ab7ada85c75d71e40a3427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 07/56] fix: isnumber: return a value for every base.

* lib/ctype/isnumber.c (isnumber): Decide membership for any base; the result
was undefined for bases other than 2, 8, 10 and 16.
---
 lib/ctype/isnumber.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/ctype/isnumber.c b/lib/ctype/isnumber.c
index 4c37886..be9aeed 100644
--- a/lib/ctype/isnumber.c
+++ b/lib/ctype/isnumber.c
@@ -23,12 +23,11 @@
 int
 isnumber (int c, int base)
 {
-  if (base == 2)
-    return (c >= '0') && (c <= '1');
-  if (base == 8)
-    return (c >= '0') && (c <= '7');
-  if (base == 10)
-    return isdigit (c);
-  if (base == 16)
-    return isxdigit (c);
+  if (c >= '0' && c <= '9')
+    return c < '0' + base;
+  if (c >= 'a' && c <= 'z')
+    return c < 'a' + base - 10;
+  if (c >= 'A' && c <= 'Z')
+    return c < 'A' + base - 10;
+  return 0;
 }
-- 
2.43.0


From c95689c75a41913a0a4fd1c24a255387acc6c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 08/56] fix: abtol: parse the exact value of a numeral.

* lib/mes/abtol.c (abtol): Accumulate into a long; values over 31 bits were
truncated.  Determine the digit offset for each digit; a decimal digit after a
letter got the wrong value.  Accept upper case digits.  Accept one sign only.
---
 lib/mes/abtol.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/mes/abtol.c b/lib/mes/abtol.c
index 1f297b4..5e3633b 100644
--- a/lib/mes/abtol.c
+++ b/lib/mes/abtol.c
@@ -25,16 +25,16 @@ long
 abtol (char const **p, int base)
 {
   char const *s = p[0];
-  int i = 0;
+  long i = 0;
   int sign_p = 0;
-  int m = '0';
+  int m;
   if (base == 0)
     base = 10;
   while (isspace (s[0]) != 0)
     s = s + 1;
   if (s[0] != 0 && s[0] == '+')
     s = s + 1;
-  if (s[0] != 0 && s[0] == '-')
+  else if (s[0] != 0 && s[0] == '-')
     {
       sign_p = 1;
       s = s + 1;
@@ -42,8 +42,11 @@ abtol (char const **p, int base)
   while (isnumber (s[0], base) != 0)
     {
       i = i * base;
-      if (s[0] > '9')
+      m = '0';
+      if (s[0] > 'Z')
         m = 'a' - 10;
+      else if (s[0] > '9')
+        m = 'A' - 10;
       i = i + s[0] - m;
       s = s + 1;
     }
-- 
2.43.0


From 7642f6135ff9197e82d03c2b5816e06df264a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 09/56] fix: ntoab: make the buffer large enough for any long
 in any base.

* lib/mes/ntoab.c (ntoab): Allocate 66 bytes; numerals of more than 11
characters were written before the start of the buffer.
---
 lib/mes/ntoab.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mes/ntoab.c b/lib/mes/ntoab.c
index e75108b..f96659c 100644
--- a/lib/mes/ntoab.c
+++ b/lib/mes/ntoab.c
@@ -38,8 +38,9 @@ char *
 ntoab (long x, unsigned base, int signed_p)
 {
   if (__itoa_buf == 0)
-    __itoa_buf = malloc (20);
-  char *p = __itoa_buf + 11;
+    /* 64 binary digits, sign and terminator. */
+    __itoa_buf = malloc (66);
+  char *p = __itoa_buf + 65;
 
   p[0] = 0;
   p = p - 1;
-- 
2.43.0


From 1eb806d9e678ced42f9832107d71fb357c58be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 10/56] fix: malloc: return 0 when the kernel refuses memory.

* lib/linux/malloc.c (malloc): The brk system call returns the current break on
failure, not -1: a block outside of the heap was returned.
---
 lib/linux/malloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..2bfbe10 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -34,9 +34,11 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
-    return 0;
   char *p = __brk;
-  __brk = __brk + size;
+  char *end = __brk + size;
+  /* On failure the kernel returns the current break. */
+  if (end < p || brk (end) != cast_charp_to_long (end))
+    return 0;
+  __brk = end;
   return p;
 }
-- 
2.43.0


From efe3b1b495e8f271fdc7ae2d93b898bd90e81629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 11/56] fix: calloc: fail on overflow and when malloc fails.

* lib/stdlib/calloc.c (calloc): Return 0 if nmemb * size does not fit, and do not
clear memory at 0 if malloc fails.
---
 lib/stdlib/calloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..d2339bb 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -25,7 +25,10 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (nmemb != 0 && count / nmemb != size)
+    return 0;
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p != 0)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From 02cac93b392d27fcdd717cce4b9dc8617f0e7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/56] fix: strtol: handle white space, sign, and prefix by
 base.

---
 lib/stdlib/strtol.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/stdlib/strtol.c b/lib/stdlib/strtol.c
index ff937d9..519346d 100644
--- a/lib/stdlib/strtol.c
+++ b/lib/stdlib/strtol.c
@@ -19,22 +19,41 @@
  */
 
 #include <mes/lib.h>
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 
 long
 strtol (char const *string, char **tailptr, int base)
 {
-  if (!strncmp (string, "0x", 2))
+  char const *s = string;
+  int sign_p = 0;
+  long i;
+  while (isspace (s[0]) != 0)
+    s = s + 1;
+  if (s[0] == '+' || s[0] == '-')
     {
-      string += 2;
+      sign_p = s[0] == '-';
+      s = s + 1;
+    }
+  if (s[0] == '0' && (base == 0 || base == 16)
+      && (s[1] == 'x' || s[1] == 'X') && isxdigit (s[2]) != 0)
+    {
+      s = s + 2;
       base = 16;
     }
-  if (tailptr)
+  else
     {
-      *tailptr = (char *) string;
-      return abtol ((char const **) tailptr, base);
+      /* abtol handles white space and sign. */
+      if (s[0] == '0' && base == 0)
+        base = 8;
+      s = string;
+      sign_p = 0;
     }
-  char **p = (char **) &string;
-  return abtol ((char const **) p, base);
+  i = abtol (&s, base);
+  if (tailptr)
+    *tailptr = (char *) s;
+  if (sign_p != 0)
+    return -i;
+  return i;
 }
-- 
2.43.0


From d86d307dc9015e6f02f564525e44b083fdecc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 13/56] fix: ultoa: the number is unsigned.

---
 lib/mes/ultoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mes/ultoa.c b/lib/mes/ultoa.c
index 3319296..e769eb2 100644
--- a/lib/mes/ultoa.c
+++ b/lib/mes/ultoa.c
@@ -23,5 +23,5 @@
 char *
 ultoa (unsigned long x)
 {
-  return ntoab (x, 10, 1);
+  return ntoab (x, 10, 0);
 }
-- 
2.43.0


From 5bfce30a2fc28278aaea5f7b3b6b050d540d12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 14/56] fix: atol: do not truncate to int.

---
 lib/stdlib/atol.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/stdlib/atol.c b/lib/stdlib/atol.c
index 9339537..aa327a0 100644
--- a/lib/stdlib/atol.c
+++ b/lib/stdlib/atol.c
@@ -18,10 +18,12 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <stdlib.h>
 
-int
+long
 atol (char const *s)
 {
-  return atoi (s);
+  char const *p = s;
+  return abtol (&p, 0);
 }
-- 
2.43.0


From fb5304667c11d1670ccdd6b60451f06d3294a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 15/56] fix: x86_64: correct the number of the nanosleep system
 call.

---
 include/linux/x86_64/syscall.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/linux/x86_64/syscall.h b/include/linux/x86_64/syscall.h
index 36ef06b..734b250 100644
--- a/include/linux/x86_64/syscall.h
+++ b/include/linux/x86_64/syscall.h
@@ -66,7 +66,7 @@
 #define SYS_lstat     0x06
 #define SYS_setitimer 0x26
 #define SYS_fstat     0x05
-#define SYS_nanosleep 0x33
+#define SYS_nanosleep 0x23
 #define SYS_getdents  0x4e
 #define SYS_clock_gettime 0xe4
 
-- 
2.43.0


From 70456e9eef8a63f3e7003fe9dfc2479c57b4fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 16/56] fix: alloc: refuse a negative number of cells.

---
 src/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..955a565 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -157,6 +157,9 @@ struct scm *
 alloc (long n)
 {
   struct scm *x = g_free;
+  /* Never move back over existing cells. */
+  if (n < 0 || n > ARENA_SIZE)
+    assert_msg (0, "alloc: out of memory");
   g_free = g_free + (n * M2_CELL_SIZE);
   long i = g_free - g_cells;
   i = i / M2_CELL_SIZE;
-- 
2.43.0


From 699a0f4ea4e870fdc1651ad78a298afb7f9e28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 17/56] fix: vectors, structs: reject an index below zero.

---
 src/struct.c | 2 ++
 src/vector.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/struct.c b/src/struct.c
index 19162c7..07ee1c9 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -58,6 +58,7 @@ struct scm *
 struct_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->structure, i);
   if (e->type == TREF)
@@ -73,6 +74,7 @@ struct scm *
 struct_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->structure, i), vector_entry (e));
   return cell_unspecified;
diff --git a/src/vector.c b/src/vector.c
index 0fc8404..3e622ed 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -68,6 +68,7 @@ struct scm *
 vector_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->vector, i);
   if (e->type == TREF)
@@ -97,6 +98,7 @@ struct scm *
 vector_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->vector, i), vector_entry (e));
   return cell_unspecified;
-- 
2.43.0


From 5b5f04fdfc811154aecdb33a84d8eeb465d935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 18/56] fix: vectors, structs: reject an index that is not a
 number.

---
 src/struct.c | 2 ++
 src/vector.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/struct.c b/src/struct.c
index 07ee1c9..124497c 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -83,11 +83,13 @@ struct_set_x_ (struct scm *x, long i, struct scm *e)
 struct scm *
 struct_ref (struct scm *x, struct scm *i)
 {
+  assert_number ("struct-ref", i);
   return struct_ref_ (x, i->value);
 }
 
 struct scm *
 struct_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  assert_number ("struct-set!", i);
   return struct_set_x_ (x, i->value, e);
 }
diff --git a/src/vector.c b/src/vector.c
index 3e622ed..c029266 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -83,6 +83,7 @@ vector_ref_ (struct scm *x, long i)
 struct scm *
 vector_ref (struct scm *x, struct scm *i)
 {
+  assert_number ("vector-ref", i);
   return vector_ref_ (x, i->value);
 }
 
@@ -107,6 +108,7 @@ vector_set_x_ (struct scm *x, long i, struct scm *e)
 struct scm *
 vector_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  assert_number ("vector-set!", i);
   return vector_set_x_ (x, i->value, e);
 }
 
-- 
2.43.0


From 90aef1e1690dfc9171b38496757738ce3038bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 19/56] fix: vector->list: do not share the cells of the
 vector.

---
 src/vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index c029266..b41e62b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -130,13 +130,13 @@ struct scm *
 vector_to_list (struct scm *v)
 {
   struct scm *x = cell_nil;
+  assert_msg (v->type == TVECTOR, "v->type == TVECTOR");
   long i;
   struct scm *e;
   for (i = v->length; i; i = i - 1)
     {
-      e = cell_ref (v->vector, i - 1);
-      if (e->type == TREF)
-        e = e->ref;
+      /* Do not share the vector's own cells. */
+      e = vector_ref_ (v, i - 1);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From 1de5580a0e292a5ee61c402e60e65d6018d8bd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 20/56] fix: assq, memq: a number is not a character.

(assq 97 '((#\a . 1))) and (memq 97 '(#\a)), so assv, memv and case, took
a character for the number of its code; with a keyword, assq took any
symbol or string of that name.
---
 src/core.c | 10 ++++++----
 src/lib.c  |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core.c b/src/core.c
index 15585e4..08c681e 100644
--- a/src/core.c
+++ b/src/core.c
@@ -227,8 +227,9 @@ assq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->car->value)
-            return a->car;
+          if (t == a->car->car->type)
+            if (v == a->car->car->value)
+              return a->car;
           a = a->cdr;
         }
     }
@@ -236,8 +237,9 @@ assq (struct scm *x, struct scm *a)
     {
       while (a != cell_nil)
         {
-          if (string_equal_p (x, a->car->car) == cell_t)
-            return a->car;
+          if (a->car->car->type == TKEYWORD)
+            if (string_equal_p (x, a->car->car) == cell_t)
+              return a->car;
           a = a->cdr;
         }
     }
diff --git a/src/lib.c b/src/lib.c
index f892553..e5d3aa1 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -74,8 +74,9 @@ memq (struct scm *x, struct scm *a)
       long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->value)
-            return a;
+          if (t == a->car->type)
+            if (v == a->car->value)
+              return a;
           a = a->cdr;
         }
       return cell_f;
-- 
2.43.0


From 20b9618891551e91db1b74327fa8a64401adef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 21/56] =?UTF-8?q?fix:=20string=3D=3F:=20reject=20a=20keywo?=
 =?UTF-8?q?rd=20next=20to=20a=20value=20of=20another=20type.?=

(string=? #:a x) read the fields of x, of any type, as those of a string.
---
 src/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string.c b/src/string.c
index 171cb7b..1ae6e2c 100644
--- a/src/string.c
+++ b/src/string.c
@@ -64,7 +64,7 @@ list_to_cstring (struct scm *list, size_t *size)
 struct scm *
 string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
 {
-  if (!((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD)))
+  if (!((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)))
     {
       eputs ("type a: ");
       eputs (itoa (a->type));
@@ -78,7 +78,7 @@ string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
       eputs ("b= ");
       write_error_ (b);
       eputs ("\n");
-      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD)");
+      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)");
     }
   if (a == b)
     return cell_t;
-- 
2.43.0


From 825402b6c6e503b86f61d3e8d71cfcc4b75e7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 22/56] fix: string-append: check the size before copying.

Appending to more than MAX_STRING characters wrote past g_buf before the
check: a segmentation fault.  The other users of g_buf write one
character more than MAX_STRING and a terminator.
---
 src/gc.c     | 3 ++-
 src/string.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 955a565..670dfb1 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -114,7 +114,8 @@ gc_init ()
   g_free = g_cells + M2_CELL_SIZE;
 
   /* FIXME: remove MES_MAX_STRING, grow dynamically. */
-  g_buf = malloc (MAX_STRING);
+  /* Room for one character too many and the terminator. */
+  g_buf = malloc (MAX_STRING + 2);
 }
 
 long
diff --git a/src/string.c b/src/string.c
index 1ae6e2c..7c3d54b 100644
--- a/src/string.c
+++ b/src/string.c
@@ -205,11 +205,11 @@ string_append (struct scm *x)           /*:((arity . n)) */
     {
       string = x->car;
       assert_msg (string->type == TSTRING, "string->type == TSTRING");
-      memcpy (p, cell_bytes (string->string), string->length + 1);
-      p = p + string->length;
       size = size + string->length;
       if (size > MAX_STRING)
         assert_max_string (size, "string_append", g_buf);
+      memcpy (p, cell_bytes (string->string), string->length + 1);
+      p = p + string->length;
       x = x->cdr;
     }
   return make_string (g_buf, size);
-- 
2.43.0


From cfecaffaf3f224b5eff98454706d120bd3f91494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 23/56] fix: string-ref: the index equal to the length is out
 of range.

(string-ref "abc" 3) returned the terminator.
---
 src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 7c3d54b..4542354 100644
--- a/src/string.c
+++ b/src/string.c
@@ -229,7 +229,7 @@ string_ref (struct scm *str, struct scm *k)
   assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
   size_t size = str->length;
   size_t i = k->value;
-  if (i > size)
+  if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
   return make_char (p[i]);
-- 
2.43.0


From 3c3d5b2e2bb80c95e2546ec6f7da9ac094d6b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 24/56] fix: reader: report an identifier or number that is too
 long.

One of more than MAX_STRING characters was written past the end of
g_buf.
---
 src/reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 6b42178..da537fa 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -85,6 +85,8 @@ reader_read_identifier_or_number (int c)
       }
   while (isdigit (c) != 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       n = n * 10;
@@ -101,6 +103,8 @@ reader_read_identifier_or_number (int c)
   /* Fallthrough: Note that `4a', `+1b' are identifiers */
   while (reader_end_of_word_p (c) == 0)
     {
+      if (i > MAX_STRING)
+        assert_max_string (i, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
-- 
2.43.0


From 638e8e48c98755357011348a816542e5155426f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 25/56] fix: string-ref: give the same character as
 string->list.

---
 src/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 4542354..b9efe37 100644
--- a/src/string.c
+++ b/src/string.c
@@ -232,5 +232,7 @@ string_ref (struct scm *str, struct scm *k)
   if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
-  return make_char (p[i]);
+  /* The same character that string->list gives. */
+  int c = (0x100 + p[i]) % 0x100;
+  return make_char (c);
 }
-- 
2.43.0


From c5176c363ccb765a65b31275a83f0d36bc5687d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 26/56] fix: =: reject a later argument that is not a number.

---
 src/math.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.c b/src/math.c
index 2d0a502..01ad0c3 100644
--- a/src/math.c
+++ b/src/math.c
@@ -96,6 +96,7 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
   while (x != cell_nil)
     {
       i = car (x);
+      assert_number ("is_p", i);
       v = i->value;
       if (v != n)
         return cell_f;
-- 
2.43.0


From 5b5b1f2383bfb9711d89bd26da8b75003f07e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 27/56] fix: -: report the missing argument.

---
 src/math.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math.c b/src/math.c
index 01ad0c3..cb872ff 100644
--- a/src/math.c
+++ b/src/math.c
@@ -108,6 +108,8 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
 struct scm *
 minus (struct scm *x)                   /*:((name . "-") (arity . n)) */
 {
+  if (x == cell_nil)
+    error (cell_symbol_wrong_number_of_args, x);
   assert_number ("minus", x->car);
   long n = x->car->value;
   x = cdr (x);
-- 
2.43.0


From eccd29ddbc4c83c74926006ce777d94ece7d435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 28/56] fix: /: handle negative divisors, look at every
 argument.

---
 src/math.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/math.c b/src/math.c
index cb872ff..01ce774 100644
--- a/src/math.c
+++ b/src/math.c
@@ -164,7 +164,7 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
   if (n < 0)
     {
       sign_p = 1;
-      u = -n;
+      u = 0 - u;
     }
   size_t w;
   while (x != cell_nil)
@@ -174,17 +174,18 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
       v = i->value;
       sign_p = sign_p && v > 0 || !sign_p && v < 0;
       w = v;
+      if (v < 0)
+        w = 0 - w;
       if (v == 0)
         error (cstring_to_symbol ("divide-by-zero"), x);
-      if (u == 0)
-        break;
-      if (w != 1)
-        u = u / w;
+      if (u != 0)
+        if (w != 1)
+          u = u / w;
       x = cdr (x);
     }
-  n = u;
   if (sign_p)
-    n = -n;
+    u = 0 - u;
+  n = u;
   return make_number (n);
 }
 
-- 
2.43.0


From 274a34c417d3505a82787793662dfbfc9c9c054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 29/56] fix: modulo: the result has the sign of the divisor.

---
 src/math.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/math.c b/src/math.c
index 01ce774..a8dad67 100644
--- a/src/math.c
+++ b/src/math.c
@@ -203,13 +203,20 @@ modulo (struct scm *a, struct scm *b)
   if (v < 0)
     {
       sign_p = 1;
-      w = -v;
+      w = 0 - w;
     }
-  while (n < 0)
-    n = n + w;
+  int differ_p = sign_p;
   size_t u = n;
+  if (n < 0)
+    {
+      differ_p = 1 - sign_p;
+      u = 0 - u;
+    }
   if (u != 0)
     u = u % w;
+  if (u != 0)
+    if (differ_p)
+      u = w - u;
   n = u;
   if (sign_p)
     n = -n;
-- 
2.43.0


From bb5f140f7d6faa712056a193db6f523e38d293f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 30/56] fix: ash: shift counts of a word and more.

---
 src/math.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index a8dad67..17b54cf 100644
--- a/src/math.c
+++ b/src/math.c
@@ -307,9 +307,18 @@ ash (struct scm *n, struct scm *count)
   long cn = n->value;
   long ccount = count->value;
   long result;
+  long bits = 8 * sizeof (long);
   if (ccount < 0)
-    result = cn >> -ccount;
+    {
+      if (ccount <= -bits)
+        ccount = 1 - bits;
+      result = cn >> -ccount;
+    }
   else
-    result = cn << ccount;
+    {
+      result = 0;
+      if (ccount < bits)
+        result = cn << ccount;
+    }
   return make_number (result);
 }
-- 
2.43.0


From a5c5a78bd9a1c842b330af07931be111dfdc9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 31/56] fix: hash: Names with bytes outside ASCII hash to a
 bucket.

* src/hash.c (hash_cstring): Avoid a negative hash for characters that are
negative chars.
---
 src/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index ed1bb5d..7a84896 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -26,10 +26,10 @@
 int
 hash_cstring (char const *s, long size)
 {
-  int hash = s[0] * 37;
+  int hash = ((0x100 + s[0]) % 0x100) * 37;
   if (s[0] != 0)
     if (s[1] != 0)
-      hash = hash + (s[1] * 43);
+      hash = hash + (((0x100 + s[1]) % 0x100) * 43);
   assert_msg (size != 0, "size");
   hash = hash % size;
   return hash;
-- 
2.43.0


From 02bd27466599fb3da7fccb931401c40c441b4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 32/56] fix: hash: An absent key gives the default, also when
 its bucket is used.

* src/hash.c (hashq_get_handle, hashq_ref, hash_ref): Use the default when the
key is not found in a bucket that holds other keys.
(hashq_ref): Do not take the cdr of the default.
---
 src/hash.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 7a84896..f539fb0 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -78,20 +78,23 @@ hashq_get_handle (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
     x = assq (key, bucket);
+  if (x == cell_f)
+    if (dflt->type == TPAIR)
+      x = dflt->car;
   return x;
 }
 
 struct scm *
 hashq_ref (struct scm *table, struct scm *key, struct scm *dflt)
 {
-  struct scm *x = hashq_get_handle (table, key, dflt);
+  struct scm *x = hashq_get_handle (table, key, cell_f);
   if (x != cell_f)
-    x = x->cdr;
-  return x;
+    return x->cdr;
+  if (dflt->type == TPAIR)
+    return dflt->car;
+  return cell_f;
 }
 
 struct scm *
@@ -103,15 +106,13 @@ hash_ref (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *buckets = struct_ref_ (table, 4);
   struct scm *bucket = vector_ref_ (buckets, hash);
   struct scm *x = cell_f;
-  if (dflt->type == TPAIR)
-    x = dflt->car;
   if (bucket->type == TPAIR)
-    {
-      x = assoc (key, bucket);
-      if (x != cell_f)
-        x = x->cdr;
-    }
-  return x;
+    x = assoc (key, bucket);
+  if (x != cell_f)
+    return x->cdr;
+  if (dflt->type == TPAIR)
+    return dflt->car;
+  return cell_f;
 }
 
 struct scm *
-- 
2.43.0


From 17faabe30144e65b6b2bf5276699a2ee3584d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 33/56] fix: hash: make-hash-table takes a size.

* src/hash.c (make_hash_table): Look at the first argument, not at the list of
arguments.
---
 src/hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hash.c b/src/hash.c
index f539fb0..27b01de 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -211,6 +211,7 @@ make_hash_table (struct scm *x)
   long size = 0;
   if (x->type == TPAIR)
     {
+      x = x->car;
       assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
       size = x->value;
     }
-- 
2.43.0


From e665efd756e104c2fd001795d73d6db221b76252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 34/56] fix: qsort: Sort arrays that contain equal elements.

An element equal to the pivot advanced the boundary without being moved
below it, and the pivot was sorted again with the upper part.
---
 lib/stdlib/qsort.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/stdlib/qsort.c b/lib/stdlib/qsort.c
index 68352f5..e34e91c 100644
--- a/lib/stdlib/qsort.c
+++ b/lib/stdlib/qsort.c
@@ -54,8 +54,6 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
 #endif
           i++;
         }
-      else if (c == 0)
-        i++;
     }
   if (compare (base + count * size, base + i * size) < 0)
     qswap (base + i * size, base + count * size, size);
@@ -67,13 +65,13 @@ qsort (void *base, size_t count, size_t size, int (*compare) (void const *, void
 {
   if (count > 1)
     {
-      int p = qpart (base, count - 1, size, compare);
+      size_t p = qpart (base, count - 1, size, compare);
       qsort (base, p, size, compare);
 #if 1                           //__x86_64__
-      qsort (base + p * size, count - p, size, compare);
+      qsort (base + (p + 1) * size, count - p - 1, size, compare);
 #else
-      int p1 = base + p * size;
-      int p2 = count - p;
+      int p1 = base + (p + 1) * size;
+      int p2 = count - p - 1;
       qsort (p1, p2, size, compare);
 #endif
     }
-- 
2.43.0


From 7bd25a7a78986c8991a3ccfa63eddecaafd2991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 35/56] fix: __mesabi_ldiv: Divide by and divide LONG_MIN.

A divisor LONG_MIN was reported as division by zero; for a dividend
LONG_MIN, the quotient was counted one by one.
---
 lib/mes/div.c | 52 +++++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/lib/mes/div.c b/lib/mes/div.c
index 4ea0ce3..3cf7d92 100644
--- a/lib/mes/div.c
+++ b/lib/mes/div.c
@@ -232,45 +232,19 @@ void
 __mesabi_ldiv (long a, long b, struct ldiv_t *result)
 {
   int negate_result = (a < 0) ^ (b < 0);
-  if (b == LONG_MIN)
-    __mesabi_div0 ();
-  if (a != LONG_MIN)
-    {
-      int negative_a = (a < 0);
-      if (negative_a)
-        a = -a;
-      if (b < 0)
-        b = -b;
-      result->quot = __mesabi_uldiv (a, b, &result->rem);
-      if (negate_result)
-        result->quot = -result->quot;
-      if (negative_a)
-        result->rem = -result->rem;
-    }
-  else
-    {
-      result->rem = 0;
-      if (b < 0)
-        b = -b;
-      if (b == 1)
-        {
-          result->quot = a;
-          /* Since result->quot is already negative, don't negate it again. */
-          negate_result = !negate_result;
-        }
-      else if (b == 0)
-        __mesabi_div0 ();
-      else
-        {
-          long x;
-          for (x = 0; a <= -b; a += b)
-            ++x;
-          result->rem = a;      /* negative */
-          result->quot = x;
-        }
-      if (negate_result)
-        result->quot = -result->quot;
-    }
+  int negative_a = (a < 0);
+  /* Note: The magnitude of LONG_MIN only fits an unsigned long. */
+  unsigned long ua = a;
+  unsigned long ub = b;
+  if (negative_a)
+    ua = -ua;
+  if (b < 0)
+    ub = -ub;
+  result->quot = __mesabi_uldiv (ua, ub, &result->rem);
+  if (negate_result)
+    result->quot = -result->quot;
+  if (negative_a)
+    result->rem = -result->rem;
 }
 
 long
-- 
2.43.0


From d1b325e3d7da7d016b9a12776281c502ab8f1e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 36/56] fix: unsetenv: Look at the entry after a removed one.

---
 lib/posix/unsetenv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/posix/unsetenv.c b/lib/posix/unsetenv.c
index 726f626..efc186f 100644
--- a/lib/posix/unsetenv.c
+++ b/lib/posix/unsetenv.c
@@ -36,6 +36,7 @@ unsetenv (char const *name)
           while (*q++)
             q[0] = q[1];
         }
-      p++;
+      else
+        p++;
     }
 }
-- 
2.43.0


From 0c1e7f676c76bd55c4cc8c53398690ba6b119f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 37/56] fix: setenv: Respect OVERWRITE_P, do not write past the
 entry or environ.

---
 lib/posix/setenv.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..0eb78e0 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -30,7 +30,9 @@ setenv (char const *s, char const *v, int overwrite_p)
 {
   char **p = environ;
   int length = strlen (s);
+  int count = 0;
   char* q;
+  char **e;
 
   while (p[0] != 0)
     {
@@ -38,19 +40,39 @@ setenv (char const *s, char const *v, int overwrite_p)
         {
           q = p[0] + length;
           if (q[0] == '=')
-            break;
+            {
+              if (overwrite_p == 0)
+                return 0;
+              break;
+            }
         }
       p = p + M2_PTR_SIZE;
+      count = count + 1;
     }
   char *entry = malloc (length + strlen (v) + 2);
-  int end_p = p[0] == 0;
-  p[0] = entry;
+  if (entry == 0)
+    return -1;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
-  if (end_p != 0)
-    p[1] = 0;
+  if (p[0] == 0)
+    {
+      /* The array has no room for another entry.  */
+      e = malloc ((count + 2) * sizeof (char *));
+      if (e == 0)
+        return -1;
+      p = environ;
+      environ = e;
+      while (p[0] != 0)
+        {
+          e[0] = p[0];
+          e = e + M2_PTR_SIZE;
+          p = p + M2_PTR_SIZE;
+        }
+      p = e;
+      p[1] = 0;
+    }
+  p[0] = entry;
 
   return 0;
 }
-- 
2.43.0


From 9b1fe6ab33a82e7cf4adde029b08c343edffde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 38/56] fix: search_path: Any length of PATH, no PATH, empty
 entries.

---
 lib/mes/search-path.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index afedf13..fcc1903 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -26,17 +26,23 @@
 char *
 search_path (char const *file_name)
 {
-  static char buf[256];
   char *path = getenv ("PATH");
+  char *buf;
+  char *end;
+  if (!path)
+    return 0;
+  buf = malloc (strlen (path) + strlen (file_name) + 2);
+  if (!buf)
+    return 0;
   if (__mes_debug ())
     {
       eputs ("\n search-path: ");
       eputs (file_name);
       eputs ("\n");
     }
-  while (*path)
+  while (1)
     {
-      char *end = strchr (path, ':');
+      end = strchr (path, ':');
       if (!end)
         end = strchr (path, '\0');
       strncpy (buf, path, end - path);
@@ -47,7 +53,8 @@ search_path (char const *file_name)
           eputs (buf);
           eputs ("\n");
         }
-      if (buf[end - path] != '/')
+      /* An empty entry means the current directory.  */
+      if (end != path && buf[end - path - 1] != '/')
         strcat (buf, "/");
       strcat (buf, file_name);
       if (!access (buf, X_OK))
@@ -60,6 +67,8 @@ search_path (char const *file_name)
             }
           return buf;
         }
+      if (*end == 0)
+        return 0;
       path = end + 1;
     }
   return 0;
-- 
2.43.0


From c00c170cd44b2cce14ab892c26b98dfa19c25d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 39/56] fix: fread: Keep a pushed back character when reading
 fails.

A pushed back character counts as a short read.  Do not write a zero in
the caller's block when debugging.
---
 lib/stdio/fread.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..9c9b5b7 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -45,9 +45,8 @@ fread (void *data, size_t size, size_t count, FILE * stream)
   if (todo)
     {
       int r = read (filedes, buf, todo);
-      if (r < 0 && !bytes)
-        bytes = r;
-      else
+      /* An error after a pushed back character is a short read.  */
+      if (r > 0 || !bytes)
         bytes += r;
     }
 
@@ -61,8 +60,8 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       eputs ("\n");
       if (bytes > 0 && bytes < sizeof (debug_buf))
         {
-          strncpy (debug_buf, data, bytes);
-          buf[bytes] = 0;
+          memcpy (debug_buf, data, bytes);
+          debug_buf[bytes] = 0;
           eputs ("fread buf=");
           eputs (debug_buf);
           eputs ("\n");
-- 
2.43.0


From 3904aca943b3771066b2b45c47d31e2987d85af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 40/56] fix: __buffered_read: Deliver the buffered bytes when
 reading more fails.

---
 lib/mes/__buffered_read.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..41624be 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -75,6 +75,7 @@ __buffered_read (int filedes, void *buffer, size_t size)
   __buffered_read_init (filedes);
   struct __read_buffer *cache = &__read_cache[filedes];
   char *p = buffer;
+  ssize_t bytes;
   if (!cache->size && size > __read_buffer_max)
     return _read (filedes, buffer, size);
   while (cache->size > 0 && todo)
@@ -86,7 +87,13 @@ __buffered_read (int filedes, void *buffer, size_t size)
     {
 #if !__MESC__
       if (todo > __read_buffer_max)
-        return size - todo + _read (filedes, p, todo);
+        {
+          bytes = _read (filedes, p, todo);
+          /* What was buffered has been delivered: a short read.  */
+          if (bytes < 0 && todo < size)
+            return size - todo;
+          return size - todo + bytes;
+        }
       if (__mes_debug () > 4)
         {
           eputs ("__buffered_read: ");
@@ -94,7 +101,9 @@ __buffered_read (int filedes, void *buffer, size_t size)
           eputs ("\n");
         }
 #endif
-      ssize_t bytes = _read (filedes, cache->string, __read_buffer_max);
+      bytes = _read (filedes, cache->string, __read_buffer_max);
+      if (bytes < 0 && todo < size)
+        return size - todo;
       if (bytes < 0)
         return -1;
       if (bytes)
-- 
2.43.0


From c6e09a391593439ae0a941434402aecdcdf69bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 41/56] fix: lseek, write: Keep the buffered input if seeking
 fails.

---
 include/mes/lib.h         | 1 +
 lib/linux/lseek.c         | 5 ++++-
 lib/mes/__buffered_read.c | 8 ++++++++
 lib/posix/write.c         | 3 ++-
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/mes/lib.h b/include/mes/lib.h
index 549cca1..d0cdeb7 100644
--- a/include/mes/lib.h
+++ b/include/mes/lib.h
@@ -70,6 +70,7 @@ extern void (*__call_at_exit) (void);
 void __assert_fail (char *s);
 ssize_t __buffered_read (int filedes, void *buffer, size_t size);
 size_t __buffered_read_clear (int filedes);
+void __buffered_read_restore (int filedes, size_t size);
 void _exit (int code);
 long brk (void *addr);
 #endif // !SYSTEM_LIBC
diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..0a1b13f 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -42,5 +42,8 @@ lseek (int filedes, off_t offset, int whence)
   size_t skip = __buffered_read_clear (filedes);
   if (whence == SEEK_CUR)
     offset -= skip;
-  return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+  off_t r = _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+  if (r < 0)
+    __buffered_read_restore (filedes, skip);
+  return r;
 }
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index 41624be..1864020 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -68,6 +68,14 @@ __buffered_read_clear (int filedes)
   return size;
 }
 
+/* Take back a __buffered_read_clear that returned SIZE.  */
+void
+__buffered_read_restore (int filedes, size_t size)
+{
+  if (size)
+    __read_cache[filedes].size = size;
+}
+
 ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
diff --git a/lib/posix/write.c b/lib/posix/write.c
index c36b2a1..dcc9edc 100644
--- a/lib/posix/write.c
+++ b/lib/posix/write.c
@@ -28,7 +28,8 @@ write (int filedes, void const *buffer, size_t size)
 {
   size_t skip = __buffered_read_clear (filedes);
   if (skip)
-    lseek (filedes, -skip, SEEK_CUR);
+    if (lseek (filedes, -skip, SEEK_CUR) < 0)
+      __buffered_read_restore (filedes, skip);
   int r = _write (filedes, buffer, size);
   if (r < 0)
     {
-- 
2.43.0


From a8d0c6f632c7067bf4d3fd92aff1bdc798301894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 42/56] fix: read, fdgetc, fdungetc: Descriptors outside of the
 tables.

Reading from -1, or from a descriptor beyond __FILEDES_MAX, used memory
outside of the read buffers and of the pushed back characters.
---
 lib/mes/__buffered_read.c | 17 ++++++++++++++---
 lib/mes/fdgetc.c          | 25 +++++++++++++++++++------
 lib/mes/fdungetc.c        |  6 +++++-
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index 1864020..51ba58d 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -62,8 +62,14 @@ __buffered_read_init (int filedes)
 size_t
 __buffered_read_clear (int filedes)
 {
+  size_t size = 0;
+  /* Only descriptors in the table are buffered.  */
+  if (filedes < 0)
+    return size;
+  if (filedes >= __FILEDES_MAX)
+    return size;
   __buffered_read_init (filedes);
-  size_t size = __read_cache[filedes].size;
+  size = __read_cache[filedes].size;
   __read_cache[filedes].size = 0;
   return size;
 }
@@ -80,10 +86,15 @@ ssize_t
 __buffered_read (int filedes, void *buffer, size_t size)
 {
   size_t todo = size;
-  __buffered_read_init (filedes);
-  struct __read_buffer *cache = &__read_cache[filedes];
+  struct __read_buffer *cache;
   char *p = buffer;
   ssize_t bytes;
+  if (filedes < 0)
+    return _read (filedes, buffer, size);
+  if (filedes >= __FILEDES_MAX)
+    return _read (filedes, buffer, size);
+  __buffered_read_init (filedes);
+  cache = &__read_cache[filedes];
   if (!cache->size && size > __read_buffer_max)
     return _read (filedes, buffer, size);
   while (cache->size > 0 && todo)
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index e5c63a7..9644116 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -31,6 +31,11 @@ int *__ungetc_buf;
 int
 __ungetc_p (int filedes)
 {
+  /* Nothing is pushed back on descriptors outside of the table.  */
+  if (filedes < 0)
+    return 0;
+  if (filedes > __FILEDES_MAX)
+    return 0;
   if (__ungetc_buf == 0)
     __ungetc_init ();
   return __ungetc_buf[filedes] >= 0;
@@ -51,6 +56,10 @@ __ungetc_init ()
 void
 __ungetc_clear (int filedes)
 {
+  if (filedes < 0)
+    return;
+  if (filedes > __FILEDES_MAX)
+    return;
   if (__ungetc_buf == 0)
     __ungetc_init ();
   __ungetc_buf[filedes] = -1;
@@ -59,6 +68,10 @@ __ungetc_clear (int filedes)
 void
 __ungetc_set (int filedes, int c)
 {
+  if (filedes < 0)
+    return;
+  if (filedes > __FILEDES_MAX)
+    return;
   if (__ungetc_buf == 0)
     __ungetc_init ();
   __ungetc_buf[filedes] = c;
@@ -67,13 +80,13 @@ __ungetc_set (int filedes, int c)
 int
 fdgetc (int fd)
 {
-  if (__ungetc_buf == 0)
-    __ungetc_init ();
-
   char c;
-  int i = __ungetc_buf[fd];
-  if (i >= 0)
-    __ungetc_buf[fd] = -1;
+  int i = -1;
+  if (__ungetc_p (fd))
+    {
+      i = __ungetc_buf[fd];
+      __ungetc_buf[fd] = -1;
+    }
   else
     {
       int r = read (fd, &c, 1);
diff --git a/lib/mes/fdungetc.c b/lib/mes/fdungetc.c
index 8376c61..076f2f4 100644
--- a/lib/mes/fdungetc.c
+++ b/lib/mes/fdungetc.c
@@ -25,7 +25,11 @@ fdungetc (int c, int fd)
 {
   if (c == -1)
     return c;
-  else if (__ungetc_p (fd))
+  if (fd < 0)
+    return -1;
+  if (fd > __FILEDES_MAX)
+    return -1;
+  if (__ungetc_p (fd))
     {
       eputs (" ***MES C LIB*** fdungetc ungetc buffer overflow fd=");
       eputs (itoa (fd));
-- 
2.43.0


From 7782c5f46a2ae4f8907c559f523ecf01dcce1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 43/56] fix: readchar, peekchar: Bytes above 127 of string
 ports.

They were negative, and byte 255 was taken for end-of-file.
---
 src/posix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..fddc669 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -74,7 +74,11 @@ peekchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  return p[0];
+  int c = p[0];
+  /* A byte, also if char is signed.  */
+  if (c < 0)
+    c = c + 256;
+  return c;
 }
 
 int
@@ -89,6 +93,9 @@ readchar ()
     return -1;
   char const *p = cell_bytes (string->string);
   int c = p[0];
+  /* A byte, also if char is signed.  */
+  if (c < 0)
+    c = c + 256;
   p = p + 1;
   port->string = make_string (p, length - 1);
   return c;
-- 
2.43.0


From 688382f96516cfea9d75f9745ca494ab85799771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 44/56] fix: read-char, read-string: Read from the string port
 given.

A string port argument was ignored.  Too long a text left the port given
as the current input port.
---
 src/posix.c  | 9 +++++++--
 src/string.c | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index fddc669..4e26a63 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -150,8 +150,13 @@ read_char (struct scm *port)            /*:((arity . n)) */
 {
   int fd = __stdin;
   if (port->type == TPAIR)
-    if (port->car->type == TNUMBER)
-      __stdin = port->car->value;
+    {
+      struct scm *p = port->car;
+      if (p->type == TNUMBER)
+        __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
+    }
   struct scm *c = make_char (readchar ());
   __stdin = fd;
   return c;
diff --git a/src/string.c b/src/string.c
index b9efe37..b05f10f 100644
--- a/src/string.c
+++ b/src/string.c
@@ -178,13 +178,18 @@ read_string (struct scm *port)          /*:((arity . n)) */
       struct scm *p = car (port);
       if (p->type == TNUMBER)
         __stdin = p->value;
+      else if (p->type == TPORT)
+        __stdin = p->port;
     }
   int c = readchar ();
   size_t i = 0;
   while (c != -1)
     {
       if (i > MAX_STRING)
-        assert_max_string (i, "read_string", g_buf);
+        {
+          __stdin = fd;
+          assert_max_string (i, "read_string", g_buf);
+        }
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
-- 
2.43.0


From 0003e332b7eadeca6cacf9b0ff992c51270777fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 45/56] fix: eval: Inner defines in the value of a define.

The value of a (define NAME VALUE) may itself run definitions, which
overwrote what kind of definition this is.
---
 src/eval-apply.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..7cc89c9 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -655,6 +655,13 @@ eval:
                     goto eval;
                   }
               eval_define:
+                /* Evaluating the value may have run other definitions. */
+                global_p = 0;
+                if (R0->car->car != cell_closure)
+                  global_p = 1;
+                macro_p = 0;
+                if (R2->car == cell_symbol_define_macro)
+                  macro_p = 1;
                 name = R2->cdr->car;
                 aa = R2->cdr->car;
                 if (aa->type == TPAIR)
-- 
2.43.0


From eaf076d68935a6993101769b5324c07e4f64029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 46/56] fix: eval: Names are not bound to themselves while
 being defined.

While the value of (define NAME VALUE) was evaluated, NAME was bound to
the symbol NAME, in front of a binding of an outer procedure.
---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 7cc89c9..4588e3a 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -639,7 +639,7 @@ eval:
                 aa = R1->cdr->car;
                 if (aa->type != TPAIR)
                   {
-                    push_cc (R1->cdr->cdr->car, R2, cons (cons (R1->cdr->car, R1->cdr->car), R0), cell_vm_eval_define);
+                    push_cc (R1->cdr->cdr->car, R2, cons (cons (cell_circular, cell_circular), R0), cell_vm_eval_define);
                     goto eval;
                   }
                 else
-- 
2.43.0


From f59d81289a943490ec7330d505d437c20370eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 47/56] fix: expand_variable: Later inner definitions shadow
 globals.

A body that uses a name before its inner definition was resolved to the
global variable of the same name.
---
 src/eval-apply.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 4588e3a..3a79b48 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -227,12 +227,37 @@ formal_p (struct scm *x, struct scm *formals)   /*:((internal)) */
   return formals->type == TPAIR;
 }
 
+struct scm *
+add_defines (struct scm *formals, struct scm *x)        /*:((internal)) */
+{
+  struct scm *a;
+  struct scm *f;
+  while (x->type == TPAIR)
+    {
+      a = x->car;
+      if (a->type == TPAIR)
+        {
+          if (a->car == cell_symbol_define || a->car == cell_symbol_define_macro)
+            {
+              f = a->cdr->car;
+              formals = add_formals (formals, f);
+            }
+          else if (a->car == cell_symbol_begin)
+            formals = add_defines (formals, a->cdr);
+        }
+      x = x->cdr;
+    }
+  return formals;
+}
+
 struct scm *
 expand_variable_ (struct scm *x, struct scm *formals, int top_p)        /*:((internal)) */
 {
   struct scm *a;
   struct scm *f;
   struct scm *v;
+  /* Definitions further on shadow globals from here. */
+  formals = add_defines (formals, x);
   while (x->type == TPAIR)
     {
       a = x->car;
-- 
2.43.0


From c920843335111e977ffdc320eebc8700653bd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 48/56] fix: display: Numbers beyond 32 bits.

They were written as ints.
---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..a40b96e 100644
--- a/src/display.c
+++ b/src/display.c
@@ -144,7 +144,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From 645f21b941702fb34bb9f0c454cfb3f8a43c3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 49/56] fix: write: Characters above 127 and control
 characters.

They lacked the backslash, so that they could not be read back.
---
 src/display.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/display.c b/src/display.c
index a40b96e..58dfaab 100644
--- a/src/display.c
+++ b/src/display.c
@@ -51,8 +51,7 @@ fdwrite_char (char v, int fd)
     fdputs ("\\space", fd);
   else
     {
-      if (v >= 32 && v <= 127)
-        fdputc ('\\', fd);
+      fdputc ('\\', fd);
       fdputc (v, fd);
     }
 }
-- 
2.43.0


From a99d21898c98c2f3a9a60afcb11d775b293dc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 50/56] fix: display: Strings containing a NUL.

The text after the NUL was lost.
---
 src/display.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index 58dfaab..5898c6e 100644
--- a/src/display.c
+++ b/src/display.c
@@ -21,6 +21,8 @@
 #include "mes/lib.h"
 #include "mes/mes.h"
 
+#include <unistd.h>
+
 #include <stdlib.h>
 
 int g_depth;
@@ -204,7 +206,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           fdputc ('"', fd);
         }
       else
-        fdputs (cell_bytes (x->string), fd);
+        write (fd, cell_bytes (x->string), x->length);
     }
   else if (t == TSPECIAL || t == TSYMBOL)
     fdwrite_string (cell_bytes (x->string), x->length, fd);
-- 
2.43.0


From 2c2533501d2e5cf8fe85ee71675d694bd8bdd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 51/56] fix: read: Identifiers of a sign and digits keep their
 sign.

-4a was read as 4a.
---
 src/reader.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index da537fa..0f97669 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -74,13 +74,13 @@ reader_read_identifier_or_number (int c)
   int i = 0;
   long n = 0;
   int negative_p = 0;
-  if (c == '+')
-    if (isdigit (peekchar ()) != 0)
-      c = readchar ();
-  if (c == '-')
+  if (c == '+' || c == '-')
     if (isdigit (peekchar ()) != 0)
       {
-        negative_p = 1;
+        if (c == '-')
+          negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
-- 
2.43.0


From fdad1800b8b26b9b2c80909f63f2a5ea08024358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 52/56] fix: read: Skip all white-space.

A carriage return at top level was read as an endless list of zeros.
---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 0f97669..383393f 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -125,7 +125,7 @@ reset_reader:
       c = reader_read_line_comment (c);
       goto reset_reader;
     }
-  if ((c == ' ') || (c == '\t') || (c == '\n') || (c == '\f'))
+  if (isspace (c) != 0)
     {
       c = readchar ();
       goto reset_reader;
-- 
2.43.0


From 9fa82daf26cc09532654e3f0c94372b24324e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 53/56] fix: read: Upper-case hexadecimal characters.

---
 src/reader.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 383393f..d01943b 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -291,13 +291,10 @@ reader_read_character ()
           p = peekchar ();
         }
     }
-  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'F' && p <= 'F')))
+  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'A' && p <= 'F')))
     {
       struct scm *n = reader_read_hex ();
       c = n->value;
-      eputs ("reading hex c=");
-      eputs (itoa (c));
-      eputs ("\n");
     }
   else if (((c >= 'a' && c <= 'z') || c == '*') && ((p >= 'a' && p <= 'z') || p == '*'))
     {
-- 
2.43.0


From becca2d0353e91d639376a9dd9bf5dc45cbf36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 54/56] fix: read: Plus sign after #x, #b, #o.

---
 src/reader.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index d01943b..0761359 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -364,9 +364,10 @@ reader_read_binary ()
   long n = 0;
   int c = peekchar ();
   int negative_p = 0;
-  if (c == '-')
+  if (c == '+' || c == '-')
     {
-      negative_p = 1;
+      if (c == '-')
+        negative_p = 1;
       readchar ();
       c = peekchar ();
     }
@@ -388,9 +389,10 @@ reader_read_octal ()
   long n = 0;
   int c = peekchar ();
   int negative_p = 0;
-  if (c == '-')
+  if (c == '+' || c == '-')
     {
-      negative_p = 1;
+      if (c == '-')
+        negative_p = 1;
       readchar ();
       c = peekchar ();
     }
@@ -412,9 +414,10 @@ reader_read_hex ()
   long n = 0;
   int c = peekchar ();
   int negative_p = 0;
-  if (c == '-')
+  if (c == '+' || c == '-')
     {
-      negative_p = 1;
+      if (c == '-')
+        negative_p = 1;
       readchar ();
       c = peekchar ();
     }
-- 
2.43.0


From decd6741ef1a12675fc77894bf452807ccdbadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 55/56] fix: read: Character names longer than the buffer.

---
 src/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reader.c b/src/reader.c
index 0761359..b73ba24 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -303,6 +303,8 @@ reader_read_character ()
       i = i + 1;
       while ((p >= 'a' && p <= 'z') || p == '*')
         {
+          if (i > 8)
+            error (cell_symbol_system_error, make_string0 ("char not supported"));
           buf[i] = readchar ();
           i = i + 1;
           p = peekchar ();
-- 
2.43.0


From 1cba7bffeaa5918839633c0c4b45d740bca81cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:06 +0000
Subject: [PATCH 56/56] fix: gc_copy: Stop when the copies do not fit, instead
 of overwriting the stack.

With more live data than there is room for above G_FREE, a collection
wrote its copies over the Scheme stack and past the end of the arena.
---
 src/gc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 670dfb1..6747d0d 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -493,6 +493,15 @@ gc_copy (struct scm *old)               /*:((internal)) */
   if (old->type == TBROKEN_HEART)
     return old->car;
   struct scm *new = g_free;
+  /* The copy must not reach the stack. */
+  long n = 1;
+  if (old->type == TSTRUCT || old->type == TVECTOR)
+    n = 1 + old->length;
+  else if (old->type == TBYTES)
+    n = bytes_cells (old->length);
+  long end = cast_voidp_to_long (g_stack_array) + (g_stack * sizeof (struct scm *));
+  if (cast_voidp_to_long (g_free + (n * M2_CELL_SIZE)) > end)
+    assert_msg (0, "gc: out of memory");
   g_free = g_free + M2_CELL_SIZE;
   copy_news (new, old);
   if (new->type == TSTRUCT || new->type == TVECTOR)
-- 
2.43.0

