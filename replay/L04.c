#include "h.h"
void *mes_memchr (void const *, int, size_t), *mes_memmem (void const *, int, void const *, int); char *mes_strchr (char const *, int), *mes_strrchr (char const *, int), *mes_strstr (char const *, char const *), *mes_strpbrk (char const *, char const *), *mes_index (char const *, int), *mes_rindex (char const *, int);
size_t mes_strspn (char const *, char const *), mes_strcspn (char const *, char const *);
static unsigned char *S, *T; static size_t l, m;
static int in (int c) { for (size_t i = 0; i < m; i++) if (T[i] == c) return 1; return 0; }
static void chr (int c)
{
  void *r, *w = 0, *z = 0, *mm = 0; size_t i; unsigned char ch = c;
  for (i = l + 1; i-- > 0;) { if (S[i] == ch) { w = S + i; if (!z) z = S + i; if (i < l) mm = S + i; } }
  D ("strchr (%s, %d)", hex (S, l), c); RUN (r = mes_strchr ((char *) S, c)); if (r != w) fail ("wrong position");
  D ("index (%s, %d)", hex (S, l), c); RUN (r = mes_index ((char *) S, c)); if (r != w) fail ("wrong position");
  D ("strrchr (%s, %d)", hex (S, l), c); RUN (r = mes_strrchr ((char *) S, c)); if (r != z) fail ("wrong position");
  D ("rindex (%s, %d)", hex (S, l), c); RUN (r = mes_rindex ((char *) S, c)); if (r != z) fail ("wrong position");
  D ("memchr (%s, %d, %lu)", hex (S, l), c, l); unsigned char *b = guard_end (2, l); memcpy (b, S, l); RUN (r = mes_memchr (b, c, l)); if (r != (mm ? b + ((unsigned char *) mm - S) : 0)) fail ("wrong position");
}
static void two (void)
{
  size_t i, k, sp, cs, r; void *w = 0, *pb = 0, *q;
  for (i = 0; i + m <= l; i++) if (!memcmp (S + i, T, m)) { w = S + i; break; }
  for (sp = 0; sp < l && in (S[sp]); sp++); for (cs = 0; cs < l && !in (S[cs]); cs++); if (cs < l) pb = S + cs;
  D ("strstr (%s, %s)", hex (S, l), hex (T, m)); RUN (q = mes_strstr ((char *) S, (char *) T)); if (q != w) fail ("wrong position");
  D ("strspn (%s, %s)", hex (S, l), hex (T, m)); RUN (r = mes_strspn ((char *) S, (char *) T)); if (r != sp) fail ("wrong length");
  D ("strcspn (%s, %s)", hex (S, l), hex (T, m)); RUN (r = mes_strcspn ((char *) S, (char *) T)); if (r != cs) fail ("wrong length");
  D ("strpbrk (%s, %s)", hex (S, l), hex (T, m)); RUN (q = mes_strpbrk ((char *) S, (char *) T)); if (q != pb) fail ("wrong position");
  unsigned char *a = guard_end (2, l), *b = guard_end (3, m); memcpy (a, S, l); memcpy (b, T, m);
  D ("memmem (%s, %lu, %s, %lu)", hex (S, l), l, hex (T, m), m); RUN (q = mes_memmem (a, l, b, m)); if (q != (w ? a + ((unsigned char *) w - S) : 0)) fail ("wrong position");
  (void) k;
}
static void set (unsigned char *s, size_t n, unsigned char *t, size_t k) { l = n; m = k; S = guard_end (0, l + 1); T = guard_end (1, m + 1); memcpy (S, s, l); S[l] = 0; memcpy (T, t, m); T[m] = 0; }
int main (int argc, char **argv)
{
  unsigned char x[40000], y[4000]; init (argc, argv);
  for (int c = -300; c < 600; c++) { for (int i = 0; i < 8; i++) x[i] = 1 + (c + 300 + i * 37) % 255; set (x, 8, y, 0); chr (c); x[3] = x[6] = (unsigned char) c ? c : 1; set (x, 8, y, 0); chr (c); set (x, 0, y, 0); chr (c); set (x, 1, y, 0); chr (c); set (x, 4, y, 0); chr (c);}
  /* all pairs of strings up to length 5/3 over {a, b, \x80} */
  for (int la = 0; la <= 6; la++) { int na = 1; for (int i = 0; i < la; i++) na *= 2 + (la < 6); int q = 2 + (la < 6);
    for (int u = 0; u < na; u++) for (int lb = 0; lb <= 3; lb++) { int nb = 1; for (int i = 0; i < lb; i++) nb *= 3;
      for (int v = 0; v < nb; v++) { int a = u, b = v; for (int i = 0; i < la; i++) { x[i] = "ab\x80"[a % q]; a /= q; } for (int i = 0; i < lb; i++) { y[i] = "ab\x80"[b % 3]; b /= 3; } set (x, la, y, lb); two (); } } }
  for (int t = 0; t < 3000; t++) { size_t n = rnd (300), k = rnd (8); int al = 1 + rnd (4); for (size_t i = 0; i < n; i++) x[i] = 'a' + rnd (al); for (size_t i = 0; i < k; i++) y[i] = 'a' + rnd (al + (rnd (8) == 0)); set (x, n, y, k); two (); chr ('a' + rnd (5)); }
  size_t big[] = { 255, 256, 257, 511, 512, 1024, 4096, 30000 };
  for (int t = 0; t < 8; t++) { size_t n = big[t]; memset (x, 'a', n); x[n - 1] = 'b'; y[0] = 'b'; set (x, n, y, 1); two (); chr ('b'); chr ('a'); chr (0); chr ('c'); memset (y, 'a', 200); y[200] = 'b'; set (x, n, y, 201); two (); set (x, n, y, 200); two (); }
  return done ();
}
