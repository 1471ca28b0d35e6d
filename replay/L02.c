#include "h.h"
size_t mes_strlen (char const *); char *mes_strcpy (char *, char const *), *mes_strncpy (char *, char const *, size_t), *mes_strcat (char *, char const *), *mes_strncat (char *, char const *, size_t), *mes_strdup (char const *), *mes_strlwr (char *), *mes_strupr (char *);
static void mk (unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = rnd (4) ? "aAzZ@[`{ 09\xff\x80\x7f"[rnd (14)] : 1 + rnd (255); p[n] = 0; }
static void one (size_t ls, size_t ld, size_t n)
{
  unsigned char *s = guard_end (0, ls + 1), *a, want[70000]; void *r; size_t i, w, lim;
  mk (s, ls);
  D ("strlen (%s)", hex (s, ls)); size_t q; RUN (q = mes_strlen ((char *) s)); if (q != ls) fail ("wrong length");
  a = guard_end (1, ls + 1); memset (a - 8, 0xee, 8 + ls + 1);
  D ("strcpy (d, %s)", hex (s, ls)); RUN (r = mes_strcpy ((char *) a, (char *) s)); if (r != a || memcmp (a, s, ls + 1) || a[-1] != 0xee) fail ("wrong result");
  a = guard_end (1, n); memset (a - 8, 0xee, 8 + n);
  D ("strncpy (d, %s, %lu)", hex (s, ls), n); RUN (r = mes_strncpy ((char *) a, (char *) s, n)); if (r != a || a[-1] != 0xee) fail ("wrong result");
  for (i = 0; i < n; i++) if (a[i] != (i < ls ? s[i] : 0)) fail ("wrong byte");
  /* strcat */
  a = guard_end (1, ld + ls + 1); memset (a - 8, 0xee, 8 + ld + ls + 1); mk (a, ld); memcpy (want, a, ld); memcpy (want + ld, s, ls + 1);
  D ("strcat (%s, %s)", hex (a, ld), hex (s, ls)); RUN (r = mes_strcat ((char *) a, (char *) s)); if (r != a || memcmp (a, want, ld + ls + 1) || a[-1] != 0xee) fail ("wrong result");
  w = ls < n ? ls : n; lim = ld + w + 1;
  a = guard_end (1, lim); memset (a - 8, 0xee, 8 + lim); mk (a, ld); memcpy (want, a, ld); memcpy (want + ld, s, w); want[ld + w] = 0;
  D ("strncat (%s, %s, %lu)", hex (a, ld), hex (s, ls), n); RUN (r = mes_strncat ((char *) a, (char *) s, n)); if (r != a || memcmp (a, want, lim) || a[-1] != 0xee) fail ("wrong result");
  D ("strdup (%s)", hex (s, ls)); RUN (r = mes_strdup ((char *) s)); if (!r || r == s || memcmp (r, s, ls + 1)) fail ("wrong copy");
  for (int up = 0; up < 2; up++) {
    a = guard_end (1, ls + 1); memcpy (a, s, ls + 1); a[-1] = 0xee;
    D ("%s (%s)", up ? "strupr" : "strlwr", hex (s, ls)); RUN (r = up ? mes_strupr ((char *) a) : mes_strlwr ((char *) a)); if (r != a || a[-1] != 0xee) fail ("wrong result");
    for (i = 0; i <= ls; i++) { int c = s[i]; if (up ? c >= 'a' && c <= 'z' : c >= 'A' && c <= 'Z') c ^= 32; if (a[i] != c) fail ("wrong character"); } }
}
long mes_brk (void *p) { static char *b, *lim; if (!b) { b = mmap (0, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); lim = b + (64 << 20); } if (!p) return (long) b; if ((char *) p < b || (char *) p > lim) return (long) b; return (long) p; }
int main (int argc, char **argv)
{
  init (argc, argv);
  for (size_t ls = 0; ls <= 9; ls++) for (size_t ld = 0; ld <= 5; ld++) for (size_t n = 0; n <= 12; n++) one (ls, ld, n);
  for (size_t ls = 0; ls < 300; ls++) one (ls, rnd (40), ls ? ls - 1 + rnd (4) : rnd (3));
  size_t big[] = { 511, 512, 1023, 1024, 1025, 4095, 4096, 20000, 32767, 32768 };
  for (int k = 0; k < 10; k++) { one (big[k], 3, big[k] - 1); one (big[k], 0, big[k]); one (big[k], 300, big[k] + 1); }
  return done ();
}
