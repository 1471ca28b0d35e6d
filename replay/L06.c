#include "h.h"
char *mes_ntoab (long, unsigned, int), *mes_itoa (int), *mes_ltoa (long), *mes_ltoab (long, int), *mes_ultoa (unsigned long), *mes_utoa (unsigned);
extern char *mes___itoa_buf;
void *mes_malloc (size_t n) { return guard_end (7, 66 > n ? 66 : n); }
static char want[80];
static void ref (unsigned long u, unsigned b, int neg)
{
  char *p = want + 79; *p = 0;
  do { *--p = "0123456789abcdefghijklmnopqrstuvwxyz"[u % b]; u /= b; } while (u);
  if (neg) *--p = '-';
  memmove (want, p, strlen (p) + 1);
}
static char *r;
static void eq (void) { if (strcmp (r, want)) { char t[200]; snprintf (t, sizeof t, "gives %s instead of %s", r, want); fail (t); } }
static void one (long x)
{
  unsigned long ax = x < 0 ? -(unsigned long) x : x;
  for (unsigned b = 2; b <= 36; b++)
    {
      D ("ntoab (%ld, %u, 1)", x, b); RUN (r = mes_ntoab (x, b, 1)); ref (ax, b, x < 0); eq ();
      D ("ntoab (%ld, %u, 0)", x, b); RUN (r = mes_ntoab (x, b, 0)); ref (x, b, 0); eq ();
      D ("ltoab (%ld, %u)", x, b); RUN (r = mes_ltoab (x, b)); ref (ax, b, x < 0); eq ();
    }
  D ("ltoa (%ld)", x); RUN (r = mes_ltoa (x)); ref (ax, 10, x < 0); eq ();
  D ("ultoa (%lu)", x); RUN (r = mes_ultoa (x)); ref (x, 10, 0); eq ();
  D ("itoa (%d)", (int) x); RUN (r = mes_itoa (x)); ref ((int) x < 0 ? -(unsigned long) (int) x : (int) x, 10, (int) x < 0); eq ();
  D ("utoa (%u)", (unsigned) x); RUN (r = mes_utoa (x)); ref ((unsigned) x, 10, 0); eq ();
}
int main (int argc, char **argv)
{
  init (argc, argv);
  for (long x = -1300; x <= 1300; x++) one (x);
  for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { one ((1UL << k) + d); one (-(1UL << k) + d); }
  for (unsigned b = 2; b <= 36; b++) { unsigned __int128 v = 1; while (v < ((unsigned __int128) 1 << 64)) { for (int d = -1; d <= 1; d++) { one ((unsigned long) v + d); one (-((unsigned long) v + d)); } v *= b; } }
  for (int t = 0; t < 4000; t++) { unsigned long x = rnd64 () >> rnd (64); one (x); one (-x); }
  return done ();
}
