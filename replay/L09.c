#include "h.h"
#include "k.h"
extern int mes_errno; extern char *mes___brk;
void *mes_malloc (size_t), *mes_calloc (size_t, size_t), *mes_realloc (void *, size_t); void mes_free (void *); char *mes_strdup (char const *);
static unsigned long lo, cur, limit, mapped; static int refuse;
static long kernel (long nr, long *a)
{
  if (nr != 12) return -38;
  if (a[0] == 0) return cur;
  if (refuse || (unsigned long) a[0] < lo || (unsigned long) a[0] > limit) return cur;
  if (a[0] > cur) { /* fresh pages are zero, the rest of a page keeps what was there */ }
  cur = a[0]; return cur;
}
#define N 600
static struct { unsigned char *p; size_t n; unsigned char tag; } B[N]; static int nb;
static void check_all (void)
{
  for (int i = 0; i < nb; i++) for (size_t k = 0; k < B[i].n; k++) if (B[i].p[k] != (unsigned char) (B[i].tag + k * 7)) { char t[120]; snprintf (t, 120, "block %d of %lu bytes was overwritten at %lu", i, B[i].n, k); fail (t); }
}
static void got (unsigned char *p, size_t n)
{
  if ((unsigned long) p % 8) fail ("not aligned to 8");
  if ((unsigned long) p < lo || (unsigned long) p + n > cur) fail ("block is not inside the memory obtained");
  for (int i = 0; i < nb; i++) if (n && B[i].n && p < B[i].p + B[i].n && B[i].p < p + n) fail ("block overlaps an earlier one");
}
static void keep (unsigned char *p, size_t n) { if (nb == N) return; B[nb].p = p; B[nb].n = n; B[nb].tag = rnd (256); for (size_t k = 0; k < n; k++) p[k] = B[nb].tag + k * 7; nb++; }
int main (int argc, char **argv)
{
  init (argc, argv);
  if (!k_init ()) { printf ("no system-call dispatch here\n"); return done (); }
  for (int round = 0; round < 60; round++)
    {
      size_t sz = 1 << 20; unsigned char *m = mmap ((void *) (round % 3 == 0 ? 0 : 0), sz + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      mprotect (m + 4096, sz, PROT_READ | PROT_WRITE); lo = (unsigned long) m + 4096 + rnd (9) + (rnd (2) ? rnd (4000) : 0); cur = lo; limit = (unsigned long) m + 4096 + sz - (rnd (2) ? rnd (9) : 0); mes___brk = 0; nb = 0;
      if (round % 4 == 1) limit = lo + rnd (3000);
      for (int t = 0; t < 300; t++)
        {
          size_t n = rnd (4) ? rnd (40) : rnd (5000); unsigned char *p; unsigned long before = cur; refuse = rnd (12) == 0;
          switch (rnd (6))
            {
            case 0: case 1:
              if (rnd (40) == 0) n = -1UL - rnd (20); else if (rnd (40) == 0) n = 1UL << 63; else if (rnd (30) == 0) n = sz * 2;
              D ("malloc (%lu) after %d blocks%s", n, nb, refuse ? ", kernel refuses" : ""); RUN (p = mes_malloc (n));
              if (n > sz && p) fail ("a block of impossible size");
              if (p) { got (p, n); for (size_t k = 0; k < n; k++) if (p[k]) fail ("contents indeterminate (library relies on zero)"); keep (p, n); } else if (!refuse && n <= sz && cur + n + 16 < limit) fail ("refused although memory is there"); break;
            case 2: { size_t a = rnd (30), b = rnd (60); if (rnd (10) == 0) { a = 1UL << (32 + rnd (32)); b = 1UL << (32 + rnd (32)); }
              D ("calloc (%lu, %lu) after %d blocks%s", a, b, nb, refuse ? ", kernel refuses" : ""); RUN (p = mes_calloc (a, b));
              if (p && (unsigned __int128) a * b > sz) fail ("a block of impossible size");
              if (p) { got (p, a * b); for (size_t k = 0; k < a * b; k++) if (p[k]) fail ("not cleared"); keep (p, a * b); } break; }
            case 3: case 4:
              { int i = nb ? (int) rnd (nb) : -1; if (rnd (8) == 0) i = -1;
              D ("realloc (%s%lu, %lu) after %d blocks%s", i < 0 ? "0 " : "block of ", i < 0 ? 0 : B[i].n, n, nb, refuse ? ", kernel refuses" : ""); RUN (p = mes_realloc (i < 0 ? 0 : B[i].p, n));
              if (p) { got (p, n); if (i >= 0) for (size_t k = 0; k < n && k < B[i].n; k++) if (p[k] != (unsigned char) (B[i].tag + k * 7)) fail ("contents lost"); keep (p, n); } break; }
            case 5:
              if (nb) { int i = rnd (nb); D ("free block %d of %d", i, nb); check_all (); RUN (mes_free (B[i].p)); B[i] = B[--nb]; }
              break;
            }
          check_all ();
        }
      munmap (m, sz + 8192);
    }
  return done ();
}
