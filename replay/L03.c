#include "h.h"
int mes_memcmp (void const *, void const *, size_t), mes_bcmp (void const *, void const *, size_t), mes_strcmp (char const *, char const *), mes_strncmp (char const *, char const *, size_t);
static int sg (int x) { return (x > 0) - (x < 0); }
static int ref (unsigned char *a, unsigned char *b, size_t n, int str) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (str && !a[i]) return 0; } return 0; }
static void one (unsigned char *x, size_t la, unsigned char *y, size_t lb, size_t n)
{
  unsigned char *a = guard_end (0, la + 1), *b = guard_end (1, lb + 1); int r;
  memcpy (a, x, la); a[la] = 0; memcpy (b, y, lb); b[lb] = 0;
  D ("strcmp (%s, %s)", hex (a, la), hex (b, lb)); RUN (r = mes_strcmp ((char *) a, (char *) b)); if (sg (r) != ref (a, b, -1, 1)) fail ("wrong order");
  D ("strncmp (%s, %s, %lu)", hex (a, la), hex (b, lb), n); RUN (r = mes_strncmp ((char *) a, (char *) b, n)); if (sg (r) != ref (a, b, n, 1)) fail ("wrong order");
  size_t m = la < lb ? la : lb; if (n < m) m = n;
  a = guard_end (0, m); b = guard_end (1, m); memcpy (a, x, m); memcpy (b, y, m);
  D ("memcmp (%s, %s, %lu)", hex (a, m), hex (b, m), m); RUN (r = mes_memcmp (a, b, m)); if (sg (r) != ref (a, b, m, 0)) fail ("wrong order");
  D ("bcmp (%s, %s, %lu)", hex (a, m), hex (b, m), m); RUN (r = mes_bcmp (a, b, m)); if (!r != !ref (a, b, m, 0)) fail ("wrong equality");
}
int main (int argc, char **argv)
{
  unsigned char x[70000], y[70000]; size_t i; init (argc, argv);
  for (int c = 1; c < 256; c++) for (int d = 1; d < 256; d++) { x[0] = c; y[0] = d; one (x, 1, y, 1, 1 + (c + d) % 3); x[0] = y[0] = 'q'; x[1] = c; y[1] = d; one (x, 2, y, 2, 1 + (c ^ d) % 4); }
  for (size_t la = 0; la < 6; la++) for (size_t lb = 0; lb < 6; lb++) for (size_t n = 0; n < 9; n++) for (size_t k = 0; k <= 6; k++) {
    for (i = 0; i < 6; i++) x[i] = y[i] = 'a' + i; if (k < 6) y[k] = 0x80 + k; one (x, la, y, lb, n); one (y, la, x, lb, n); }
  for (int t = 0; t < 4000; t++) { size_t l = rnd (400), k = rnd (l + 1), n = rnd (3) ? k + rnd (3) : rnd (500); for (i = 0; i < l + 5; i++) x[i] = y[i] = 1 + rnd (255); y[k] = 1 + rnd (255); one (x, l, y, l + rnd (3), n); }
  size_t big[] = { 511, 512, 513, 1024, 4096, 65535 };
  for (int t = 0; t < 6; t++) { size_t l = big[t]; for (i = 0; i < l + 5; i++) x[i] = y[i] = 1 + i % 255; one (x, l, y, l, l); one (x, l, y, l + 1, l + 1); y[l - 1] ^= 0xff; y[l-1] |= 1; one (x, l, y, l, l); one (x, l, y, l, l - 1); }
  return done ();
}
