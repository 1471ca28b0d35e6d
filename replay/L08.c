#include "h.h"
void mes_qsort (void *, size_t, size_t, int (*) (void const *, void const *));
static unsigned char *A; static size_t N, Z; static int dir, scale; static unsigned long calls;
/* key: the first byte (two bytes for even sizes), the rest of an element is its identity */
static int keyof (unsigned char const *p) { return Z % 2 || Z < 2 ? p[0] : p[0] + 256 * p[1]; }
static int cmp (void const *x, void const *y)
{
  unsigned char const *a = x, *b = y;
  if (a < A || b < A || a >= A + N * Z || b >= A + N * Z || (a - A) % Z || (b - A) % Z) { armed = 0; fail ("compares something that is not an element"); }
  if (++calls > 4 * N * N + 1000) { armed = 0; fail ("does not terminate (comparisons exceed 4 n^2)"); }
  int d = keyof (a) - keyof (b); return dir * d * scale;
}
static int bytes (void const *a, void const *b) { return memcmp (a, b, Z); }
static void one (unsigned char const *in, size_t n, size_t z, int sign, int sc, int front)
{
  static unsigned char was[200000], now[200000];
  N = n; Z = z; dir = sign; scale = sc; calls = 0; A = front ? guard_start (0) : guard_end (0, n * z);
  memcpy (A, in, n * z); memcpy (was, in, n * z);
  D ("qsort (%s, %lu, %lu, %s)", hex (in, n * z), n, z, sign > 0 ? "ascending by key" : "descending by key");
  RUN (mes_qsort (A, n, z, cmp));
  for (size_t i = 0; i + 1 < n; i++) if (sign * (keyof (A + i * z) - keyof (A + (i + 1) * z)) > 0) { D ("qsort (%s, %lu, %lu, %s) -> %s", hex (in, n * z), n, z, sign > 0 ? "ascending by key" : "descending by key", hex (A, n * z)); fail ("result is not ordered"); }
  memcpy (now, A, n * z); qsort (was, n, z, bytes); qsort (now, n, z, bytes);
  if (memcmp (was, now, n * z)) { D ("qsort (%s, %lu, %lu) -> %s", hex (in, n * z), n, z, hex (A, n * z)); fail ("result is not a permutation of the input"); }
}
int main (int argc, char **argv)
{
  static unsigned char x[100000]; init (argc, argv);
  for (int n = 0; n <= 7; n++) { int m = 1; for (int i = 0; i < n; i++) m *= 4;
    for (int v = 0; v < m; v++) { size_t z = 1 + (v + n) % 5; int b = v; memset (x, 0, n * z); for (int i = 0; i < n; i++) { x[i * z] = b % 4; b /= 4; if (z > 2) x[i * z + z - 1] = i; } one (x, n, z, 1, 1, v & 1); if (n < 7) one (x, n, z, -1, 1000, v & 1); } }
  for (int t = 0; t < 1500; t++) { size_t n = rnd (t % 10 ? 40 : 400), z = 1 + rnd (t % 3 ? 9 : 40); int k = 1 + rnd (256); for (size_t i = 0; i < n * z; i++) x[i] = i % z < 2 ? rnd (k) : rnd (256);
    if (t % 4 == 1) for (size_t i = 0; i < n; i++) x[i * z] = i; if (t % 4 == 2) for (size_t i = 0; i < n; i++) x[i * z] = n - i;
    one (x, n, z, rnd (2) ? 1 : -1, 1 + rnd (5), rnd (2)); }
  size_t zz[] = { 100, 255, 256, 257, 511, 512, 1000, 4096 }; for (int t = 0; t < 8; t++) for (int n = 2; n < 12; n++) { for (size_t i = 0; i < n * zz[t]; i++) x[i] = rnd (256); one (x, n, zz[t], 1, 1, 0); }
  for (int t = 0; t < 3; t++) { size_t n = 300 + 300 * t; for (size_t i = 0; i < 2 * n; i++) x[i] = rnd (256); one (x, n, 2, 1, 1, 0); memset (x, t, 2 * n); one (x, n, 2, 1, 1, 1); }
  return done ();
}
