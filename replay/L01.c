#include "h.h"
void *mes_memcpy (void *, void const *, size_t), *mes___memcpy (void *, void const *, size_t), *mes_memmove (void *, void const *, size_t), *mes___memmove (void *, void const *, size_t);
void *mes_memset (void *, int, size_t), *mes___memset (void *, int, size_t); void mes_bzero (void *, size_t), mes_bcopy (void const *, void *, size_t);
static unsigned char before[70000];
/* arena of size N; dest at d, src at s, length n */
static void one (int f, size_t N, size_t d, size_t s, size_t n)
{
  static char const *names[] = { "memcpy", "__memcpy", "memmove", "__memmove", "bcopy" };
  unsigned char *a = f & 1 ? guard_start (0) : guard_end (0, N); void *r = 0; size_t i;
  for (i = 0; i < N; i++) before[i] = a[i] = rnd (256);
  D ("%s (buf+%lu, buf+%lu, %lu) in a buffer of %lu bytes", names[f], d, s, n, N);
  switch (f) {
    case 0: RUN (r = mes_memcpy (a + d, a + s, n)); break;
    case 1: RUN (r = mes___memcpy (a + d, a + s, n)); break;
    case 2: RUN (r = mes_memmove (a + d, a + s, n)); break;
    case 3: RUN (r = mes___memmove (a + d, a + s, n)); break;
    case 4: RUN (mes_bcopy (a + s, a + d, n)); r = a + d; break; }
  if (r != a + d) fail ("wrong return value");
  for (i = 0; i < N; i++) {
    unsigned char w = i >= d && i < d + n ? before[s + (i - d)] : before[i];
    if (a[i] != w) { D ("%s (buf+%lu, buf+%lu, %lu): byte %lu is %d, expected %d", names[f], d, s, n, i, a[i], w); fail (i >= d && i < d + n ? "wrong byte in destination" : "byte outside the destination changed"); } }
}
static void set (int f, size_t N, size_t d, int c, size_t n)
{
  static char const *names[] = { "memset", "__memset", "bzero" };
  unsigned char *a = f & 1 ? guard_start (0) : guard_end (0, N); void *r = 0; size_t i;
  for (i = 0; i < N; i++) before[i] = a[i] = rnd (256);
  if (f == 2) c = 0;
  D ("%s (buf+%lu, %d, %lu)", names[f], d, c, n);
  switch (f) { case 0: RUN (r = mes_memset (a + d, c, n)); break; case 1: RUN (r = mes___memset (a + d, c, n)); break; case 2: RUN (mes_bzero (a + d, n)); r = a + d; break; }
  if (r != a + d) fail ("wrong return value");
  for (i = 0; i < N; i++) { unsigned char w = i >= d && i < d + n ? (unsigned char) c : before[i]; if (a[i] != w) fail ("wrong byte"); }
}
int main (int argc, char **argv)
{
  init (argc, argv);
  for (int f = 0; f < 5; f++)
    {
      for (size_t d = 0; d <= 12; d++) for (size_t s = 0; s <= 12; s++) for (size_t n = 0; n + (d > s ? d : s) <= 12; n++)
        if (f >= 2 || d <= s || d >= s + n || s >= d + n) one (f, 12, d, s, n);
      for (size_t n = 0; n <= 300; n++) { one (f, 2 * n + 2, n + 1, 0, n); one (f, 2 * n + 2, 0, n + 1, n); if (f >= 2) { one (f, n + 1, 1, 0, n); one (f, n + 1, 0, 1, n); one (f, n + n / 2 + 1, n / 2, 0, n);} }
      size_t big[] = { 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769 };
      for (int k = 0; k < 12; k++) { size_t n = big[k]; one (f, 2 * n, n, 0, n); one (f, 2 * n, 0, n, n); if (f >= 2) { one (f, n + 7, 7, 0, n); one (f, n + 7, 0, 7, n); } }
      if (f >= 2) for (int k = 0; k < 3000; k++) { size_t N = 1 + rnd (600), d = rnd (N + 1), s = rnd (N + 1), m = N - (d > s ? d : s); one (f, N, d, s, rnd (m + 1)); }
    }
  for (int f = 0; f < 3; f++)
    {
      for (int c = -300; c <= 300; c++) set (f, 9, 2, c, 5);
      for (size_t n = 0; n <= 700; n++) set (f, n + 2, 1, rnd (256), n);
      for (size_t n = 4090; n < 4100; n++) set (f, n, 0, 7, n);
      set (f, 65536 + 10, 3, 0xab, 65536);
    }
  return done ();
}
