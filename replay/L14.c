#include "h.h"
struct ldiv_t { long quot, rem; };
void mes___mesabi_ldiv (long, long, struct ldiv_t *); long mes___mesabi_imod (long, long), mes___mesabi_idiv (long, long);
unsigned long mes___mesabi_umod (unsigned long, unsigned long), mes___mesabi_udiv (unsigned long, unsigned long), mes_div_uldiv (unsigned long, unsigned long, unsigned long *);
long mes___divdi3 (long, long), mes___moddi3 (long, long); unsigned long mes___udivdi3 (unsigned long, unsigned long), mes___umoddi3 (unsigned long, unsigned long); 
static void two (unsigned long a, unsigned long b)
{
  if (!b) return;
  unsigned long q, r = 0; 
  struct { unsigned long lo, r, hi; } g = { 7, 0, 9 };
  D ("__mesabi_uldiv (%luUL, %luUL, &r)", a, b); RUN (q = mes_div_uldiv (a, b, &g.r)); if (q != a / b) fail ("wrong quotient"); if (g.r != a % b) fail ("wrong remainder"); if (g.lo != 7 || g.hi != 9) fail ("writes outside the remainder");
  D ("__mesabi_uldiv (%luUL, %luUL, 0)", a, b); RUN (q = mes_div_uldiv (a, b, 0)); if (q != a / b) fail ("wrong quotient");
  D ("__mesabi_udiv (%luUL, %luUL)", a, b); RUN (q = mes___mesabi_udiv (a, b)); if (q != a / b) fail ("wrong quotient");
  D ("__mesabi_umod (%luUL, %luUL)", a, b); RUN (r = mes___mesabi_umod (a, b)); if (r != a % b) fail ("wrong remainder");
  long x = a, y = b, wq, wr, s;
  if (y == -1) { wq = -a; wr = 0; } else { wq = x / y; wr = x % y; }
  struct { long lo; struct ldiv_t d; long hi; } h = { 5, { 1, 1 }, 6 };
  D ("__mesabi_ldiv (%ldL, %ldL, &d)", x, y); RUN (mes___mesabi_ldiv (x, y, &h.d)); if (h.d.quot != wq) fail ("wrong quotient"); if (h.d.rem != wr) fail ("wrong remainder"); if (h.lo != 5 || h.hi != 6) fail ("writes outside the result");
  D ("__mesabi_idiv (%ldL, %ldL)", x, y); RUN (s = mes___mesabi_idiv (x, y)); if (s != wq) fail ("wrong quotient");
  D ("__mesabi_imod (%ldL, %ldL)", x, y); RUN (s = mes___mesabi_imod (x, y)); if (s != wr) fail ("wrong remainder");
  D ("__udivdi3 (%luUL, %luUL)", a, b); RUN (q = mes___udivdi3 (a, b)); if (q != a / b) fail ("wrong quotient");
  D ("__umoddi3 (%luUL, %luUL)", a, b); RUN (q = mes___umoddi3 (a, b)); if (q != a % b) fail ("wrong remainder");
  if (y == -1 && a == 1UL << 63) return;
  D ("__divdi3 (%ldL, %ldL)", x, y); RUN (s = mes___divdi3 (x, y)); if (s != wq) fail ("wrong quotient");
  D ("__moddi3 (%ldL, %ldL)", x, y); RUN (s = mes___moddi3 (x, y)); if (s != wr) fail ("wrong remainder");
}
extern char **mes_environ;
int main (int argc, char **argv)
{
  static char *none[1]; init (argc, argv); mes_environ = none;
  unsigned long e[400]; int n = 0;
  for (int k = 0; k < 64; k++) { e[n++] = 1UL << k; e[n++] = (1UL << k) - 1; e[n++] = (1UL << k) + 1; e[n++] = -(1UL << k); e[n++] = 3UL << k; }
  for (int i = 0; i < 40; i++) e[n++] = i - 20;
  e[n++] = 0x8000000000000000UL; e[n++] = 0x7fffffffffffffffUL; e[n++] = 0xffffffffUL; e[n++] = 1000000007;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) two (e[i], e[j]);
  for (int t = 0; t < 60000; t++) { unsigned long a = rnd64 () >> rnd (64), b = rnd64 () >> rnd (64); if (rnd (3) == 0) a = a * b; if (rnd (3) == 0) a = -a; if (rnd (3) == 0) b = -b; two (a, b); }
  return done ();
}
