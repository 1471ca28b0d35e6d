#include "s.h"
scm *mes_greater_p (scm *), *mes_less_p (scm *), *mes_is_p (scm *), *mes_plus (scm *), *mes_minus (scm *), *mes_multiply (scm *), *mes_divide (scm *), *mes_modulo (scm *, scm *), *mes_logand (scm *), *mes_logior (scm *), *mes_logxor (scm *), *mes_lognot (scm *), *mes_ash (scm *, scm *);
typedef __int128 big;
#define SMALLEST ((long) (1UL << 63))
#define FITS(v) ((v) >= (big) SMALLEST && (v) <= (big) ~SMALLEST)
static long num (void)
{
  switch (rnd (9))
    {
    case 0: return SMALLEST; case 1: return ~SMALLEST; case 2: return SMALLEST + 1; case 3: return (long) rnd64 ();
    case 4: return (long) (1UL << rnd (64)); case 5: return -(long) (1UL << rnd (63)); case 6: return (long) rnd64 () >> rnd (60);
    default: return (long) rnd (9) - 4;
    }
}
#define SAME if (!unchanged (0, 0)) fail ("an existing object changed")
static void number (scm *r, long want)
{ if (r < shot_free || r->type != TNUMBER) fail ("the result is not a new number"); if (r->cdrv != want) { char b[80]; sprintf (b, "result %ld, expected %ld", r->cdrv, want); fail (b); } }
int main (int argc, char **argv)
{
  static long v[400]; static scm *o[400]; long k; int i; mes_start (argc, argv);
  for (k = 0; k < 60000; k++)
    {
      if (mes_g_free - mes_g_cells > 40000 || k % 64 == 0) heap_reset ();
      int n = k % 50 == 7 ? rnd (300) : rnd (5), op = rnd (12), bad = n, near = rnd (2);
      if (op < 3 && rnd (3) == 0) { v[0] = num () >> 1; for (i = 1; i < n; i++) v[i] = v[i - 1] + (op == 0 ? -1 : op == 1 ? 1 : 0) * (long) rnd (op == 2 ? 2 : 3) ; }
      else for (i = 0; i < n; i++) v[i] = near && i ? v[i - 1] + (long) rnd (3) - 1 : num ();
      for (i = 0; i < n; i++) o[i] = mes_make_number (v[i]);
      if (n && rnd (8) == 0) { bad = rnd (n); o[bad] = rnd (2) ? mes_make_char (97) : rnd_string (TSTRING, 4); }
      scm *l = nil, *r = 0; for (i = n - 1; i >= 0; i--) l = mes_cons (o[i], l);
      snap (); D ("%s %s", (char *[]) { ">", "<", "=", "+", "-", "*", "/", "logand", "logior", "logxor", "two numbers", "lognot" }[op], show (l));
      switch (op)
        {
        case 0: case 1: case 2:
          { int j, related = 1, e; 
            for (j = 1; j < bad && related; j++) related = op == 0 ? v[j - 1] > v[j] : op == 1 ? v[j - 1] < v[j] : v[j - 1] == v[j];
            e = bad < n && related;
            TRY (r = (op == 0 ? mes_greater_p : op == 1 ? mes_less_p : mes_is_p) (l));
            if (e && !err) fail ("a non-number is not reported"); if (!e && err) fail ("reports an error");
            if (!err && r != (related ? T : F)) fail ("comparison"); SAME; break; }
        case 3: case 4: case 5: case 7: case 8: case 9:
          { big s = op == 5 ? 1 : op == 7 ? -1 : 0; int fits = 1;
            for (i = 0; i < n && fits; i++)
              { if (op == 3) s += v[i]; else if (op == 4) s = i || n == 1 ? s - v[i] : v[i]; else if (op == 5) s *= v[i]; else if (op == 7) s &= v[i]; else if (op == 8) s |= v[i]; else s ^= v[i];
                big m = (big) 1 << (op == 5 ? 63 : 73); if (s > m || s < -m) { fits = 0; s = 0; } }
            if (op == 5) { for (i = 0; i < n; i++) if (v[i] == 0) fits = 1, s = 0; }
            TRY (r = (op == 3 ? mes_plus : op == 4 ? mes_minus : op == 5 ? mes_multiply : op == 7 ? mes_logand : op == 8 ? mes_logior : mes_logxor) (l));
            int e = bad < n || op == 4 && n == 0;
            if (e && !err) fail ("not reported as an error"); if (!e && err) fail ("reports an error");
            if (!err && fits && FITS (s)) number (r, s); 
            if (!err) SAME; break; }
        case 6:
          { big q = 1; int e = 0; for (i = 0; i < n; i++) { if (i == bad || (i && v[i] == 0)) { e = 1; break; } q = i ? q / v[i] : v[i]; }
            TRY (r = mes_divide (l));
            if (e && !err) fail ("not reported as an error"); if (!e && err) fail ("reports an error");
            if (!err && FITS (q)) number (r, q); if (!err) SAME; break; }
        case 10:
          { long a = num (), b = rnd (4) ? num () : 1L << rnd (7); if (rnd (2)) b = (long) rnd (150) - 75; scm *x = mes_make_number (a), *y = mes_make_number (b); int sh = rnd (2), e; if (bad < n) { if (rnd (2)) x = o[bad]; else y = o[bad]; }
            snap (); D ("(%s %s %s)", sh ? "ash" : "modulo", show (x), show (y));
            TRY (r = sh ? mes_ash (x, y) : mes_modulo (x, y));
            e = bad < n || !sh && b == 0;
            if (e && !err) fail ("not reported as an error"); if (!e && err) fail ("reports an error");
            if (!err && !sh) { big m = (big) a % b; if (m && (m < 0) != (b < 0)) m += b; number (r, m); }
            if (!err && sh && b < 0) number (r, b <= -64 ? (a < 0 ? -1 : 0) : a >> -b);
            if (!err && sh && b >= 0 && (a == 0 || b < 64 && FITS ((big) a * ((big) 1 << b)))) number (r, a == 0 ? 0 : a * (1UL << b));
            if (!err) SAME; break; }
        default:
          if (n) { TRY (r = mes_lognot (o[0])); if (err != (bad == 0)) fail ("type error not exactly for a non-number"); if (!err) number (r, ~v[0]); }
        }
    }
  return done ();
}
