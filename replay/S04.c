#include "s.h"
scm *mes_eq_p (scm *, scm *), *mes_equal2_p (scm *, scm *), *mes_string_equal_p (scm *, scm *);
static scm *r;
static int str_same (scm *a, scm *b) { return a->carv == b->carv && memcmp ((char *) a->cdr + 16, (char *) b->cdr + 16, a->carv) == 0; }
static int same_eq (scm *x, scm *y)
{ return x == y || (x->type == y->type && (((x->type == TCHAR || x->type == TNUMBER) && x->cdrv == y->cdrv) || (x->type == TKEYWORD && str_same (x, y)))); }
static scm *held (scm *s) { return s->type == TREF ? s->car : s; }
static int same_equal (scm *x, scm *y)
{
  int i; if (same_eq (x, y)) return 1; if (x->type != y->type) return 0;
  if (x->type == TSTRING) return str_same (x, y);
  if (x->type == TPAIR) return same_equal (x->car, y->car) && same_equal (x->cdr, y->cdr);
  if (x->type == TVECTOR) { if (x->carv != y->carv) return 0; for (i = 0; i < x->carv; i++) if (!same_equal (held (x->cdr + i), held (y->cdr + i))) return 0; return 1; }
  return 0;
}
static scm *shared[8];
static scm *tree (int d)
{
  int i; scm *v;
  if (!rnd (5)) return shared[rnd (8)];
  if (d == 0 || !rnd (4)) return rnd (4) ? rnd_atom () : rnd_obj (any_type ());
  if (rnd (3)) return mes_cons (tree (d - 1), tree (d - 1));
  v = mes_make_vector_ (rnd (4), nil);
  for (i = 0; i < v->carv; i++) { scm *e = tree (d - 1); if (e->type == TCHAR || e->type == TNUMBER) v->cdr[i] = *e; else { v->cdr[i].type = TREF; v->cdr[i].car = e; } }
  return v;
}
/* a copy, with at most one change somewhere */
static int change;
static scm *copy (scm *x)
{
  int i; scm *v;
  if (change == 1 && rnd (12) == 0) { change = 2; return tree (1); }
  switch (x->type)
    {
    case TPAIR: v = copy (x->car); return mes_cons (v, copy (x->cdr));
    case TVECTOR: { int n = x->carv; if (change == 1 && rnd (12) == 0) { change = 2; n = rnd (n + 2); }
      v = mes_make_vector_ (n, nil); for (i = 0; i < n && i < x->carv; i++) { scm *e = copy (held (x->cdr + i)); if (e->type == TCHAR || e->type == TNUMBER) v->cdr[i] = *e; else { v->cdr[i].type = TREF; v->cdr[i].car = e; } } return v; }
    case TSTRING: case TKEYWORD: v = mk_like_string (x->type, (char *) x->cdr + 16, x->carv); if (change == 1 && x->carv && rnd (4) == 0) { change = 2; ((char *) v->cdr + 16)[rnd (x->carv)] ^= 1 << rnd (8); } return v;
    case TNUMBER: return mes_make_number (change == 1 && rnd (4) == 0 ? (change = 2, x->cdrv ^ (1L << rnd (64))) : x->cdrv);
    case TCHAR: return mes_make_char (x->cdrv);
    default: return x;
    }
}
int main (int argc, char **argv)
{
  long k; int i; mes_start (argc, argv);
  for (k = 0; k < 40000; k++)
    {
      if (mes_g_free - mes_g_cells > 30000 || k % 64 == 0) { heap_reset (); for (i = 0; i < 8; i++) shared[i] = i < 4 ? rnd_obj (i == 0 ? TNUMBER : i == 1 ? TSTRING : i == 2 ? TPAIR : TKEYWORD) : rnd_obj (any_type ()); }
      scm *x = tree (rnd (5)), *y; change = rnd (3) != 0; y = rnd (6) ? copy (x) : tree (rnd (3));
      if (rnd (4) == 0) { x = rnd_atom (); y = rnd (2) ? copy (x) : rnd_atom (); }
      snap ();
      D ("%s, %s", show (x), show (y));
      TRY (r = mes_equal2_p (x, y)); if (err) fail ("equal? reports an error"); if (r != (same_equal (x, y) ? T : F)) fail (r == T ? "equal? holds of different values" : "equal? fails for equal values");
      TRY (r = mes_eq_p (x, y)); if (err) fail ("eq? reports an error"); if (r != (same_eq (x, y) ? T : F)) fail (r == T ? "eq? holds of different objects" : "eq? fails");
      int st = x->type == y->type && (x->type == TSTRING || x->type == TKEYWORD);
      TRY (r = mes_string_equal_p (x, y)); if (err == st) fail ("string=?: type error not exactly for wrong types"); if (st && r != (str_same (x, y) ? T : F)) fail ("string=?");
      if (!unchanged (0, 0)) fail ("an existing object changed");
    }
  return done ();
}
