#include "s.h"
scm *mes_car (scm *), *mes_cdr (scm *), *mes_list (scm *), *mes_null_p (scm *), *mes_pair_p (scm *), *mes_values (scm *), *mes_acons (scm *, scm *, scm *), *mes_length (scm *), *mes_append2 (scm *, scm *),
  *mes_append_reverse (scm *, scm *), *mes_reverse_x_ (scm *, scm *), *mes_assq (scm *, scm *), *mes_assoc (scm *, scm *), *mes_memq (scm *, scm *), *mes_xassq (scm *, scm *), *mes_last_pair (scm *), *mes_set_car_x (scm *, scm *), *mes_set_cdr_x (scm *, scm *);
long mes_length__ (scm *);
static scm *e[512], *c[512]; static int n; static scm *r;
static scm *mk (scm *tail) { scm *l = tail; int i; for (i = n - 1; i >= 0; i--) l = c[i] = mes_cons (e[i], l); return l; }
static int str_same (scm *a, scm *b) { return a->carv == b->carv && memcmp ((char *) a->cdr + 16, (char *) b->cdr + 16, a->carv) == 0; }
static int same_eq (scm *x, scm *y)
{ return x == y || (x->type == y->type && (((x->type == TCHAR || x->type == TNUMBER) && x->cdrv == y->cdrv) || (x->type == TKEYWORD && str_same (x, y)))); }
static int same_equal (scm *x, scm *y) { return same_eq (x, y) || (x->type == y->type && ((x->type == TSTRING && str_same (x, y)) || (x->type == TPAIR && same_equal (x->car, y->car) && same_equal (x->cdr, y->cdr)))); }
#define NOERR if (err) fail ("reports an error")
#define SAME if (!unchanged (0, 0)) fail ("an existing object changed")
int main (int argc, char **argv)
{
  long k; int i, j; mes_start (argc, argv);
  for (k = 0; k < 30000; k++)
    {
      if (mes_g_free - mes_g_cells > 40000 || k % 64 == 0) heap_reset ();
      n = k % 50 == 7 ? rnd (400) : rnd (6);
      int improper = rnd (12) == 0; scm *tail = improper ? mes_make_number (3) : nil;
      for (i = 0; i < n; i++) e[i] = rnd_atom ();
      scm *x = rnd (4) || !n ? rnd_atom () : e[rnd (n)], *y = rnd_atom (), *z = rnd_atom ();
      int alist = rnd (2); scm *keys[512];
      int op = rnd (18);
      if (op >= 11 && op <= 13 || op == 17) { for (i = 0; i < n; i++) { keys[i] = e[i]; e[i] = mes_cons (e[i], rnd (3) ? z : rnd_atom ()); } if (rnd (3) == 0 && n) x = keys[rnd (n)]; }
      if (op == 13 && rnd (3) && n) { x = e[rnd (n)]->cdr; }
      if (op == 17) { if (x->type == TPAIR || x->type == TVECTOR) x = nil; if (rnd (4) == 0 && n) { i = rnd (n); x = mes_cons (nil, keys[i]); e[i]->car = keys[i] = mes_cons (nil, keys[i]); } }
      if (improper && op != 3) tail = nil, improper = 0;
      scm *l = mk (tail), *p; snap ();
      D ("list %s, argument %s", show (l), show (x));
      switch (op)
        {
        case 0: p = rnd_obj (any_type ()); snap (); D ("car %s", show (p)); TRY (r = mes_car (p)); if (err != (p->type != TPAIR)) fail ("car: type error not exactly for non-pairs"); if (!err && r != p->car) fail ("car"); SAME; break;
        case 1: p = rnd_obj (any_type ()); snap (); D ("cdr %s", show (p)); TRY (r = mes_cdr (p)); if (err != (p->type != TPAIR)) fail ("cdr: type error not exactly for non-pairs"); if (!err && r != p->cdr) fail ("cdr"); SAME; break;
        case 2: TRY (r = rnd (2) ? mes_list (l) : l); NOERR; if (r != l) fail ("list"); SAME; break;
        case 3: { long q = -9; if (rnd (2)) { TRY (q = mes_length__ (l)); } else { TRY (r = mes_length (l)); NOERR; q = r->type == TNUMBER ? r->cdrv : -9; } NOERR; if (q != (improper ? -1 : n)) fail ("length"); SAME; break; }
        case 4: TRY (r = mes_null_p (l)); NOERR; if (r != (l == nil ? T : F)) fail ("null?"); SAME; break;
        case 5: TRY (r = mes_pair_p (x)); NOERR; if (r != (x->type == TPAIR ? T : F)) fail ("pair?"); SAME; break;
        case 6: TRY (r = mes_acons (x, y, l)); NOERR; if (r < shot_free || r->type != TPAIR || r->cdr != l || r->car < shot_free || r->car->type != TPAIR || r->car->car != x || r->car->cdr != y) fail ("acons"); SAME; break;
        case 7: TRY (r = mes_append2 (l, y)); NOERR; for (p = r, i = 0; i < n; i++, p = p->cdr) if (p < shot_free || p->type != TPAIR || p->car != e[i]) fail ("append: wrong or shared element cells"); if (p != y) fail ("append: tail"); SAME; break;
        case 8: TRY (r = mes_append_reverse (l, y)); NOERR; for (p = r, i = n - 1; i >= 0; i--, p = p->cdr) if (p < shot_free || p->type != TPAIR || p->car != e[i]) fail ("append-reverse"); if (p != y) fail ("append-reverse: tail"); SAME; break;
        case 9: TRY (r = mes_reverse_x_ (l, y)); NOERR; for (p = r, i = n - 1; i >= 0; i--, p = p->cdr) if (p != c[i] || p->type != TPAIR || p->car != e[i]) fail ("reverse!"); if (p != y) fail ("reverse!: tail"); if (!unchanged (n, c)) fail ("reverse! changed an object outside the list"); break;
        case 10: TRY (r = mes_memq (x, l)); NOERR; for (i = 0; i < n && !same_eq (x, e[i]); i++); if (r != (i < n ? c[i] : F)) fail ("memq"); SAME; break;
        case 11: case 12: TRY (r = mes_assq (x, l)); NOERR; for (i = 0; i < n && !same_eq (x, keys[i]); i++); if (r != (i < n ? e[i] : F)) fail ("assq"); SAME; break;
        case 13: TRY (r = mes_xassq (x, l)); NOERR; for (i = 0; i < n && x != e[i]->cdr; i++); if (r != (i < n ? e[i] : F)) fail ("xassq"); SAME; break;
        case 17: TRY (r = mes_assoc (x, l)); NOERR; for (i = 0; i < n && !same_equal (x, keys[i]); i++); if (r != (i < n ? e[i] : F)) fail ("assoc"); SAME; break;
        case 14: TRY (r = mes_last_pair (l)); NOERR; if (r != (n ? c[n - 1] : nil)) fail ("last-pair"); SAME; break;
        case 15: p = rnd (2) ? mes_cons (z, y) : rnd_obj (any_type ()); snap (); D ("set-car! %s %s", show (p), show (x)); { scm *ex[1] = { p }, *d = p->cdr; int pair = p->type == TPAIR; TRY (r = mes_set_car_x (p, x)); if (err == pair) fail ("set-car!: type error not exactly for non-pairs"); if (!pair) { if (memcmp (p, was (p), 24)) fail ("an object that is no pair was changed"); } else if (p->car != x || p->cdr != d || p->type != TPAIR || !unchanged (1, ex)) fail ("set-car!: wrong effect"); break; }
        case 16: p = rnd (2) ? mes_cons (z, y) : rnd_obj (any_type ()); snap (); D ("set-cdr! %s %s", show (p), show (x)); { scm *ex[1] = { p }, *d = p->car; int pair = p->type == TPAIR; TRY (r = mes_set_cdr_x (p, x)); if (err == pair) fail ("set-cdr!: type error not exactly for non-pairs"); if (!pair) { if (memcmp (p, was (p), 24)) fail ("an object that is no pair was changed"); } else if (p->cdr != x || p->car != d || p->type != TPAIR || !unchanged (1, ex)) fail ("set-cdr!: wrong effect"); break; }
        }
    }
  TRY (r = mes_append2 (mes_make_number (3), nil)); D ("append 3"); if (!err) fail ("append of a non-list not reported");
  TRY (r = mes_append_reverse (mes_make_number (3), nil)); if (!err) fail ("append-reverse of a non-list not reported");
  TRY (r = mes_reverse_x_ (mes_make_number (3), nil)); if (!err) fail ("reverse! of a non-list not reported");
  return done ();
}
