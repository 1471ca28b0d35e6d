#include "s.h"
scm *mes_make_vector (scm *), *mes_vector_length (scm *), *mes_vector_ref (scm *, scm *), *mes_vector_ref_ (scm *, long), *mes_vector_set_x (scm *, scm *, scm *), *mes_vector_set_x_ (scm *, long, scm *), *mes_list_to_vector (scm *), *mes_vector_to_list (scm *),
  *mes_make_struct (scm *, scm *, scm *), *mes_struct_length (scm *), *mes_struct_ref (scm *, scm *), *mes_struct_ref_ (scm *, long), *mes_struct_set_x (scm *, scm *, scm *), *mes_struct_set_x_ (scm *, long, scm *);
static scm *r; static scm *m[600];
static int imm (scm *x) { return x->type == TCHAR || x->type == TNUMBER; }
static int gives (scm *r, scm *e) { return imm (e) ? r->type == e->type && r->cdrv == e->cdrv && r != e && r >= shot_free : r == e; }
#define NOERR if (err) fail ("reports an error")
int main (int argc, char **argv)
{
  long k, i, j, n; mes_start (argc, argv);
  for (k = 0; k < 4000; k++)
    {
      if (mes_g_free - mes_g_cells > 30000 || k % 16 == 0) heap_reset ();
      n = rnd (20) ? rnd (7) : rnd (300);
      scm *fill = rnd (3) ? rnd_obj (any_type ()) : rnd_atom (), *v, *l = nil; int st = 0;
      snap ();
      switch (rnd (5))
        {
        case 0: D ("make_vector_ %ld %s", n, show (fill)); TRY (v = mes_make_vector_ (n, fill)); NOERR; for (i = 0; i < n; i++) m[i] = fill; break;
        case 1: { int f = rnd (2); scm *a = mes_cons (mes_make_number (n), f ? mes_cons (fill, nil) : nil); snap (); D ("make-vector %s", show (a)); TRY (v = mes_make_vector (a)); NOERR; for (i = 0; i < n; i++) m[i] = f ? fill : mes_cell_unspecified; break; }
        case 2: for (i = n - 1; i >= 0; i--) l = mes_cons (m[i] = rnd_atom (), l); snap (); D ("list->vector %s", show (l)); TRY (v = mes_list_to_vector (l)); NOERR; break;
        default: for (i = n - 1; i >= 0; i--) l = mes_cons (m[i + 2] = rnd_atom (), l); m[0] = fill; m[1] = rnd_atom (); snap (); D ("make-struct %s %s %s", show (m[0]), show (l), show (m[1])); TRY (v = mes_make_struct (m[0], l, m[1])); NOERR; n += 2; st = 1; break;
        }
      if (!unchanged (0, 0)) fail ("making it changed an existing object");
      if (v < shot_free || v->type != (st ? TSTRUCT : TVECTOR) || v->carv != n || v->cdr < shot_free || v->cdr + n > mes_g_free || (v >= v->cdr && v < v->cdr + n)) fail ("malformed or not fresh");
      for (j = 0; j < 24; j++)
        {
          i = rnd (3) ? (n ? rnd (n) : 0) : (long[]) { -1, n, n + 1, -1 - (long) rnd (100), (long) 1 << 63, (long) (~0UL >> 1), (long) 1 << 60, (long) 1 << 32, -((long) 1 << 61), n + 3 }[rnd (10)];
          scm *e = rnd (2) ? rnd_atom () : rnd_obj (any_type ()), *is = mes_make_number (i); int ok = 0 <= i && i < n, num = 1, c;
          if (rnd (10) == 0) { do is = rnd_obj (any_type ()); while (is->type == TNUMBER); num = 0; }
          int op = rnd (7); if (op < 2 && !num) { is = mes_make_number (i); num = 1; }
          snap ();
          switch (op)
            {
            case 0: D ("index %ld of a %s of length %ld", i, tname (v), n); TRY (r = st ? mes_struct_ref_ (v, i) : mes_vector_ref_ (v, i)); goto get;
            case 1: D ("store at index %ld of a %s of length %ld", i, tname (v), n); TRY (r = st ? mes_struct_set_x_ (v, i, e) : mes_vector_set_x_ (v, i, e)); goto put;
            case 2: case 3: D ("index %s of a %s of length %ld", show (is), tname (v), n); TRY (r = st ? mes_struct_ref (v, is) : mes_vector_ref (v, is)); goto get;
            case 4: case 5: D ("store at index %s of a %s of length %ld", show (is), tname (v), n); TRY (r = st ? mes_struct_set_x (v, is, e) : mes_vector_set_x (v, is, e)); goto put;
            get: if (!num || !ok) { if (!err) fail ("a bad index is not reported"); } else { NOERR; if (!gives (r, m[i])) fail ("does not give back the value stored"); }
              if (!unchanged (0, 0)) fail ("reading changed an object"); break;
            put: if (!num || !ok) { if (!err) fail ("a bad index is not reported"); if (!unchanged (0, 0)) fail ("changes an object"); } else { NOERR; scm *ex[1] = { v->cdr + i }; if (!unchanged (1, ex)) fail ("storing changed something else"); m[i] = e; }
              break;
            default: D ("length of a %s of length %ld", tname (v), n); TRY (r = st ? mes_struct_length (v) : mes_vector_length (v)); NOERR; if (r->type != TNUMBER || r->cdrv != n) fail ("length");
            }
        }
      for (i = 0; i < n; i++) { snap (); D ("index %ld of a %s of length %ld", i, tname (v), n); TRY (r = st ? mes_struct_ref_ (v, i) : mes_vector_ref_ (v, i)); NOERR; if (!gives (r, m[i])) fail ("does not give back the value stored"); }
      if (!st)
        {
          snap (); D ("vector->list of a vector of length %ld", n); TRY (r = mes_vector_to_list (v)); NOERR; if (!unchanged (0, 0)) fail ("vector->list changed an object");
          for (i = 0, l = r; i < n; i++, l = l->cdr) if (l < shot_free || l->type != TPAIR || !gives (l->car, m[i])) fail ("vector->list: wrong element"); if (l != nil) fail ("vector->list: too long");
          for (i = 0; i < n; i++) { TRY (mes_vector_set_x_ (v, i, nil)); }
          for (i = 0, l = r; i < n; i++, l = l->cdr) if (!gives (l->car, m[i])) fail ("vector->list shares the vector's slots");
        }
    }
  return done ();
}
