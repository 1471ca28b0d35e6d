#include "s.h"
#include <time.h>
scm *mes_gc (), *mes_make_hash_table_ (long), *mes_make_variable_ (scm *);
extern scm *mes_R1, *mes_R2, *mes_R3, *mes_g_symbol_max; extern struct timespec *mes_gc_start_time, *mes_gc_end_time; extern size_t mes_JAM_SIZE;
/* the type says which fields hold references */
static int car_ref (long t) { return t == TMACRO || t == TPAIR || t == TREF || t == TVARIABLE; }
static int cdr_ref (long t) { return t == TCLOSURE || t == TCONTINUATION || t == TKEYWORD || t == TMACRO || t == TPAIR || t == TPORT || t == TSPECIAL || t == TSTRING || t == TSYMBOL || t == TVALUES; }
static int has_block (long t) { return t == TVECTOR || t == TSTRUCT; }
static long owned (scm *o) { return o->type == TBYTES ? (2 * 8 + (o->carv + 1 + 7) / 8 * 8 + 23) / 24 : 1; }

static scm *g0_free, *g0_symbols, *g0_macros, *g0_ports, *g0_M0; static size_t jam0;
static scm *obj[4000]; static int nobj;
static scm *pick (void) { return nobj && rnd (8) ? obj[rnd (nobj)] : rnd_atom (); }
static void junk (void) { int i = rnd (4); while (i-- > 0) rnd (3) ? rnd_atom () : mes_make_vector_ (rnd (5), nil); }
static scm *entry (scm *x)
{ static scm c; if (x->type == TNUMBER || x->type == TCHAR) { c = *x; c.car = 0; } else { c.type = TREF; c.car = x; c.cdrv = 0; } return &c; }
static scm *grow_one (void)
{
  scm *x; int i, n; char b[1200];
  switch (rnd (16))
    {
    case 0: case 1: case 2: return mes_cons (pick (), pick ());
    case 3: n = rnd (7); x = mes_make_vector_ (n, pick ()); for (i = 0; i < n; i++) if (rnd (3)) ((scm *) x->cdr)[i] = *entry (pick ()); return x;
    case 4: n = 1 + rnd (6); x = mes_make_vector_ (n, pick ()); x->type = TSTRUCT; for (i = 0; i < n; i++) if (rnd (3)) ((scm *) x->cdr)[i] = *entry (pick ()); return x;
    case 5: case 6: n = rnd (2) ? rnd (30) : rnd (6) ? rnd (100) : rnd (1100); for (i = 0; i < n; i++) b[i] = rnd (256); b[n] = 0; x = mk_bytes (b, n); if (rnd (3) == 0) return x; return mes_make_cell (rnd (2) ? TSTRING : rnd (2) ? TSYMBOL : TKEYWORD, (scm *) (long) n, x);
    case 7: return mes_make_cell (TCLOSURE, F, pick ());
    case 8: return mes_make_cell (TCONTINUATION, (scm *) (long) rnd (99), pick ());
    case 9: return mes_make_cell (TMACRO, pick (), pick ());
    case 10: return mes_make_cell (TREF, pick (), (scm *) rnd_num ());
    case 11: return mes_make_cell (TVARIABLE, pick (), (scm *) rnd_num ());
    case 12: return mes_make_cell (TVALUES, (scm *) rnd_num (), pick ());
    case 13: return mes_make_cell (TPORT, (scm *) (-2L - (long) rnd (9)), pick ());
    case 14: return rnd (2) ? mes_make_number (rnd_num ()) : mes_make_char (rnd (256));
    default: return rnd_atom ();
    }
}
static void tie (void)
{ /* cycles and sharing: change a field of an existing object */
  scm *x = obj[rnd (nobj)], *y = pick ();
  if (x->type == TPAIR) { if (rnd (2)) x->car = y; else x->cdr = y; }
  else if (x->type == TVARIABLE || x->type == TREF) x->car = y;
  else if (x->type == TCLOSURE || x->type == TVALUES) x->cdr = y;
  else if (has_block (x->type) && x->carv > 0) ((scm *) x->cdr)[rnd (x->carv)] = *entry (y);
}

static scm **to, **from; static unsigned char *used; static scm *base, *old_free, *todo_o[200000]; static long ntodo, ncells;
static long at (scm *x) { return x - base; }
static void same_ref (scm *o, scm *n, char *what)
{
  if (o < base || o >= old_free) { if (o != n) fail (what); return; }
  if (n < mes_g_cells || n >= mes_g_free) { fail ("a reference leads outside of the arena"); return; }
  if (to[at (o)]) { if (to[at (o)] != n) fail ("the references to one object lead to different objects"); return; }
  if (from[at (n)]) { fail ("two objects have been merged"); return; }
  to[at (o)] = n; from[at (n)] = o; todo_o[ntodo++] = o;
}
static void same_cell (scm *o, scm *n)
{
  long t = o->type;
  if (n->type != t) { fail ("a value changed its type"); return; }
  if (car_ref (t)) same_ref (o->car, n->car, "a reference changed"); else if (n->carv != o->carv) fail ("the first word of a value changed");
  if (cdr_ref (t)) same_ref (o->cdr, n->cdr, "a reference changed"); else if (!has_block (t) && t != TBYTES && n->cdrv != o->cdrv) fail ("the second word of a value changed");
}
static void use (scm *n, long k) { long i; for (i = 0; i < k; i++) { if (n + i < mes_g_cells || n + i >= mes_g_free) { fail ("a live object is not inside of the used part of the arena"); return; } if (used[at (n + i)]++) { fail ("two live objects overlap"); return; } } }
static void collect (int may_stop)
{
  static scm *so[64]; scm *r[8]; int i, k = mes_STACK_SIZE - mes_g_stack; long j, gs = mes_g_stack;
  for (i = 0; i < k; i++) so[i] = mes_g_stack_array[gs + i];
  r[0] = mes_R0; r[1] = mes_R1; r[2] = mes_R2; r[3] = mes_R3; r[4] = mes_g_symbols; r[5] = mes_g_macros; r[6] = mes_g_ports; r[7] = mes_M0;
  base = mes_g_cells; old_free = mes_g_free; ncells = old_free - base + 200; snap ();
  to = calloc (ncells, sizeof *to); from = calloc (ncells, sizeof *from); used = calloc (ncells, 1); ntodo = 0;
  TRY (mes_gc ());
  if (err)
    {
      if (!may_stop) fail ("the collector gave up although there is room");
      for (i = 0; i < k; i++) if (so[i] != mes_g_stack_array[gs + i] && !(old_free <= mes_g_stack_array[gs + i] && mes_g_stack_array[gs + i] < (scm *) (mes_g_stack_array + gs))) { fail ("the stack was overwritten"); break; }
      goto out;
    }
  if (mes_g_stack != gs) fail ("the depth of the stack changed");
  if (mes_g_free > old_free + 100) { fail ("more is in use than before"); goto out; }
  for (i = 0; i < k; i++) same_ref (so[i], mes_g_stack_array[gs + i], "a stack entry changed");
  same_ref (r[0], mes_R0, "R0 changed"); same_ref (r[1], mes_R1, "R1 changed"); same_ref (r[2], mes_R2, "R2 changed"); same_ref (r[3], mes_R3, "R3 changed");
  same_ref (r[4], mes_g_symbols, "the symbol table changed"); same_ref (r[5], mes_g_macros, "the macros changed"); same_ref (r[6], mes_g_ports, "the ports changed"); same_ref (r[7], mes_M0, "the module changed");
  { scm *s; for (s = nil; s < mes_g_symbol_max; s++) same_ref (s, s, "a special object changed"); }
  for (j = 0; j < ntodo; j++)
    {
      scm *o = was (todo_o[j]), *n = to[at (todo_o[j])];
      same_cell (o, n); use (n, owned (o));
      if (o->type == TBYTES && memcmp ((char *) n + 16, (char *) o + 16, o->carv)) fail ("the contents of a bytes object changed");
      if (has_block (o->type))
        { scm *v = o->cdr, *w = n->cdr; long e;
          if (o->carv && (w < mes_g_cells || w + o->carv > mes_g_free)) { fail ("the elements are not inside of the arena"); continue; }
          if (w > mes_g_cells && w <= mes_g_free) use (w, o->carv);
          for (e = 0; e < o->carv; e++) same_cell (was (v + e), w + e); }
    }
 out:
  free (to); free (from); free (used);
}
static void fresh (void)
{
  mes_g_free = heap0_free + 30000; heap_reset (); mes_g_symbols = g0_symbols; mes_g_macros = g0_macros; mes_g_ports = g0_ports; mes_M0 = g0_M0; mes_JAM_SIZE = jam0;
  mes_g_stack = mes_STACK_SIZE; mes_R0 = mes_R1 = mes_R2 = mes_R3 = nil; nobj = 0;
}
static void build (int n)
{
  int i;
  for (i = 0; i < n && nobj < 4000; i++) { junk (); scm *x = grow_one (); obj[nobj] = x; nobj = nobj + 1; if (rnd (3) == 0) tie (); }
  for (i = 0; i < n / 3; i++) tie ();
}
static void roots (void)
{
  int i, k = rnd (30); mes_g_stack = mes_STACK_SIZE - k;
  for (i = 0; i < k; i++) mes_g_stack_array[mes_g_stack + i] = pick ();
  mes_R0 = pick (); mes_R1 = pick (); mes_R2 = pick (); mes_R3 = pick ();
}
static char zeros[1600];
int main (int argc, char **argv)
{
  int k, i; mes_start (argc, argv);
  mes_gc_start_time = calloc (1, 64); mes_gc_end_time = calloc (1, 64);
  mes_g_symbols = mes_make_hash_table_ (50); mes_g_macros = mes_make_hash_table_ (0); mes_g_ports = nil; mes_M0 = mes_make_hash_table_ (10);
  mes_g_stack = mes_STACK_SIZE; mes_R0 = mes_R1 = mes_R2 = mes_R3 = nil; heap_save ();
  g0_free = mes_g_free; g0_symbols = mes_g_symbols; g0_macros = mes_g_macros; g0_ports = mes_g_ports; g0_M0 = mes_M0; jam0 = mes_JAM_SIZE;
  for (k = 0; k < 20000; k++)
    {
      fresh ();
      int n = rnd (4) ? rnd (12) : rnd (150);
      D ("collection of a random heap (case %d, %d objects)", k, n);
      build (n); roots (); if (rnd (4) == 0) mes_M0 = pick (); if (rnd (4) == 0) mes_g_ports = pick ();
      collect (0);
      if (!err && rnd (3) == 0)
        { /* go on with the objects that were on the stack */
          nobj = 0; for (i = mes_g_stack; i < (int) mes_STACK_SIZE; i++) obj[nobj++] = mes_g_stack_array[i];
          D ("second collection of a random heap (case %d)", k);
          if (nobj) { build (rnd (20)); roots (); } collect (0);
        }
    }
  for (k = 0; k < 20; k++)
    { /* little room is left: the collector stops, or the result is right */
      fresh (); D ("collection with more live data than room (case %d)", k);
      scm *l = nil; int n = 5000 + rnd (20000);
      for (i = 0; i < n; i++) l = mes_cons (nil, l);
      mes_g_stack = mes_STACK_SIZE - 20; for (i = 0; i < 20; i++) mes_g_stack_array[mes_g_stack + i] = i ? nil : l;
      while (mes_ARENA_SIZE - (mes_g_free - mes_g_cells) > 300) mk_bytes (zeros, 1500);
      collect (1);
    }
  return done ();
}
