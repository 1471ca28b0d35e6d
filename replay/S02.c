#include "s.h"
scm *mes_alloc (long), *mes_make_pointer_cell (long, long, void *), *mes_make_value_cell (long, long, long), *mes_make_ref (scm *), *mes_make_macro (scm *, scm *), *mes_make_continuation (long), *mes_cell_ref (scm *, long);
size_t mes_bytes_cells (size_t);
static scm *r; static long free_cells (void) { return mes_ARENA_SIZE - (mes_g_free - mes_g_cells); }
static void fresh (char const *f, long cells, long type, scm *car, scm *cdr, int room)
{
  D ("%s, %ld cells free of %ld", f, (long) (mes_ARENA_SIZE - (shot_free - mes_g_cells)), (long) mes_ARENA_SIZE);
  if (err) { if (room) fail ("an allocation that fits was refused"); return; }
  if (!room) fail ("an allocation that does not fit in the arena succeeded");
  if (r != shot_free) fail ("the new object is not in fresh memory");
  if (mes_g_free != shot_free + cells) fail ("the object is not given exactly the cells it needs");
  if (!unchanged (0, 0)) fail ("an existing object changed");
  if (type >= 0 && (r->type != type || r->car != car || r->cdr != cdr)) fail ("the new object does not hold what it was made with");
}
int main (int argc, char **argv)
{
  long k, i; mes_start (argc, argv);
  for (k = 0; k < 20000; k++)
    {
      if (k % 64 == 0) heap_reset ();
      scm *x = rnd_atom (), *y = rnd_atom (); long n = rnd_num (), t = rnd (18);
      size_t arena = mes_ARENA_SIZE; int tight = rnd (4) == 0;
      scm *sym = rnd_sym ();
      snap ();
      if (tight) mes_ARENA_SIZE = mes_g_free - mes_g_cells + rnd (5);
      long room = free_cells ();
      D ("%ld cells free", room);
      switch (rnd (12))
        {
        case 0: TRY (r = mes_cons (x, y)); fresh ("cons", 1, TPAIR, x, y, room >= 1); break;
        case 1: TRY (r = mes_make_cell (t, x, y)); fresh ("make_cell", 1, t, x, y, room >= 1); break;
        case 2: TRY (r = mes_make_pointer_cell (t, n, y)); fresh ("make_pointer_cell", 1, t, (scm *) n, y, room >= 1); break;
        case 3: TRY (r = mes_make_value_cell (t, n, 7)); fresh ("make_value_cell", 1, t, (scm *) n, (scm *) 7, room >= 1); break;
        case 4: TRY (r = mes_make_number (n)); fresh ("make_number", 1, TNUMBER, 0, (scm *) n, room >= 1); break;
        case 5: TRY (r = mes_make_char ((int) n)); fresh ("make_char", 1, TCHAR, 0, (scm *) (long) (int) n, room >= 1); break;
        case 6: TRY (r = mes_make_ref (x)); fresh ("make_ref", 1, TREF, x, 0, room >= 1); break;
        case 7: TRY (r = mes_make_macro (sym, x)); fresh ("make_macro", 1, TMACRO, x, sym->cdr, room >= 1); break;
        case 8: mes_g_stack = rnd (100); TRY (r = mes_make_continuation (n)); fresh ("make_continuation", 1, TCONTINUATION, (scm *) n, (scm *) mes_g_stack, room >= 1); break;
        case 9: i = rnd (8) ? rnd (20) : n; TRY (r = mes_alloc (i)); fresh ("alloc", i, -1, 0, 0, i >= 0 && i <= room); break;
        case 10:
          { char b[64]; i = rnd (60); for (t = 0; t < 60; t++) b[t] = rnd (256);
            long need = (i + 23) / 8; TRY (r = mes_make_bytes (b, i));
            fresh ("make_bytes", need, -1, 0, 0, need <= room);
            if (!err && (r->type != TBYTES || r->carv != i)) fail ("bytes object has the wrong type or length");
            if (!err && need * 24 < 16 + i) fail ("bytes object too small for its contents");
            if (!err && memcmp ((char *) r + 16, b, i)) fail ("bytes object does not hold the bytes");
            if (!err && mes_bytes_cells (i) != need) fail ("bytes_cells");
            if (!err && mes_cell_bytes (r) != (char *) r + 16) fail ("cell_bytes"); break; }
        default:
          { char b[64]; i = rnd (60); for (t = 0; t < 60; t++) b[t] = rnd (256); b[i] = 0;
            long need = 1 + (i + 24) / 8; TRY (r = mes_make_string (b, i));
            fresh ("make_string", need, -1, 0, 0, need <= room);
            if (!err && (r->type != TSTRING || r->carv != i || r->cdr->type != TBYTES || r->cdr->carv != i + 1 || r->cdr != r + 1)) fail ("string object malformed");
            if (!err && memcmp ((char *) r->cdr + 16, b, i + 1)) fail ("string object does not hold the characters"); }
        }
      mes_ARENA_SIZE = arena;
      if (err) mes_g_free = shot_free;
      if (mes_g_free - mes_g_cells > 40000) heap_reset ();
    }
  return done ();
}
