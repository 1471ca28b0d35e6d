#include "s.h"
scm *mes_string_to_symbol (scm *), *mes_symbol_to_string (scm *), *mes_make_symbol (scm *);
static int str_same (scm *a, scm *b) { return a->carv == b->carv && memcmp ((char *) a->cdr + 16, (char *) b->cdr + 16, a->carv) == 0; }
static scm *str[5000], *sym[5000]; static char copy[5000][64]; static int n;
int main (int argc, char **argv)
{
  long k; int i, j; scm *r, *x; mes_start (argc, argv);
  /* the interpreter's own symbols are the ones their names give */
  scm *first = nil, *last = mes_g_symbols;
  for (x = first; x < last && x->type != TPAIR; x++)
    if ((x->type == TSYMBOL || x->type == TSPECIAL) && x != F && x->cdr)
      { scm *s = mk_like_string (TSTRING, (char *) x->cdr + 16, x->carv); D ("string->symbol %s", show (s)); TRY (r = mes_string_to_symbol (s)); if (err) fail ("an error is reported"); if (r != x) fail ("a second symbol with the name of one of the interpreter's own"); }
  for (k = 0; k < 40; k++)
    {
      heap_reset (); n = 0; int w = rnd (4);
      for (i = 0; i < 1500 && mes_g_free - mes_g_cells < 50000; i++)
        {
          char b[64]; int l;
          if (n && rnd (2)) { j = rnd (n); l = str[j]->carv; memcpy (b, (char *) str[j]->cdr + 16, l); if (rnd (4) == 0) { if (rnd (2) && l) l--; else if (l < 40) b[l++] = rnd (256); } }
          else { l = rnd (4) ? rnd (4) : rnd (30); for (j = 0; j < l; j++) b[j] = w == 0 ? rnd (256) : w == 1 ? "ab\x80\xff"[rnd (4)] : "abc"[rnd (3)]; if (rnd (40) == 0) l = sprintf (b, "%s", rnd (2) ? "#f" : "#t"); }
          b[l] = 0; scm *s = mk_like_string (TSTRING, b, l); int same = rnd (3) == 0 && !memchr (b, 0, l);
          int at; for (at = 0; at < n && !str_same (str[at], s); at++); snap ();
          D ("%s %s, %d names interned, this one is %s", same ? "intern" : "string->symbol", show (s), n, at < n ? "known" : "new");
          if (same) TRY (r = mes_cstring_to_symbol (b)); else TRY (r = mes_string_to_symbol (s));
          if (err) fail ("an error is reported");
          if (r->type != TSYMBOL && r->type != TSPECIAL) fail ("no symbol");
          if (!str_same (r, s)) fail ("the symbol has another name");
          for (j = 0; j < n; j++) if (j != at && sym[j] == r) fail ("one symbol for two names");
          if (at < n) { if (r != sym[at]) fail ("a second symbol for the name"); for (x = shot_free; !same && x < mes_g_free; x++) if (x->type == TSYMBOL) fail ("interning a known name makes another symbol"); if (!unchanged (0, 0)) fail ("an object changed"); }
          else { str[n] = s; sym[n++] = r; }
          for (j = rnd (4); j < n; j += 4) if (!str_same (sym[j], str[j])) fail ("the name of a symbol changed");
        }
    }
  return done ();
}
