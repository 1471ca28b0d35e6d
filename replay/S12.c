#include "s.h"
#include "rd.h"
static char buf[3000]; static int bn;
static void text (int max) { int i, mode = rnd (4); bn = rnd (max + 1); for (i = 0; i < bn; i++) buf[i] = mode == 0 ? rnd (256) : mode == 1 ? "\"\\\n\t\0\a\b\v\f\r\033nx0"[rnd (14)] : mode == 2 ? 32 + rnd (95) : rnd (34); }
static int ref_esc (int c) { switch (c) { case 0: return '0'; case 7: return 'a'; case 8: return 'b'; case 9: return 't'; case 11: return 'v'; case 10: return 'n'; case 12: return 'f'; case 13: return 'r'; case 27: return 'e'; case '\\': case '"': return c; } return 0; }
static char want[9000]; static int wn;
static void add (int c) { want[wn++] = c; }
static void add_written (void) { int i, e; add ('"'); for (i = 0; i < bn; i++) if ((e = ref_esc (buf[i] & 255))) { add ('\\'); add (e); } else add (buf[i]); add ('"'); }
static void same (char *what) { if (out_n != wn || memcmp (out, want, wn)) failf ("%s of the string %s is %s, not %s", what, shw (buf, bn), shw (out, out_n), shw (want, wn)); }
int main (int argc, char **argv)
{
  int i, j, k, n, m; char t[9000]; scm *x, *r; mes_start (argc, argv);
  heap_reset (); rd_start ();
  for (k = 0; k < 30000; k++)
    {
      if (mes_g_free - mes_g_cells > 40000) { heap_reset (); rd_start (); }
      evaluations++;
      switch (k < 256 ? 6 : rnd (6))
        {
        case 6: /* every character, alone and between others */
          bn = 1 + 2 * rnd (2); buf[0] = buf[1] = buf[2] = k; if (bn == 3) buf[0] = '"', buf[2] = '\\'; goto both;
        case 0: case 1: text (rnd (20) ? 12 : 300);
        both:
          x = mes_make_string (buf, bn);
          put (x, 1); wn = 0; add_written (); same ("writing");
          memcpy (t, out, out_n); n = out_n; m = n; if (rnd (2)) { t[m++] = rnd (256); t[m++] = '"'; }
          r = rd (t, m, n);
          if (r->type != TSTRING || r->carv != bn || memcmp (mes_cell_bytes (r->cdr), buf, bn)) failf ("the string %s is written as %s, which reads as another string", shw (buf, bn), shw (t, n));
          put (x, 0); wn = 0; for (i = 0; i < bn; i++) add (buf[i]); same ("displaying");
          break;
        case 2: /* inside of a list and a vector; the elements' text, in order */
          { scm *l = nil, *v; char e[4000]; int en = 0, w = rnd (2), c = rnd (4); long num = (long) rnd64 () >> rnd (60);
            wn = 0; add ('('); 
            l = mes_cons (mes_make_number (num), nil); 
            text (40); x = mes_make_string (buf, bn); l = mes_cons (x, mes_cons (x, l));
            for (i = 0; i < 2; i++) { if (w) add_written (); else for (j = 0; j < bn; j++) add (buf[j]); add (' '); }
            wn += sprintf (want + wn, "%ld)", num);
            put (l, w); same (w ? "writing a list" : "displaying a list");
            if (w) { memcpy (t, out, out_n); r = rd (t, out_n, out_n); if (r->type != TPAIR || r->car->type != TSTRING || r->cdr->car->type != TSTRING || r->car->carv != bn || memcmp (mes_cell_bytes (r->cdr->car->cdr), buf, bn) || r->cdr->cdr->car->cdrv != num || r->cdr->cdr->cdr != nil) failf ("a list is written as %s, which reads as another value", shw (t, out_n)); }
            break; }
        case 3: /* a string of escapes */
          { int h; n = 0; bn = 0; t[n++] = '"';
            for (i = rnd (12); i > 0; i--)
              { char *e = "\\\"0abtnvfre"; int v[] = { '\\', '"', 0, 7, 8, 9, 10, 11, 12, 13, 27 }, q = rnd (14);
                if (q < 11) { t[n++] = '\\'; t[n++] = e[q]; buf[bn++] = v[q]; }
                else if (q == 11) { int c = rnd (256); n += sprintf (t + n, rnd (2) ? "\\x%x" : "\\x%02X", c); buf[bn++] = c; t[n++] = buf[bn++] = "ghxyz .;"[rnd (8)]; }
                else { int c; do c = rnd (256); while (c == '"' || c == '\\'); t[n++] = c; buf[bn++] = c; } }
            t[n++] = '"'; m = n; if (rnd (2)) t[m++] = rnd (256);
            r = rd (t, m, n);
            if (r->type != TSTRING || r->carv != bn || memcmp (mes_cell_bytes (r->cdr), buf, bn)) failf ("%s reads as the string %s, not %s", shw (t, n), shw (mes_cell_bytes (r->cdr), r->carv), shw (buf, bn));
            break; }
        case 4: /* a symbol's name */
          { n = 1 + rnd (20); for (i = 0; i < n; i++) do t[i] = 33 + rnd (94); while (strchr ("\"\\;()#'`,.", t[i]) || (i == 0 && strchr ("+-0123456789", t[i])));
            t[n] = 0; x = mes_cstring_to_symbol (t); put (x, rnd (2));
            if (out_n != n || memcmp (out, t, n)) failf ("the symbol %s is written as %s", t, shw (out, out_n)); break; }
        case 5: /* write and display go to the current output, in one piece after what was written before */
          { text (20); x = mes_make_string (buf, bn); mes___stdout = 1; out_n = 0; wn = 0;
            for (i = 0; i < 3; i++) { int w = rnd (2); TRY (r = w ? mes_write_ (x) : mes_display_ (x)); if (err) fail ("writing reports an error"); if (w) add_written (); else for (j = 0; j < bn; j++) add (buf[j]); }
            same ("writing or displaying three times"); break; }
        }
    }
  /* no closing quote: an error, not an endless text */
  for (k = 0; k < 3; k++) { heap_reset (); rd_start (); rd ("\"abc", 4, -1); }
  done ();
}
