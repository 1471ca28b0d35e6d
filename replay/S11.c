#include "s.h"
#include "rd.h"
static long interesting (void)
{
  long v;
  switch (rnd (6))
    { case 0: return (long) rnd (400) - 200; case 1: v = 1L << rnd (64); return v + (long) rnd (3) - 1; case 2: v = -(1L << rnd (63)); return v + (long) rnd (3) - 1;
      case 3: return (long) (rnd64 () >> rnd (64)); case 4: return -(long) (rnd64 () >> (1 + rnd (62))); default: { long p = 1; int k = rnd (19); while (k--) p *= 10; return rnd (2) ? p - rnd (2) : -p + (long) rnd (2); } }
}
static struct { char *name; int v; } chars[] = { {"*eof*", -1}, {"nul", 0}, {"alarm", 7}, {"backspace", 8}, {"tab", 9}, {"linefeed", 10}, {"newline", 10}, {"vtab", 11}, {"page", 12}, {"return", 13}, {"esc", 27}, {"space", 32}, {"bel", 7}, {"bs", 8}, {"ht", 9}, {"vt", 11}, {"cr", 13} };
int main (int argc, char **argv)
{
  int i, j, k, n, m; char t[700]; mes_start (argc, argv);
  heap_reset (); rd_start ();
  for (k = 0; k < 60000; k++)
    {
      if (mes_g_free - mes_g_cells > 40000) { heap_reset (); rd_start (); }
      evaluations++;
      switch (k < 256 ? 1 : rnd (8))
        {
        case 0: /* write a number, read it back */
          { long v = interesting (); scm *x = mes_make_number (v); char w[30];
            put (x, rnd (2)); sprintf (w, "%ld", v);
            if (out_n != strlen (w) || memcmp (w, out, out_n)) failf ("%s is written as %s", w, shw (out, out_n));
            memcpy (t, out, out_n); m = end (t, out_n); number (t, m, out_n, v); break; }
        case 1: /* write a character, read it back */
          { int v = k < 256 ? k : rnd (256); scm *x = mes_make_char (v);
            put (x, 1); memcpy (t, out, out_n);
            if (out_n < 3 || t[0] != '#' || t[1] != '\\') failf ("character %d is written as %s", v, shw (out, out_n));
            m = end (t, out_n); character (t, m, out_n, v);
            put (x, 0); if (out_n != 1 || out[0] != v) failf ("character %d is displayed as %s", v, shw (out, out_n)); break; }
        case 2: case 3: /* numerals in four bases */
          { int b = (int[]) { 2, 8, 16, 10 }[rnd (4)], bits = b == 2 ? 62 : b == 8 ? 20 : b == 16 ? 15 : 18, neg = 0; unsigned long v = 0;
            n = 0; if (b != 10) n = sprintf (t, "#%c", b == 2 ? 'b' : b == 8 ? 'o' : 'x');
            if (rnd (2)) { neg = rnd (2); t[n++] = neg ? '-' : '+'; }
            for (i = rnd (4) == 0 ? rnd (30) : 0; i > 0; i--) t[n++] = '0';
            for (i = 1 + rnd (rnd (3) ? 6 : bits); i > 0; i--) { int d = rnd (b); v = v * b + d; t[n++] = d < 10 ? '0' + d : (rnd (2) ? 'a' : 'A') + d - 10; }
            m = end (t, n); if (b != 10 && rnd (2) && m > n) t[n] = "zZ_*!/:@g"[rnd (8)]; number (t, m, n, neg ? -v : v); break; }
        case 4: /* an identifier; a number when it is a numeral */
          { int digits, c; scm *r; char *s; n = 1 + rnd (rnd (10) ? 8 : 500);
            for (i = 0; i < n; i++) { do c = rnd (3) == 0 ? "0123456789+-4a"[rnd (14)] : rnd (255) + 1; while (strchr (ends, c) || (i == 0 && strchr ("#'`,.", c))); t[i] = c; }
            digits = (t[0] == '+' || t[0] == '-') && n > 1; while (digits < n && t[digits] >= '0' && t[digits] <= '9') digits++;
            if (digits == n && (n > 1 || (t[0] >= '0' && t[0] <= '9'))) { if (n < 19) { char w[40]; memcpy (w, t, n); w[n] = 0; m = end (t, n); number (t, m, n, atol (w)); } break; }
            m = end (t, n); r = rd (t, m, n);
            if (r->type != TSYMBOL && r->type != TSPECIAL) failf ("%s does not read as a symbol", shw (t, n));
            s = mes_cell_bytes (r->cdr);
            if (r->carv != n || memcmp (s, t, n)) failf ("%s reads as the symbol %s", shw (t, n), shw (s, r->carv));
            t[n] = 0; if (mes_cstring_to_symbol (t) != r) failf ("%s reads as another symbol of that name", shw (t, n)); break; }
        case 5: /* characters by name, octal and hexadecimal */
          { n = sprintf (t, "#\\");
            if (rnd (2)) { i = rnd (sizeof chars / sizeof *chars); n += sprintf (t + n, "%s", chars[i].name); m = end (t, n); character (t, m, n, chars[i].v); }
            else { int v = rnd (256); n += sprintf (t + n, rnd (2) ? "%03o" : rnd (2) ? "x%x" : "x%02X", v); m = end (t, n); character (t, m, n, v); } break; }
        case 6: /* a name that is none */
          { n = sprintf (t, "#\\"); m = 2 + rnd (12); for (i = 0; i < m; i++) t[n++] = "abcdefghijklmnopqrstuvwyz"[rnd (25)]; t[n] = 0;
            for (i = 0; i < sizeof chars / sizeof *chars; i++) if (!strcmp (t + 2, chars[i].name)) break;
            if (i == sizeof chars / sizeof *chars) rd (t, end (t, n), -1); break; }
        case 7: /* by itself */
          { int c = rnd (256); n = sprintf (t, "#\\"); t[n++] = c; m = end (t, n); character (t, m, n, c); break; }
        }
    }
  done ();
}
