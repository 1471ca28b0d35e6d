#include "s.h"
scm *mes_string_to_list (scm *), *mes_cstring_to_list (char const *), *mes_list_to_string (scm *), *mes_string_append (scm *), *mes_string_length (scm *), *mes_string_ref (scm *, scm *), *mes_symbol_to_string (scm *), *mes_symbol_to_keyword (scm *), *mes_keyword_to_string (scm *), *mes_string_equal_p (scm *, scm *), *mes_bytes_to_list (char const *, size_t), *mes_make_string0 (char const *);
char const *mes_list_to_cstring (scm *, size_t *);
#define BYTES(x) ((unsigned char *) (x)->cdr + 16)
#define SAME if (!unchanged (0, 0)) fail ("an existing object changed")
static int len (void) { long m = mes_MAX_STRING; switch (rnd (12)) { case 0: return m - rnd (3); case 1: return m + rnd (3); case 2: return rnd (m); case 3: return 0; default: return rnd (40); } }
static unsigned char b[70000];
static void string (scm *r, unsigned char *w, long n, int type)
{
  if (r < shot_free || r->type != type) fail ("the result is not a new object of the type asked for");
  if (r->carv != n) { char m[80]; sprintf (m, "length %ld, expected %ld", r->carv, n); fail (m); }
  if (r->cdr->type != TBYTES) fail ("no byte payload");
  if (memcmp (BYTES (r), w, n)) fail ("wrong characters");
}
static void chars (scm *r, unsigned char *w, long n)
{
  long i; for (i = 0; i < n; i++, r = r->cdr)
    { if (r < shot_free || r->type != TPAIR || r->car < shot_free || r->car->type != TCHAR) fail ("not a new list of characters of the string's length");
      if (r->car->cdrv != w[i]) { char m[100]; sprintf (m, "character %ld is %ld, expected %d", i, r->car->cdrv, w[i]); fail (m); } }
  if (r != nil) fail ("list too long");
}
/* the bytes around the shared buffer must stay */
static void buf_check (void) { int i; for (i = 0; i < 64; i++) if (mes_g_buf[mes_MAX_STRING + 2 + i] != 0x5a) fail ("wrote past the end of the text buffer"); }
int main (int argc, char **argv)
{
  long k, i, n; mes_start (argc, argv); mes_g_buf = malloc (mes_MAX_STRING + 2 + 64); memset (mes_g_buf, 0x5a, mes_MAX_STRING + 2 + 64);
  for (k = 0; k < 12000; k++)
    {
      heap_reset ();
      n = len (); int wide = rnd (2), e; for (i = 0; i < n; i++) b[i] = wide ? rnd (256) : "ab\0z"[rnd (4)]; b[n] = 0;
      scm *r = 0, *x = 0, *l = nil; int ok = n <= mes_MAX_STRING; int op = rnd (8);
      D ("%ld bytes %s, operation %d", n, hex (b, n < 40 ? n : 40), op);
      switch (op)
        {
        case 0: { unsigned char *c = guard_end (0, n + 1); memcpy (c, b, n + 1); snap (); TRY (r = mes_make_string ((char *) c, n)); if (err == ok) fail ("too long not exactly when over the limit"); if (!err) { string (r, b, n, TSTRING); SAME; } break; }
        case 1: case 2: if (!ok) break; x = mes_make_string ((char *) b, n); snap (); TRY (r = mes_string_to_list (x)); if (err) fail ("string->list reports an error"); chars (r, b, n); SAME;
          { scm *back; snap (); TRY (back = mes_list_to_string (r)); if (err) fail ("list->string reports an error"); string (back, b, n, TSTRING); SAME; scm *q; TRY (q = mes_string_equal_p (x, back)); if (q != T) fail ("string->list->string is not string=?");
            if (n > 0) { static unsigned char y[70000]; long m = rnd (4) ? n : rnd (n + 1), at = rnd (n); memcpy (y, b, n); y[at] = rnd (2) ? y[at] + 1 : "ab\0z"[rnd (4)]; q = mes_make_string ((char *) y, m); snap (); int e = m == n && memcmp (y, b, n) == 0; { char h1[200]; snprintf (h1, 200, "%s", hex (b, n < 40 ? n : 40)); D ("string=? of %ld bytes %s and %ld bytes %s", n, h1, m, hex (y, m < 40 ? m : 40)); } TRY (q = mes_string_equal_p (x, q)); if (err || q != (e ? T : mes_cell_f)) fail ("string=? of two strings"); SAME; } }
          break;
        case 3: if (!ok) break; x = mes_make_string ((char *) b, n); { int j; for (j = 0; j < 4; j++) { long at = rnd (3) ? (long) rnd (n + 3) - 1 : j == 0 ? n : j == 1 ? n - 1 : j == 2 ? (long) rnd64 () : -1; scm *kk = mes_make_number (at); snap (); D ("string-ref of %ld bytes at %ld", n, at); TRY (r = mes_string_ref (x, kk)); if (err != !(0 <= at && at < n)) fail ("index error not exactly when out of range"); if (!err) { if (r < shot_free || r->type != TCHAR || r->cdrv != b[at]) fail ("wrong character"); SAME; } } }
          snap (); TRY (r = mes_string_length (x)); if (err || r->type != TNUMBER || r->cdrv != n) fail ("string-length"); SAME; break;
        case 4: case 5:
          { int parts = rnd (5), j; long t = 0, cut; unsigned char w[70000]; scm *part[8];
            for (j = 0; j < parts; j++) { long q = rnd (6) == 0 ? mes_MAX_STRING - t + rnd (3) - 1 : parts > 2 ? rnd (mes_MAX_STRING / 2) : rnd (20); if (q < 0) q = 0; if (q > mes_MAX_STRING) q = mes_MAX_STRING; for (i = 0; i < q; i++) w[t + i] = rnd (256); part[j] = mes_make_string ((char *) w + t, q); t += q; if (j == 3) break; }
            if (j < parts) parts = j + 1; for (j = parts - 1; j >= 0; j--) l = mes_cons (part[j], l);
            D ("string-append of %d parts, %ld bytes in total", parts, t); snap (); TRY (r = mes_string_append (l)); buf_check (); if (err != (t > mes_MAX_STRING)) fail ("too long not exactly when over the limit"); if (!err) { string (r, w, t, TSTRING); SAME; } break; }
        case 6:
          for (i = 0; i < n; i++) l = mes_cons (mes_make_char (b[n - 1 - i]), l); D ("list->string of %ld characters", n); snap (); TRY (r = mes_list_to_string (l)); buf_check (); if (err != !ok) fail ("too long not exactly when over the limit"); if (!err) { string (r, b, n, TSTRING); SAME; } break;
        default:
          if (!ok) break; { scm *sym = mk_like_string (TSYMBOL, (char *) b, n), *kw; snap (); TRY (r = mes_symbol_to_string (sym)); if (err) fail ("error"); string (r, b, n, TSTRING); TRY (kw = mes_symbol_to_keyword (sym)); if (err) fail ("error"); string (kw, b, n, TKEYWORD); TRY (r = mes_keyword_to_string (kw)); if (err) fail ("error"); string (r, b, n, TSTRING); SAME; }
          { long q = strlen ((char *) b); unsigned char *c = guard_end (0, q + 1); memcpy (c, b, q + 1); snap (); TRY (r = mes_cstring_to_list ((char *) c)); if (err) fail ("error"); chars (r, b, q); TRY (r = mes_make_string0 ((char *) c)); if (err) fail ("error"); string (r, b, q, TSTRING); SAME; }
        }
      buf_check ();
    }
  return done ();
}
