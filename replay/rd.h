/* the interpreter's reader on a string port, its printer into out[] */
static char why[700];
#define failf(...) (snprintf (why, 700, __VA_ARGS__), fail (why))
scm *mes_open_input_string (scm *), *mes_set_current_input_port (scm *), *mes_reader_read_sexp_ (int, scm *), *mes_fdisplay_ (scm *, int, int), *mes_write_ (scm *), *mes_display_ (scm *);
int mes_readchar (); extern int mes___stdout, mes_g_depth; extern char *mes___reader_read_char_buf;
static unsigned char out[100000]; static int out_n;
long mes__write (int fd, void const *p, unsigned long n) { if (fd != 7 && fd != 1) fail ("the text is written to another descriptor"); if (out_n + n > sizeof out) fail ("too much text is written"); memcpy (out + out_n, p, n); out_n += n; return n; }
long mes__read (int fd, void *p, unsigned long n) { fail ("a descriptor is read"); return 0; }
/* a stream that cannot seek */
long mes__lseek (int fd, long o, int w) { return -1; }
static char *shw (void const *p, int n) { static char b[4][900]; static int k; char *s = b[k++ & 3]; int i, j = 0; unsigned char const *t = p; for (i = 0; i < n && j < 800; i++) j += t[i] > 32 && t[i] < 127 && t[i] != '\\' ? sprintf (s + j, "%c", t[i]) : sprintf (s + j, "\\x%02x", t[i]); s[j] = 0; return s; }
static void from (void const *p, int n) { scm *s = mes_make_string (p, n), *q; mes_set_current_input_port (mes_open_input_string (s)); }
/* read one datum of the text; what is left must be the last n - used characters */
static scm *rd (char *text, int n, int used)
{
  scm *r; int i, c;
  from (text, n);
  TRY (r = mes_reader_read_sexp_ (mes_readchar (), nil));
  if (err) { if (used < 0) return 0; failf ("reading %s reports an error", shw (text, n)); }
  if (used < 0) failf ("reading %s reports no error", shw (text, n));
  for (i = used; i < n; i++) { c = mes_readchar (); if (c != (text[i] & 255)) failf ("after reading %s the next character is %d, not %s", shw (text, used), c, shw (text + i, 1)); }
  if ((c = mes_readchar ()) != -1) failf ("after reading %s there is more: %d", shw (text, n), c);
  return r;
}
static void number (char *text, int n, int used, long v) { scm *r = rd (text, n, used); if (r->type != TNUMBER || r->cdrv != v) failf ("%s reads as %s%ld, not %ld", shw (text, n), r->type == TNUMBER ? "" : "another type, ", r->cdrv, v); }
static void character (char *text, int n, int used, long v) { scm *r = rd (text, n, used); if (r->type != TCHAR || r->cdrv != v) failf ("%s reads as %s%ld, not character %ld", shw (text, n), r->type == TCHAR ? "character " : "another type, ", r->cdrv, v); }
static void put (scm *x, int write_p) { out_n = 0; TRY (mes_fdisplay_ (x, 7, write_p)); if (err) fail ("writing reports an error"); }
static char const ends[] = ")(\"; \n\t\r\f\v";
static int end (char *t, int n) { if (rnd (8) == 0) return n; t[n++] = ends[rnd (sizeof ends - 1)]; if (rnd (2)) t[n++] = rnd (256); return n; }
static void rd_start (void) { mes___reader_read_char_buf = (char *) guard_end (3, 10); mes___stdin = 0; mes_g_ports = nil; }
