#include "s.h"
static char why[200];
#define failf(...) (snprintf (why, 200, __VA_ARGS__), fail (why))
int mes_readchar (), mes_peekchar (), mes_unreadchar (int);
scm *mes_read_byte (), *mes_peek_byte (), *mes_unread_byte (scm *), *mes_peek_char (), *mes_read_char (scm *), *mes_unread_char (scm *), *mes_read_string (scm *), *mes_open_input_string (scm *), *mes_set_current_input_port (scm *), *mes_current_input_port ();
/* what is left to be read: slots 0..3 are descriptors 0, 3, 4, 5; the others string ports */
enum { FDS = 4, MAX = 10 };
static unsigned char left_[MAX][600]; static int len[MAX], ports; static scm *port[MAX]; static int fds[FDS] = { 0, 3, 4, 5 };
static unsigned char dtext[FDS][600]; static int dlen[FDS], dpos[FDS], dpush[FDS];
static int slot (int fd) { int i; for (i = 0; i < FDS; i++) if (fds[i] == fd) return i; fail ("a character is read from the wrong descriptor"); return 0; }
/* stand-ins for the C library's fdgetc and fdungetc: a stream of bytes with one character of push-back */
int mes_fdgetc (int fd) { int i = slot (fd), c; if (dpush[i] >= 0) { c = dpush[i]; dpush[i] = -1; return c; } return dpos[i] < dlen[i] ? dtext[i][dpos[i]++] : -1; }
int mes_fdungetc (int c, int fd) { int i = slot (fd); if (c == -1) return c; if (dpush[i] >= 0) fail ("a second character is pushed back on a descriptor"); dpush[i] = c & 255; return c; }
static long ops; static char trace[4000];
static void note (char const *f, ...) { va_list a; char b[300]; va_start (a, f); vsnprintf (b, 300, f, a); va_end (a); if (strlen (trace) > 3600) memmove (trace, trace + 400, strlen (trace) - 399); strcat (trace, b); D ("%s", trace); }
/* every port still has what it should have */
static void check (void)
{
  int i, j;
  for (i = 0; i < FDS; i++)
    { int n = dlen[i] - dpos[i] + (dpush[i] >= 0);
      if (n != len[i]) fail ("the descriptor has more or less text left than what was not read");
      for (j = 0; j < n; j++) if ((dpush[i] >= 0 ? (j ? dtext[i][dpos[i] + j - 1] : dpush[i]) : dtext[i][dpos[i] + j]) != left_[i][j]) fail ("the text left on the descriptor is not what was not read"); }
  for (i = FDS; i < ports; i++)
    { scm *s = port[i]->cdr;
      if (port[i]->type != TPORT || s->type != TSTRING) fail ("a string port is damaged");
      if (s->carv != len[i]) fail ("the string port has more or less text left than what was not read");
      if (memcmp (mes_cell_bytes (s->cdr), left_[i], len[i])) fail ("the text left in the string port is not what was not read"); }
}
static int take (int p) { int c; if (!len[p]) return -1; c = left_[p][0]; memmove (left_[p], left_[p] + 1, --len[p]); return c; }
static void open_string (void)
{
  char b[600]; int n = rnd (4) ? rnd (12) : rnd (300), i, wide = rnd (2);
  for (i = 0; i < n; i++) b[i] = wide ? rnd (256) : "ab\0\377\200"[rnd (5)];
  b[n] = 0; memcpy (left_[ports], b, n); len[ports] = n;
  scm *s = mes_make_string (b, n);
  note (" (open-input-string \"%s\")", hex ((unsigned char *) b, n < 20 ? n : 20));
  TRY (port[ports] = mes_open_input_string (s)); if (err) fail ("open-input-string fails");
  ports++;
}
int main (int argc, char **argv)
{
  int run, i, j, k, cur, c, want; mes_start (argc, argv);
  for (run = 0; run < 800; run++)
    {
      heap_reset (); mes_g_ports = nil; trace[0] = 0; ports = FDS;
      for (i = 0; i < FDS; i++) { dlen[i] = rnd (4) ? rnd (12) : rnd (300); dpos[i] = 0; dpush[i] = -1; for (j = 0; j < dlen[i]; j++) dtext[i][j] = rnd (256); memcpy (left_[i], dtext[i], dlen[i]); len[i] = dlen[i]; port[i] = 0; }
      cur = 0; mes___stdin = 0;
      for (k = 0; k < 60; k++)
        {
          int last = -1; scm *r = 0, *a;
          if (mes_g_free - mes_g_cells > 45000) break;
          switch (rnd (12))
            {
            case 0: if (ports < MAX) open_string (); break;
            case 1:
              { int to = rnd (ports), from = cur; a = to < FDS ? mes_make_number (fds[to]) : port[to];
                note (" (set-current-input-port %d)", to);
                TRY (r = mes_set_current_input_port (a)); if (err) fail ("set-current-input-port fails");
                if (from < FDS ? r->type != TNUMBER || r->cdrv != fds[from] : r != port[from]) fail ("set-current-input-port does not give back the port that was current");
                cur = to; break; }
            case 2: note (" (current-input-port)"); TRY (r = mes_current_input_port ()); if (err) fail ("current-input-port fails");
              if (cur < FDS ? r->type != TNUMBER || r->cdrv != fds[cur] : r != port[cur]) fail ("current-input-port is not the port made current"); break;
            case 3: note (" (readchar)"); want = take (cur); TRY (c = mes_readchar ()); if (err || c != want) failf ("readchar: got %d, want %d", err ? -99 : c, want); last = c; break;
            case 4: note (" (peekchar)"); want = len[cur] ? left_[cur][0] : -1; TRY (c = mes_peekchar ()); if (err || c != want) failf ("peekchar: got %d, want %d", err ? -99 : c, want); break;
            case 5: note (" (read-byte)"); want = take (cur); TRY (r = mes_read_byte ()); if (err || r->type != TNUMBER || r->cdrv != want) failf ("read-byte: want %d", want); last = want; break;
            case 6: note (" (peek-byte)"); want = len[cur] ? left_[cur][0] : -1; TRY (r = mes_peek_byte ()); if (err || r->type != TNUMBER || r->cdrv != want) failf ("peek-byte: want %d", want); break;
            case 7: note (" (peek-char)"); want = len[cur] ? left_[cur][0] : -1; TRY (r = mes_peek_char ()); if (err || r->type != TCHAR || r->cdrv != want) failf ("peek-char: want %d", want); break;
            case 8: case 9:
              { int from = rnd (3) ? cur : rnd (ports); a = from == cur && rnd (2) ? nil : mes_cons (from < FDS ? mes_make_number (fds[from]) : port[from], nil);
                note (" (read-char %d)", from); want = take (from); TRY (r = mes_read_char (a));
                if (err || r->type != TCHAR || r->cdrv != want) failf ("read-char: got %ld, want %d", err ? -99L : r->cdrv, want);
                if (from == cur) last = want; break; }
            case 10:
              if (rnd (6) == 0)
                { int from = rnd (3) ? cur : rnd (ports); a = from == cur && rnd (2) ? nil : mes_cons (from < FDS ? mes_make_number (fds[from]) : port[from], nil);
                  note (" (read-string %d)", from); int n = len[from]; unsigned char b[600]; memcpy (b, left_[from], n); len[from] = 0;
                  TRY (r = mes_read_string (a));
                  if (err || r->type != TSTRING || r->carv != n || memcmp (mes_cell_bytes (r->cdr), b, n)) fail ("read-string does not give all the text left"); }
              break;
            default:
              { size_t max = mes_MAX_STRING; int from = rnd (FDS); if (rnd (8) || len[from] < 5) break;
                mes_MAX_STRING = 2; note (" (read-string %d), longest string 2", from); take (from); take (from); take (from); take (from);
                TRY (r = mes_read_string (mes_cons (mes_make_number (fds[from]), nil))); mes_MAX_STRING = max;
                if (!err) fail ("read-string gives more than the longest string"); } break;
            }
          /* sometimes put the character back */
          if (last >= 0 && rnd (2))
            { memmove (left_[cur] + 1, left_[cur], len[cur]++); c = rnd (2) ? last : rnd (256); left_[cur][0] = c;
              note (" (unread %d)", c);
              if (rnd (3) == 0) TRY (mes_unreadchar (c)); else if (rnd (2)) TRY (mes_unread_char (mes_make_char (c))); else TRY (mes_unread_byte (mes_make_number (c)));
              if (err) fail ("a character cannot be put back"); }
          check (); ops++;
          if (cur < FDS ? mes___stdin != fds[cur] : mes___stdin != port[cur]->carv) fail ("the current input port changed");
        }
    }
  return done ();
}
