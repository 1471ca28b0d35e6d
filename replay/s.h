/* The interpreter's real functions (src/*.c of the current tree, gcc -O0,
   symbols prefixed "mes_"; error reporting replaced by a jump back here). */
#include "h.h"
#include MES_CONSTANTS
typedef struct scm scm;
struct scm { long type; union { scm *car; long carv; }; union { scm *cdr; long cdrv; }; };
extern scm *mes_cell_nil, *mes_cell_t, *mes_cell_f, *mes_cell_unspecified, *mes_cell_undefined, *mes_cell_symbol_car, *mes_cell_symbol_define;
extern scm *mes_g_free, *mes_g_cells, *mes_g_symbols, *mes_R0, *mes_M0, *mes_g_ports, *mes_g_macros;
extern size_t mes_ARENA_SIZE, mes_MAX_STRING, mes_STACK_SIZE; extern char *mes_g_buf; extern char **mes_environ; extern int mes___stdin; extern char *mes_g_datadir;
extern long mes_g_stack; extern scm **mes_g_stack_array;
#define nil mes_cell_nil
#define T mes_cell_t
#define F mes_cell_f
scm *mes_init_symbols (); void mes_gc_init ();
scm *mes_cons (scm *, scm *), *mes_make_number (long), *mes_make_char (int), *mes_make_string (char const *, size_t), *mes_make_cell (long, scm *, scm *),
  *mes_cstring_to_symbol (char const *), *mes_make_vector_ (long, scm *), *mes_make_bytes (char const *, size_t);
char *mes_cell_bytes (scm *);

static sigjmp_buf errjmp; static volatile int err; static scm *err_key;
static int in_call;
scm *mes_error (scm *k, scm *x) { if (!in_call) { printf ("FAIL an error was reported during set-up\n"); exit (1); } err_key = k; err = 1; siglongjmp (errjmp, 1); }
void mes___assert_fail (char *m) { if (!in_call) { printf ("FAIL an assertion failed during set-up: %s\n", m); exit (1); } err = 1; siglongjmp (errjmp, 1); }
int mes_eputs (char const *s) { return 0; }
scm *mes_write_error_ (scm *x) { return x; }
scm *mes_display_error_ (scm *x) { return x; }
void *mes_malloc (size_t n) { return memset (malloc (n + 64), 0x5a, n + 64); }
void mes_free (void *p) { }
/* err = 1 when the call reports an error instead of returning */
#define TRY(call) do { err = 0; RUN (in_call = 1; if (sigsetjmp (errjmp, 1) == 0) { call; } in_call = 0); } while (0)

static char *shot; static size_t shot_n; static scm *shot_free;
/* the objects that exist now */
static void snap (void)
{
  shot_n = (char *) mes_g_free - (char *) mes_g_cells + 48; shot_free = mes_g_free;
  shot = realloc (shot, shot_n + 1); memcpy (shot, (char *) mes_g_cells - 24, shot_n);
}
static scm *was (scm *x) { return (scm *) (shot + ((char *) x - ((char *) mes_g_cells - 24))); }
/* nothing that existed at snap () changed, except the n cells given */
static int unchanged (int n, scm **except)
{
  scm *x; int i;
  for (x = mes_g_cells; x < shot_free; x++)
    { if (memcmp (x, was (x), 24) == 0) continue;
      for (i = 0; i < n; i++) if (except[i] == x) break;
      if (i == n) return 0; }
  return 1;
}
static char *heap0; static size_t heap0_n; static scm *heap0_free;
static void heap_save (void) { heap0_n = (char *) mes_g_free - (char *) mes_g_cells; heap0_free = mes_g_free; heap0 = malloc (heap0_n); memcpy (heap0, mes_g_cells, heap0_n); }
static void heap_reset (void) { memcpy (mes_g_cells, heap0, heap0_n); memset ((char *) mes_g_cells + heap0_n, 0xA5, (char *) (mes_g_free + 64) - ((char *) mes_g_cells + heap0_n)); mes_g_free = heap0_free; }
static char *mes_env[] = { "MES_ARENA=60000", "MES_MAX_STRING=2000", 0 };
static void mes_start (int argc, char **argv)
{
  init (argc, argv);
  mes_environ = mes_env;
  mes_g_datadir = "/nonexistent";
  mes_gc_init ();
  memset (mes_g_free + 1, 0xA5, 50000 * 24);
  mes_init_symbols ();
  mes___stdin = -1;
  heap_save ();
}
static char const *tname (scm *x)
{
  static char const *n[] = { "char", "bytes", "closure", "continuation", "keyword", "macro", "number", "pair", "port", "ref", "special", "string", "struct", "symbol", "values", "variable", "vector", "broken-heart" };
  return (unsigned long) x->type < 18 ? n[x->type] : "?";
}
/* print a value, for messages */
static char *show_to (char *o, char *e, scm *x, int depth)
{
  if (e - o < 64) return o;
  if (x == nil) return o + sprintf (o, "()"); if (x == F) return o + sprintf (o, "#f"); if (x == T) return o + sprintf (o, "#t");
  if (x == mes_cell_unspecified) return o + sprintf (o, "*unspecified*"); if (x == mes_cell_undefined) return o + sprintf (o, "*undefined*");
  if (depth > 6) return o + sprintf (o, "...");
  switch (x->type)
    {
    case TNUMBER: return o + sprintf (o, "%ld", x->cdrv);
    case TCHAR: return o + sprintf (o, "#\\x%lx", x->cdrv);
    case TSTRING: case TSYMBOL: case TKEYWORD: return o + snprintf (o, e - o - 40 > 60 ? 60 : e - o - 40, "%s%s", x->type == TSTRING ? "" : x->type == TSYMBOL ? "symbol " : "keyword ", hex ((unsigned char *) mes_cell_bytes (x->cdr), x->carv < 12 ? x->carv : 12));
    case TPAIR: o += sprintf (o, "("); o = show_to (o, e, x->car, depth + 1); o += sprintf (o, " . "); o = show_to (o, e, x->cdr, depth + 1); return o + sprintf (o, ")");
    default: return o + sprintf (o, "<%s %p>", tname (x), (void *) x);
    }
}
static char *show (scm *x)
{ static char b[4][2000]; static int i; char *p = b[i++ & 3], *q = show_to (p, p + 1900, x, 0); *q = 0; return p; }

static scm *mk_bytes (char const *s, long n) { return mes_make_bytes (s, n); }
static scm *mk_like_string (int type, char const *s, long n)
{ scm *x = mes_make_string (s, n); x->type = type; return x; }
/* a string with random contents over few letters (so equal ones occur), sometimes all byte values */
static scm *rnd_string (int type, int max)
{
  char b[4096]; int n = rnd (3) ? rnd (3) : rnd (max + 1), i, wide = rnd (3) == 0;
  for (i = 0; i < n; i++) b[i] = wide ? rnd (256) : "ab\0\x80"[rnd (4)];
  b[n] = 0; return mk_like_string (type, b, n);
}
static scm *rnd_sym (void) { static char *n[] = { "a", "b", "ab", "lambda", "x1", "a-long-symbol-name" }; return mes_cstring_to_symbol (n[rnd (6)]); }
static long rnd_num (void) { switch (rnd (5)) { case 0: return (long) rnd (5) - 2; case 1: return (long) rnd64 () << 33; case 2: return (long) 1 << 63; case 3: return (long) (~0UL >> 1); default: return rnd (2) ? 97 : -(long) rnd (1000); } }
/* an object of the given type; parts are built from atoms */
static scm *rnd_atom (void)
{
  switch (rnd (9)) { case 0: return nil; case 1: return rnd (2) ? T : F; case 2: case 3: return mes_make_number (rnd_num ()); case 4: return mes_make_char (rnd (3) ? 97 : rnd (256)); case 5: return rnd_string (TSTRING, 8); case 6: return rnd_sym (); case 7: return rnd_string (TKEYWORD, 4); default: return mes_make_cell (TCLOSURE, nil, nil); }
}
static scm *rnd_obj (int type)
{
  switch (type)
    {
    case TCHAR: return mes_make_char (rnd (256));
    case TBYTES: return mk_bytes ("hello", rnd (6));
    case TNUMBER: return mes_make_number (rnd_num ());
    case TPAIR: return mes_cons (rnd_atom (), rnd_atom ());
    case TSTRING: case TKEYWORD: return rnd_string (type, 8);
    case TSYMBOL: return rnd_sym ();
    case TSPECIAL: return rnd (2) ? nil : T;
    case TVECTOR: return mes_make_vector_ (rnd (4), rnd_atom ());
    case TSTRUCT: { scm *v = mes_make_vector_ (2 + rnd (3), rnd_atom ()); v->type = TSTRUCT; return v; }
    case TPORT: return mes_make_cell (TPORT, (scm *) 5, nil);
    case TCONTINUATION: return mes_make_cell (TCONTINUATION, (scm *) 3, (scm *) 100);
    default: return mes_make_cell (type, nil, nil);
    }
}
static int any_type (void) { int t; do t = rnd (17); while (0); return t; }
