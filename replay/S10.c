#include "s.h"
/* Programs of definitions, assignments, procedures and calls over a few names
   (so that most of them shadow others, builtins among them) are run by the
   interpreter and by the evaluator below; first, the binding and lookup
   functions by themselves. */
static char why[600];
#define failf(...) (snprintf (why, 600, __VA_ARGS__), fail (why))
extern scm *mes_R1, *mes_R2, *mes_R3, *mes_cell_vm_begin_expand, *mes_cell_closure, *mes_cell_symbol_wrong_number_of_args;
scm *mes_pairlis (scm *, scm *, scm *), *mes_check_formals (scm *, scm *, scm *), *mes_module_variable (scm *, scm *), *mes_module_ref (scm *, scm *), *mes_module_define_x (scm *, scm *, scm *),
  *mes_set_env_x (scm *, scm *, scm *), *mes_make_variable_ (scm *), *mes_add_formals (scm *, scm *), *mes_eval_apply (), *mes_push_cc (scm *, scm *, scm *, scm *),
  *mes_mes_environment (int, char **), *mes_mes_builtins (scm *), *mes_init_time (scm *), *mes_make_initial_module (scm *), *mes_make_hash_table_ (long);
int mes_formal_p (scm *, scm *); void mes_gc_push_frame (), mes_gc_pop_frame ();
/* diagnostics of run-away programs */
scm *mes_display_ (scm *x) { return x; }

/* ---- the reference */
typedef struct val val; typedef struct bind bind; typedef struct frame frame; typedef struct ex ex;
enum { NUM, BOOL, NIL, UNSPEC, PAIR, SYM, CLO, PRIM };
struct val { int k; long n; val *a, *d; ex *f; frame *env; };
struct bind { int name; val *v; bind *next; };
struct frame { bind *b; frame *up; };
enum { E_NUM, E_BOOL, E_QSYM, E_NIL, E_REF, E_SET, E_DEF, E_DEFP, E_LAM, E_IF, E_BEGIN, E_CALL };
/* a: parts; np: number of formals; rest: -1 or the name of the rest parameter; nodes of the body follow in a */
struct ex { int k; long n; ex *a[8]; int na; int formal[4], np, rest; };
enum { N_PRIM = 7, N_VAR = 7, NAMES = N_PRIM + N_VAR };
static char *names[NAMES] = { "car", "cdr", "cons", "list", "+", "null?", "eq?", "a", "b", "c", "d", "x", "y", "z" };
static int arity[N_PRIM] = { 1, 1, 2, -1, -1, 1, 2 };
static char pool[4000000]; static size_t pool_n; static long fuel; static int bad, tired, depth;
static void *get (size_t n) { void *p = pool + pool_n; pool_n += (n + 15) & ~15; if (pool_n > sizeof pool - 1000) { pool_n = 0; tired = 1; } return memset (p, 0, n); }
static val *mk (int k, long n) { val *v = get (sizeof *v); v->k = k; v->n = n; return v; }
static frame *top, *tops[2];
/* known finding: the interpreter evaluates the expression of the procedure once more after the operands; 1 here is to do so too */
static int twice;
static bind *find (frame *f, int name) { bind *b; for (; f; f = f->up) for (b = f->b; b; b = b->next) if (b->name == name) return b; return 0; }
static void define (frame *f, int name, val *v) { bind *b; for (b = f->b; b; b = b->next) if (b->name == name) { b->v = v; return; } b = get (sizeof *b); b->name = name; b->v = v; b->next = f->b; f->b = b; }
static val *ev (ex *, frame *);
static val *body (ex *l, frame *f) { int i; val *r = mk (UNSPEC, 0); for (i = 0; i < l->na && !bad && !tired; i++) r = ev (l->a[i], f); return r; }
static val *call (val *f, val **v, int n)
{
  int i; frame *g; val *r;
  if (f->k == PRIM)
    {
      if (arity[f->n] >= 0 && arity[f->n] != n) { bad = 1; return f; }
      switch (f->n)
        {
        case 0: case 1: if (v[0]->k != PAIR) { bad = 1; return f; } return f->n ? v[0]->d : v[0]->a;
        case 2: r = mk (PAIR, 0); r->a = v[0]; r->d = v[1]; return r;
        case 3: { val *l = mk (NIL, 0); for (i = n - 1; i >= 0; i--) { r = mk (PAIR, 0); r->a = v[i]; r->d = l; l = r; } return l; }
        case 4: { long s = 0; for (i = 0; i < n; i++) { if (v[i]->k != NUM) { bad = 1; return f; } s += v[i]->n; } return mk (NUM, s); }
        case 5: return mk (BOOL, v[0]->k == NIL);
        default: { val *p = v[0], *q = v[1]; if (p->k == BOOL || p->k == NUM || p->k == SYM || p->k == PRIM) return mk (BOOL, p->k == q->k && p->n == q->n); if (p->k == NIL || p->k == UNSPEC) return mk (BOOL, p->k == q->k); return mk (BOOL, p == q); }
        }
    }
  /* the interpreter evaluates a symbol or list in the position of a procedure */
  if (f->k == SYM || f->k == PAIR) { tired = 1; return f; }
  if (f->k != CLO || n < f->f->np || (f->f->rest < 0 && n != f->f->np)) { bad = 1; return f; }
  if (++depth > 60) { tired = 1; return f; }
  g = get (sizeof *g); g->up = f->env;
  for (i = 0; i < f->f->np; i++) define (g, f->f->formal[i], v[i]);
  if (f->f->rest >= 0) { val *l = mk (NIL, 0); for (i = n - 1; i >= f->f->np; i--) { r = mk (PAIR, 0); r->a = v[i]; r->d = l; l = r; } define (g, f->f->rest, l); }
  r = body (f->f, g); depth--; return r;
}
static val *ev (ex *e, frame *f)
{
  bind *b; val *v, *a[8]; int i;
  if (bad || tired) return mk (UNSPEC, 0);
  if (--fuel < 0) { tired = 1; return mk (UNSPEC, 0); }
  switch (e->k)
    {
    case E_NUM: return mk (NUM, e->n); case E_BOOL: return mk (BOOL, e->n); case E_QSYM: return mk (SYM, e->n); case E_NIL: return mk (NIL, 0);
    case E_REF: if (!(b = find (f, e->n)) || !b->v) { bad = 1; return 0; } return b->v;
    case E_SET: v = ev (e->a[0], f); if (bad) return 0; if (!(b = find (f, e->n))) { bad = 1; return 0; } b->v = v; return mk (UNSPEC, 0);
    case E_DEF: case E_DEFP: v = ev (e->a[0], f); if (!bad) define (f, e->n, v); return mk (UNSPEC, 0);
    case E_LAM: v = mk (CLO, 0); v->f = e; v->env = f; return v;
    case E_IF: v = ev (e->a[0], f); if (bad || tired) return v; return v->k == BOOL && !v->n ? e->na > 2 ? ev (e->a[2], f) : mk (UNSPEC, 0) : ev (e->a[1], f);
    case E_BEGIN: return body (e, f);
    default:
      for (i = 0; i < e->na; i++) { a[i] = ev (e->a[i], f); if (bad || tired) return mk (UNSPEC, 0); }
      if (twice && e->a[0]->k != E_LAM) { a[0] = ev (e->a[0], f); if (bad || tired) return mk (UNSPEC, 0); }
      return call (a[0], a + 1, e->na - 1);
    }
}
/* ---- random programs */
static ex *node (int k, long n) { ex *e = get (sizeof *e); e->k = k; e->n = n; e->rest = -1; return e; }
static int name_ (void) { return rnd (5) ? N_PRIM + rnd (N_VAR) : rnd (N_PRIM); }
static ex *gen (int d, int stmt);
static ex *lambda (int d, int own)
{
  ex *l = node (E_LAM, 0); int i, j, nd;
  l->np = rnd (4);
  for (i = 0; i < l->np; i++) do { l->formal[i] = name_ (); for (j = 0; j < i; j++) if (l->formal[j] == l->formal[i]) break; } while (j < i);
  if (rnd (4) == 0) do { l->rest = name_ (); for (j = 0; j < l->np; j++) if (l->formal[j] == l->rest) break; } while (j < l->np);
  nd = rnd (3) ? 0 : 1 + rnd (2);
  for (i = 0; i < nd; i++)
    { ex *e = node (rnd (2) ? E_DEF : E_DEFP, name_ ());
      e->a[0] = e->k == E_DEFP ? lambda (d - 1, 1) : gen (d - 1, 0); e->na = 1; if (rnd (5) == 0) { ex *b = node (E_BEGIN, 0); b->a[b->na++] = e; e = b; } l->a[l->na++] = e; }
  nd = 1 + rnd (3);
  for (i = 0; i < nd; i++) l->a[l->na++] = gen (d - 1, i < nd - 1);
  return l;
}
static ex *gen (int d, int stmt)
{
  ex *e; int i, n;
  if (stmt && rnd (2)) { e = node (E_SET, name_ ()); e->a[0] = gen (d - 1, 0); e->na = 1; return e; }
  if (d <= 0) switch (rnd (6)) { case 0: return node (E_NUM, rnd (50)); case 1: return node (E_BOOL, rnd (2)); case 2: return node (E_QSYM, name_ ()); case 3: return node (E_NIL, 0); default: return node (E_REF, name_ ()); }
  switch (rnd (9))
    {
    case 0: return node (E_NUM, rnd (50));
    case 1: case 2: return node (E_REF, name_ ());
    case 3: e = node (E_IF, 0); e->na = 2 + rnd (2); for (i = 0; i < e->na; i++) e->a[i] = gen (d - 1, 0); return e;
    case 4: e = node (E_BEGIN, 0); e->na = 1 + rnd (3); for (i = 0; i < e->na; i++) e->a[i] = gen (d - 1, i < e->na - 1); return e;
    case 5: return lambda (d, 0);
    case 6: /* a call that fits */
      { ex *l = lambda (d, 0); e = node (E_CALL, 0); e->a[e->na++] = l; n = l->np + (l->rest >= 0 ? rnd (3) : 0) + (rnd (15) == 0) - (rnd (15) == 0); for (i = 0; i < n; i++) e->a[e->na++] = gen (d - 1, 0); return e; }
    default:
      e = node (E_CALL, 0); i = name_ (); e->a[e->na++] = rnd (6) ? node (E_REF, i) : gen (d - 1, 0);
      n = i < N_PRIM && arity[i] >= 0 && rnd (12) ? arity[i] : rnd (4); for (i = 0; i < n; i++) e->a[e->na++] = gen (d - 1, 0); return e;
    }
}
/* ---- as text and as the interpreter's data */
static char text[20000]; static size_t text_n;
static void put (char const *s) { if (text_n + strlen (s) < sizeof text - 10) { strcpy (text + text_n, s); text_n += strlen (s); } }
static scm *sy (char const *s) { return mes_cstring_to_symbol (s); }
static scm *sc (ex *);
static scm *seq (ex *e, int i) { return i == e->na ? nil : ({ if (i) put (" "); scm *x = sc (e->a[i]); mes_cons (x, seq (e, i + 1)); }); }
static scm *formals (ex *l, int i) { if (i == l->np) { if (l->rest < 0) return nil; put (" . "); put (names[l->rest]); return sy (names[l->rest]); } put (i ? " " : ""); put (names[l->formal[i]]); { scm *x = sy (names[l->formal[i]]); return mes_cons (x, formals (l, i + 1)); } }
static scm *sc (ex *e)
{
  char b[40]; scm *x, *y;
  switch (e->k)
    {
    case E_NUM: sprintf (b, "%ld", e->n); put (b); return mes_make_number (e->n);
    case E_BOOL: put (e->n ? "#t" : "#f"); return e->n ? T : F;
    case E_QSYM: put ("'"); put (names[e->n]); return mes_cons (sy ("quote"), mes_cons (sy (names[e->n]), nil));
    case E_NIL: put ("'()"); return mes_cons (sy ("quote"), mes_cons (nil, nil));
    case E_REF: put (names[e->n]); return sy (names[e->n]);
    case E_SET: case E_DEF: put (e->k == E_SET ? "(set! " : "(define "); put (names[e->n]); put (" "); x = seq (e, 0); put (")"); return mes_cons (sy (e->k == E_SET ? "set!" : "define"), mes_cons (sy (names[e->n]), x));
    case E_DEFP: put ("(define ("); put (names[e->n]); put (e->a[0]->np ? " " : ""); x = mes_cons (sy (names[e->n]), formals (e->a[0], 0)); put (") "); y = seq (e->a[0], 0); put (")"); return mes_cons (sy ("define"), mes_cons (x, y));
    case E_LAM: put ("(lambda "); if (e->np || e->rest < 0) { put ("("); x = formals (e, 0); put (")"); } else { put (names[e->rest]); x = sy (names[e->rest]); } put (" "); y = seq (e, 0); put (")"); return mes_cons (sy ("lambda"), mes_cons (x, y));
    case E_IF: put ("(if "); x = seq (e, 0); put (")"); return mes_cons (sy ("if"), x);
    case E_BEGIN: put ("(begin "); x = seq (e, 0); put (")"); return mes_cons (sy ("begin"), x);
    default: put ("("); x = seq (e, 0); put (")"); return x;
    }
}
static int same (val *v, scm *x, int d)
{
  if (d > 50) return 1;
  switch (v->k)
    {
    case NUM: return x->type == TNUMBER && x->cdrv == v->n; case BOOL: return x == (v->n ? T : F); case NIL: return x == nil; case UNSPEC: return x == mes_cell_unspecified;
    case SYM: return x == sy (names[v->n]); case CLO: return x->type == TCLOSURE; case PRIM: return x->type == TSTRUCT;
    default: return x->type == TPAIR && same (v->a, x->car, d + 1) && same (v->d, x->cdr, d + 1);
    }
}
static char *vshow (val *v) { static char b[2][2000]; static int w; char *o = b[w++ & 1], *o0 = o; 
  switch (v->k) { case NUM: sprintf (o, "%ld", v->n); break; case BOOL: sprintf (o, v->n ? "#t" : "#f"); break; case NIL: sprintf (o, "()"); break; case UNSPEC: sprintf (o, "*unspecified*"); break; case SYM: sprintf (o, "%s", names[v->n]); break; case CLO: sprintf (o, "#<closure>"); break; case PRIM: sprintf (o, "#<procedure %s>", names[v->n]); break; default: snprintf (o, 1900, "a pair"); } return o0; }

static scm *R0_0; static long stack0;
/* the functions of src/eval-apply.c and src/module.c by themselves */
static void direct (void)
{
  scm *nm[6], *vs[6], *r, *p, *fm, *as, *al, *x, *g; int n = rnd (6), m = rnd (6), i, rest, improper;
  heap_reset ();
  rest = rnd (3) == 0; improper = rnd (12) == 0;
  fm = rest ? sy ("the-rest") : nil; for (i = n - 1; i >= 0; i--) fm = mes_cons (nm[i] = sy (names[i]), fm);
  as = improper ? mes_make_number (3) : nil; for (i = m - 1; i >= 0; i--) as = mes_cons (vs[i] = rnd_atom (), as);
  al = mes_cons (mes_cons (sy ("q"), rnd_atom ()), nil);
  snap ();
  D ("pairlis: %d formals%s, %d arguments%s", n, rest ? " and a rest parameter" : "", m, improper ? ", improper" : "");
  TRY (r = mes_pairlis (fm, as, al));
  if (!err != (n <= m)) fail (err ? "an error is reported" : "no error for missing arguments");
  if (!unchanged (0, 0)) fail ("an existing object changed");
  if (!err)
    { for (p = r, i = 0; i < n; i++, p = p->cdr)
        { if (p->type != TPAIR || p->car->type != TPAIR || p < shot_free || p->car < shot_free) fail ("the result does not start with new bindings");
          if (p->car->car != nm[i] || p->car->cdr != vs[i]) fail ("a formal is not bound to the argument at its position"); }
      if (rest) { scm *e = as; for (i = 0; i < n; i++) e = e->cdr; if (p->type != TPAIR || p->car->type != TPAIR || p->car->car != sy ("the-rest") || p->car->cdr != e || p->cdr != al) fail ("the rest parameter is not bound to the remaining arguments"); }
      else if (p != al) fail ("the bindings are not in front of the environment given"); }
  D ("check-formals: %d formals%s, %d arguments%s", n, rest ? " and a rest parameter" : "", m, improper ? ", improper" : "");
  g = rnd (3) ? fm : mes_make_number (rnd (3) ? n : -1);
  TRY (r = mes_check_formals (nm[0], g, as));
  i = !improper && (g == fm ? !rest && n != m : g->cdrv != -1 && g->cdrv != m);
  if (err != i) fail (err ? "an error is reported for the right number of arguments" : "no error for the wrong number of arguments");
  /* lookup and assignment */
  for (i = 0; i < 40; i++) if (rnd (3)) TRY (mes_module_define_x (mes_M0, sy (names[rnd (NAMES)]), rnd_atom ()));
  al = nil; for (i = rnd (6); i > 0; i--) al = mes_cons (mes_cons (sy (names[rnd (NAMES)]), rnd_atom ()), al);
  x = sy (rnd (8) ? names[rnd (NAMES)] : "never-defined");
  for (p = al; p != nil; p = p->cdr) if (p->car->car == x) break;
  D ("a variable: %s, %s", hex ((unsigned char *) mes_cell_bytes (x->cdr), x->carv), p == nil ? "not among the locals" : "a local");
  snap (); TRY (r = mes_module_variable (al, x)); if (err) fail ("looking a variable up reports an error");
  if (p != nil && r != p->car) fail ("the binding found is not the innermost");
  if (!unchanged (0, 0)) fail ("looking a variable up changed an object");
  { scm *w, *z = rnd_atom (), *b = r; TRY (w = mes_module_ref (al, x)); if (err || w != (r == F ? mes_cell_undefined : r->cdr)) fail ("the value of the variable is not the one of its binding");
    if (p == nil && x != sy ("never-defined") && rnd (2))
      { scm *u = rnd_atom (); TRY (mes_module_define_x (mes_M0, x, u)); if (err) fail ("a definition reports an error"); TRY (w = mes_module_ref (al, x)); if (err || w != u) fail ("a global does not have the value it was defined with last"); TRY (b = mes_module_variable (al, x)); r = b; }
    snap (); g = r != F && rnd (2) ? mes_make_variable_ (r) : x; TRY (w = mes_set_env_x (g, z, al));
    if (err != (r == F)) fail (err ? "assignment reports an error" : "assignment of an unbound variable reports no error");
    if (!unchanged (r != F, &b)) fail ("assignment changed something else");
    if (r != F && (r->car != x || r->cdr != z)) fail ("assignment did not give the binding its value"); }
  /* formals */
  { int k = rnd (4), j; scm *f = k == 3 ? sy ("t") : nil, *q, *t; for (i = 0; i < k; i++) f = mes_cons (sy (names[rnd (NAMES)]), f);
    x = sy (rnd (6) ? names[rnd (NAMES)] : "t"); for (q = f; q->type == TPAIR; q = q->cdr) if (q->car == x) break;
    D ("formal-p"); j = 0; RUN (j = mes_formal_p (x, f)); if (!j != !(q->type == TPAIR || (q->type == TSYMBOL && q == x))) fail ("formal-p is wrong");
    D ("add-formals"); snap (); RUN (t = mes_add_formals (fm, f)); if (!unchanged (0, 0)) fail ("an object changed");
    for (q = f; q->type == TPAIR; q = q->cdr) { RUN (j = mes_formal_p (q->car, t)); if (!j) fail ("a formal is missing"); }
    if (q->type == TSYMBOL) { RUN (j = mes_formal_p (q, t)); if (!j) fail ("the rest parameter is missing"); }
    for (i = 0; i < n; i++) { RUN (j = mes_formal_p (nm[i], t)); if (!j) fail ("an outer formal is missing"); } }
  /* frames */
  { scm *o[5][4]; int k = 1 + rnd (5), j; long s = mes_g_stack; D ("the stack of frames, %d of them", k);
    for (i = 0; i < k; i++) { for (j = 0; j < 4; j++) o[i][j] = rnd_atom (); mes_R0 = o[i][0]; mes_R1 = o[i][1]; mes_R2 = o[i][2]; mes_R3 = o[i][3]; RUN (mes_gc_push_frame ()); }
    for (i = k - 1; i >= 0; i--) { RUN (mes_gc_pop_frame ()); if (mes_R0 != o[i][0] || mes_R1 != o[i][1] || mes_R2 != o[i][2] || mes_R3 != o[i][3]) fail ("a frame does not restore the registers it saved"); }
    if (mes_g_stack != s) fail ("the stack is not where it was"); }
}
static long done_, ran;
static int runs (ex *e, scm **r)
{
  text_n = 0; text[0] = 0;
  scm *x = mes_cons (sc (e), nil);
  mes_push_cc (x, mes_cell_unspecified, mes_R0, mes_cell_unspecified); mes_R3 = mes_cell_vm_begin_expand;
  TRY (*r = mes_eval_apply ());
  return !err;
}
static void program (void)
{
  static char trace[30000]; int i, j, m, n = 2 + rnd (7), alive[2] = { 1, 1 }; trace[0] = 0;
  heap_reset (); mes_R0 = R0_0; mes_g_stack = stack0; pool_n = 0;
  for (m = 0; m < 2; m++) { tops[m] = get (sizeof *top); for (i = 0; i < N_PRIM; i++) define (tops[m], i, mk (PRIM, i)); }
  for (i = 0; i < n; i++)
    {
      ex *e; val *v[2]; int b[2]; scm *r; size_t l; int ok;
      if (rnd (3)) { e = node (rnd (2) ? E_DEF : E_DEFP, name_ ()); e->a[0] = e->k == E_DEFP ? lambda (3, 1) : gen (3, 0); e->na = 1; }
      else e = gen (4, 0);
      for (m = 0; m < 2; m++)
        {
          fuel = 400; bad = tired = depth = 0; twice = m; top = tops[m];
          /* a global is #f while it is first defined */
          if (e->k == E_DEF || e->k == E_DEFP) if (!find (top, e->n)) define (top, e->n, mk (BOOL, 0));
          v[m] = ev (e, top); b[m] = bad;
          if (tired) return;
        }
      if ((char *) mes_g_free - (char *) mes_g_cells > 24 * 40000) return;
      in_call = 1; l = strlen (trace); text_n = 0; sc (e); text[text_n] = 0; if (l + text_n < 25000) sprintf (trace + l, "%s ", text);
      D ("program: %s", trace);
      ok = runs (e, &r); ran++;
      for (j = m = 0; m < 2; m++) if (alive[m])
        { char const *w = 0;
          if (!ok != b[m]) w = ok ? "no error is reported" : "an error is reported";
          else if (ok && e->k != E_DEF && e->k != E_DEFP && !same (v[m], r, 0)) { snprintf (why, 600, "the value is %s, not %s", show (r), vshow (v[m])); w = why; }
          if (!w) continue;
          alive[m] = 0; if (!alive[!m]) failf ("%s", w);
          j++; }
      if (!ok) return;
    }
}
int main (int argc, char **argv)
{
  int i; scm *a; char *av[] = { "mes", 0 };
  mes_start (argc, argv);
  a = mes_mes_environment (1, av); a = mes_mes_builtins (a); a = mes_init_time (a); mes_M0 = mes_make_initial_module (a); mes_g_macros = mes_make_hash_table_ (0);
  heap_save (); R0_0 = mes_R0; stack0 = mes_g_stack;
  for (i = 0; i < 3000; i++) { direct (); done_++; }
  for (i = 0; i < 200000; i++) { program (); done_++; }
  done ();
}
