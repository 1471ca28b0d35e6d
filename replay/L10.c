#include "h.h"
char *mes_getenv (char const *); int mes_setenv (char const *, char const *, int); void mes_unsetenv (char const *);
extern char **mes_environ;
/* the allocator of the replay: each block ends at an inaccessible page; may refuse */
#define SLOTS 600
static unsigned char *pool; static int used, refuse;
void *mes_malloc (size_t n)
{
  if (refuse && !--refuse) { return 0; }
  if (used == SLOTS || n > PG) return 0;
  unsigned char *p = pool + (size_t) used++ * 2 * PG; memset (p, 0xa5, PG); return p + PG - n;
}
void mes_free (void *p) {}
/* the reading of the contract: pairs in order, the first of a name counts */
static char K[64][64], V[64][300]; static int n;
static int at (char const *k) { for (int i = 0; i < n; i++) if (!strcmp (K[i], k)) return i; return -1; }
static char const *names[] = { "A", "AB", "ABC", "B", "HOME", "HOM", "HOME_", "PATH", "x", "A_VERY_LONG_NAME_FOR_A_VARIABLE", "" };
#define NN 10
static char story[20000];
static void told (char const *f, ...) { va_list a; va_start (a, f); size_t l = strlen (story); vsnprintf (story + l, sizeof story - l, f, a); va_end (a); strcpy (descr, story); }
static void agree (void)
{
  for (int j = 0; j < NN; j++)
    {
      char *g = 0; int i = at (names[j]); RUN (g = mes_getenv (names[j]));
      if (!g && i >= 0) { told ("getenv (\"%s\") -> nothing, expected \"%s\"", names[j], V[i]); fail ("lost value"); }
      if (g && i < 0) { told ("getenv (\"%s\") -> \"%s\", expected nothing", names[j], g); fail ("value of a name that is not set"); }
      if (g && strcmp (g, V[i])) { told ("getenv (\"%s\") -> \"%s\", expected \"%s\"", names[j], g, V[i]); fail ("wrong value"); }
    }
  int c = 0; while (mes_environ[c]) { if (!strchr (mes_environ[c] + 0, '=')) fail ("an entry without ="); c++; }
  if (c != n) { told ("%d entries, expected %d", c, n); fail ("wrong number of entries"); }
}
static void value_for (char *v) { int l = rnd (5) ? rnd (12) : rnd (250); for (int i = 0; i < l; i++) v[i] = rnd (6) ? 33 + rnd (90) : '='; v[l] = 0; }
static void scenario (int size, int steps)
{
  used = 0; refuse = 0; n = size; story[0] = 0; told ("environment");
  char **e = (char **) guard_end (0, (size + 1) * sizeof (char *));
  static char store[64][400];
  for (int i = 0; i < size; i++)
    { strcpy (K[i], names[rnd (NN)]); value_for (V[i]); sprintf (store[i], "%s=%s", K[i], V[i]); e[i] = store[i]; told (" %s", store[i]); }
  e[size] = 0; mes_environ = e; told ("; ");
  agree ();
  for (int s = 0; s < steps; s++)
    {
      char const *k = names[rnd (NN)]; char nm[64]; strcpy (nm, k); char *gk = strcpy ((char *) guard_end (1, strlen (k) + 1), k);
      if (rnd (3))
        {
          static char v[400]; value_for (v); char *gv = strcpy ((char *) guard_end (2, strlen (v) + 1), v);
          int over = rnd (3) ? 1 + rnd (2) : 0, r = 0, i = at (k), used0 = used; refuse = rnd (6) ? 0 : 1 + rnd (2); int ref = refuse;
          if (n >= 60 || used > SLOTS - 4) break;
          told ("setenv (\"%s\", \"%s\", %d)%s; ", k, v, over, refuse == 1 ? " without memory" : refuse ? " without memory for the second block" : "");
          RUN (r = mes_setenv (gk, gv, over));
          int failed = ref && !refuse; refuse = 0;
          if (strcmp (gk, k) || strcmp (gv, v)) fail ("changes its arguments");
          /* the caller may reuse its strings */
          memset (gk, 'Z', strlen (k)); memset (gv, 'Y', strlen (v));
          if (failed) { if (r == 0) fail ("reports success without memory"); }
          else if (r != 0) fail ("reports failure");
          else if (i >= 0 && over) strcpy (V[i], v);
          else if (i < 0) { strcpy (K[n], k); strcpy (V[n++], v); }
        }
      else
        {
          told ("unsetenv (\"%s\"); ", k); RUN (mes_unsetenv (gk)); int m = 0;
          for (int i = 0; i < n; i++) if (strcmp (K[i], nm)) { if (m != i) { strcpy (K[m], K[i]); strcpy (V[m], V[i]); } m++; }
          n = m;
        }
      agree ();
    }
}
int main (int argc, char **argv)
{
  init (argc, argv);
  pool = mmap (0, (size_t) SLOTS * 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < SLOTS; i++) mprotect (pool + (size_t) (2 * i + 1) * PG, PG, PROT_NONE);
  for (int t = 0; t < 800; t++) { scenario (rnd (9), 1 + rnd (6)); if (t % 20 == 0) scenario (rnd (30), 60); }
  return done ();
}
