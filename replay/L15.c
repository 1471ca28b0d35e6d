#include "h.h"
char *mes_search_path (char const *); int mes_execvp (char const *, char *const *);
extern char **mes_environ; extern int mes_errno;
#define SLOTS 8
static unsigned char *pool; static int used, refuse;
void *mes_malloc (size_t n)
{
  if (refuse && !--refuse) return 0;
  if (used == SLOTS || n > PG) return 0;
  unsigned char *p = pool + (size_t) used++ * 2 * PG; memset (p, 0xa5, PG); return p + PG - n;
}
void mes_free (void *p) {}
/* the file system: the names that can be executed; paths tried are recorded */
static char fs[64][3000]; static int nfs; static char tried[64][3000]; static int ntried;
int mes_access (char const *s, int how)
{
  if (how != 1) { armed = 0; fail ("asks for something else than execution"); }
  snprintf (tried[ntried++ & 63], 3000, "%s", s);
  for (int i = 0; i < nfs; i++) if (!strcmp (fs[i], s)) { mes_errno = 0; return 0; }
  mes_errno = ENOENT; return -1;
}
static char ran[4000]; static int runs; static char *const *ran_argv, *const *ran_env;
int mes_execve (char const *f, char *const argv[], char *const env[]) { snprintf (ran, sizeof ran, "%s", f); runs++; ran_argv = argv; ran_env = env; mes_errno = ENOEXEC; return -1; }
static char const *dirs[] = { "/bin", "/usr/bin", "", ".", "/", "/opt/x/", "bin", "//", "/bi", "/bin/ls" };
static char const *files[] = { "ls", "l", "sh", "a-program", "" };
static void join (char *to, char const *dir, int l, char const *f)
{
  memcpy (to, dir, l); if (l && dir[l - 1] != '/') to[l++] = '/'; strcpy (to + l, f);
}
int main (int argc, char **argv)
{
  init (argc, argv);
  pool = mmap (0, (size_t) SLOTS * 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < SLOTS; i++) mprotect (pool + (size_t) (2 * i + 1) * PG, PG, PROT_NONE);
  for (int t = 0; t < 20000; t++)
    {
      static char path[4000], want[4000], cand[4000], name[300]; char *env[4]; int unset = t % 50 == 0; used = 0; refuse = t % 97 == 0;
      strcpy (path, "PATH="); int k = rnd (6);
      for (int i = 0; i <= k; i++)
        {
          if (i) strcat (path, ":");
          strcat (path, dirs[rnd (10)]);
          if (rnd (60) == 0) { int l = rnd (600); char *p = path + strlen (path); *p++ = '/'; memset (p, 'd', l); p[l] = 0; }
        }
      strcpy (name, files[rnd (5)]); if (rnd (60) == 0) { memset (name, 'n', 250); name[250] = 0; }
      int slash = rnd (15) == 0; if (slash) strcpy (name, rnd (2) ? "./prog" : "/bin/ls");
      nfs = 0;
      for (char *p = path + 5;;)
        {
          char *e = strchrnul (p, ':'); join (cand, p, e - p, name);
          if (rnd (3) == 0 && nfs < 60) strcpy (fs[nfs++], cand);
          if (rnd (8) == 0 && nfs < 60) snprintf (fs[nfs++], 3000, "/%s", name);
          if (!*e) break; p = e + 1;
        }
      *want = 0; int found = 0;
      if (!unset)
        for (char *p = path + 5;;)
          {
            char *e = strchrnul (p, ':'); join (cand, p, e - p, name);
            for (int i = 0; i < nfs; i++) if (!strcmp (fs[i], cand)) found = 1;
            if (found) { strcpy (want, cand); break; }
            if (!*e) break; p = e + 1;
          }
      /* at the end of readable memory, after a neighbour */
      char *gp = strcpy ((char *) guard_end (0, strlen (path) + 1), path), *gn = strcpy ((char *) guard_end (1, strlen (name) + 1), name);
      int j = 0; env[j++] = "PATHS=/wrong"; env[j++] = "PAT=/wrong"; if (!unset) env[j++] = gp; env[j] = 0; mes_environ = env;
      char *files_text = descr; D ("%s, program %s%s, %d executables: %s %s", unset ? "PATH unset" : path, name, refuse ? ", no memory" : "", nfs, nfs > 0 ? fs[0] : "", nfs > 1 ? fs[1] : "");
      char *av[] = { "prog", "arg", 0 }; int r = 7, none = refuse && !unset; runs = 0; mes_errno = 0;
      if (t & 1)
        {
          RUN (r = mes_execvp (gn, av));
          if (slash) { if (runs != 1 || strcmp (ran, name)) fail ("does not execute the name itself"); }
          else if (!found || none) { if (runs) fail ("executes something although nothing was found"); if (r != -1 || mes_errno != ENOENT) fail ("does not report that nothing was found"); }
          else if (runs != 1 || strcmp (ran, want)) { static char m[9000]; snprintf (m, sizeof m, "executes \"%s\", expected \"%s\"", runs ? ran : "(nothing)", want); fail (m); }
          if (runs && (ran_argv != av || ran_env != env)) fail ("passes other arguments or another environment");
          if (runs && r != -1) fail ("hides the failure of the system call");
        }
      else if (!slash)
        {
          char *s = 0; RUN (s = mes_search_path (gn));
          if (!found || none) { if (s) fail ("finds something"); }
          else if (!s) fail ("finds nothing");
          else if (strcmp (s, want)) { static char m[9000]; snprintf (m, sizeof m, "finds \"%s\", expected \"%s\"", s, want); fail (m); }
        }
      if (strcmp (gp, path) || strcmp (gn, name)) fail ("changes its arguments or the environment");
    }
  return done ();
}
