#include "h.h"
#include "k.h"
extern int mes_errno;
static long ret;
static long kernel (long nr, long *a) { return ret; }
typedef long (*F) (long, long, long, long);
#define S(n, nr, a, r) extern long mes_##n ();
#include "L13.h"
#undef S
/* name, number on x86_64, argument kinds (l word, i int, 0 constant zero), result (i int, l long, u unsigned) */
static struct { char *name; F f; long nr; char *args; char res; } T[] = {
#define S(n, nr, a, r) { #n, (F) mes_##n, nr, a, r },
#include "L13.h"
};
int main (int argc, char **argv)
{
  init (argc, argv);
  if (!k_init ()) { printf ("no system-call dispatch here\n"); return done (); }
  long rets[] = { 0, 1, 2, 3, 5, 77, 4095, 65536, 2147483647, -1, -2, -4, -9, -11, -12, -13, -14, -17, -20, -22, -38, -71, -255, -256, -4094, -4095, 2147483648L, 1L << 40 };
  long vals[] = { 0, 1, 2, 3, 7, 0644, 0777, 4096, -1, -2, -100, 2147483647, -2147483648L };
  for (int i = 0; i < sizeof T / sizeof *T; i++) for (int k = 0; k < sizeof rets / sizeof *rets; k++) for (int t = 0; t < 12; t++)
    {
      long a[4], r; ret = rets[k];
      if (ret > 2147483647 && T[i].res != 'l') continue;
      for (int j = 0; j < 4; j++) { a[j] = vals[rnd (13)]; if (j < strlen (T[i].args) && T[i].args[j] == 'l' && rnd (2)) a[j] = rnd64 (); }
      if (!strcmp (T[i].name, "getdents") && 0) continue;
      k_count = 0; mes_errno = 99;
      D ("%s (%ld, %ld, %ld), kernel answers %ld", T[i].name, a[0], a[1], a[2], ret);
      RUN (r = T[i].f (a[0], a[1], a[2], a[3]));
      if (k_count != 1) fail ("not exactly one system call");
      if (k_log[0].nr != T[i].nr) fail ("wrong system call number");
      for (int j = 0; T[i].args[j]; j++)
        if (T[i].args[j] == 'l' ? k_log[0].a[j] != a[j] : T[i].args[j] == 'i' ? (int) k_log[0].a[j] != (int) a[j] : k_log[0].a[j] != 0) fail ("wrong argument passed to the kernel");
      long w = ret < 0 ? -1 : ret;
      if (T[i].res == 'l' ? r != w : (int) r != (int) w) fail ("wrong result");
      if (ret < 0 ? mes_errno != -ret : mes_errno != 0) fail ("wrong errno");
    }
  return done ();
}
