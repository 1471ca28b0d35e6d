/* Common part of the replay programs: run the real functions of /repo
   (compiled from its current tree, every symbol prefixed "mes_") on concrete
   inputs and compare with an executable reading of the contract.
   First disagreement: prints "FAIL ..." and exits 1. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>

static unsigned long seed = 1;
static unsigned long evaluations;
static unsigned rnd (unsigned n) { seed = seed * 6364136223846793005UL + 1442695040888963407UL; return n ? (unsigned) (seed >> 33) % n : 0; }
static unsigned long rnd64 (void) { return ((unsigned long) rnd (1u << 31) << 42) ^ ((unsigned long) rnd (1u << 31) << 21) ^ rnd (1u << 31); }

#define PAGES 24
#define PG 4096
/* a block of n bytes that ends right before (or starts right after) an inaccessible page */
static unsigned char *guard_base[8];
static unsigned char *guard_end (int slot, size_t n)
{
  if (!guard_base[slot])
    {
      unsigned char *p = mmap (0, (PAGES + 2) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
      mprotect (p, PG, PROT_NONE); mprotect (p + (PAGES + 1) * PG, PG, PROT_NONE);
      guard_base[slot] = p + PG;
    }
  return guard_base[slot] + PAGES * PG - n;
}
static unsigned char *guard_start (int slot) { guard_end (slot, 0); return guard_base[slot]; }

static sigjmp_buf trap;
static volatile int trapped;
static volatile int armed;
static void on_signal (int s) { trapped = s; if (!armed) { static char m[] = "FAIL fault during set-up\n"; write (1, m, sizeof m - 1); _exit (1); } siglongjmp (trap, 1); }
static char altstk[65536];
static void init (int argc, char **argv)
{
  if (argc > 1) seed = strtoul (argv[1], 0, 0) * 2654435761u + 12345;
  stack_t ss; memset (&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack (&ss, 0);
  struct sigaction sa; memset (&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction (SIGSEGV, &sa, 0); sigaction (SIGBUS, &sa, 0); sigaction (SIGFPE, &sa, 0); sigaction (SIGALRM, &sa, 0); sigaction (SIGABRT, &sa, 0); sigaction (SIGILL, &sa, 0);
  setvbuf (stdout, 0, _IOLBF, 0);
}
static char descr[65536];
static void fail (char const *what)
{
  alarm (0);
  printf ("FAIL %s: %s\n", what, descr);
  exit (1);
}
/* run a call; a fault or an endless loop (20 s) is a failure */
#define RUN(call) do { evaluations++; alarm (20); armed = 1; if (sigsetjmp (trap, 1) == 0) { call; } else fail (trapped == SIGALRM ? "does not terminate" : "faults (access outside the objects it was given, or abort)"); armed = 0; alarm (0); } while (0)
static char *hex (unsigned char const *p, size_t n)
{
  static char ring[8][8300]; static int k; char *b = ring[k++ & 7]; size_t i, o = 0;
  o += sprintf (b + o, "\"");
  for (i = 0; i < n && i < 1000; i++)
    if (p[i] >= 32 && p[i] < 127 && p[i] != '"' && p[i] != '\\') b[o++] = p[i]; else o += sprintf (b + o, "\\x%02x", p[i]);
  sprintf (b + o, "\"%s", n > 1000 ? "..." : ""); return b;
}
#define D(...) snprintf (descr, sizeof descr, __VA_ARGS__)
static int done (void) { printf ("OK evaluations=%lu\n", evaluations); return 0; }
