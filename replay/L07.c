#include "h.h"
long mes_abtol (char const **, int), mes_atol (char const *), mes_strtol (char const *, char **, int); int mes_atoi (char const *);
unsigned long mes_strtoul (char const *, char **, int); long long mes_strtoll (char const *, char **, int); unsigned long long mes_strtoull (char const *, char **, int);
static int dv (int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static int sp (int c) { return c == ' ' || (c >= 9 && c <= 13); }
static char *S; static size_t L;
/* reading of the contract: value modulo 2^64, whether it fits, and the end */
static unsigned long val; static int fits_l, fits_u; static char *end;
static void ref (char *s, int b, int prefix)
{
  int neg = 0; unsigned __int128 v = 0; int big = 0;
  while (sp (*s)) s++;
  if (*s == '-' || *s == '+') neg = *s++ == '-';
  if (prefix && (b == 0 || b == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dv (s[2]) < 16) { s += 2; b = 16; }
  else if (b == 0) b = prefix && *s == '0' ? 8 : 10;
  while (dv (*(unsigned char *) s) < b) { v = v * b + dv (*s++); if (v >> 64) big = 1; v &= ~0UL; }
  end = s; val = neg ? -(unsigned long) v : (unsigned long) v;
  fits_l = !big && v <= (1UL << 63) - !neg; fits_u = !big && (!neg || v == 0);
}
static void all (char const *t)
{
  char *e; char const *p; unsigned long r; L = strlen (t); S = guard_end (0, L + 1); memcpy (S, t, L + 1);
  for (int b = 0; b <= 36; b++) if (b != 1)
    {
      ref (S, b, 0);
      D ("abtol (%s, %d)", hex (S, L), b); p = S; RUN (r = mes_abtol (&p, b)); if (fits_l && r != val) fail ("wrong value"); if (p != end) fail ("wrong end of the numeral");
      ref (S, b, 1);
      D ("strtol (%s, %d)", hex (S, L), b); e = 0; RUN (r = mes_strtol (S, &e, b)); if (fits_l && r != val) fail ("wrong value"); if (e != end) fail ("wrong end of the numeral");
      RUN (r = mes_strtol (S, 0, b)); if (fits_l && r != val) fail ("wrong value");
      D ("strtoll (%s, %d)", hex (S, L), b); e = 0; RUN (r = mes_strtoll (S, &e, b)); if (fits_l && r != val) fail ("wrong value"); if (e != end) fail ("wrong end of the numeral");
      D ("strtoul (%s, %d)", hex (S, L), b); e = 0; RUN (r = mes_strtoul (S, &e, b)); if (fits_u && fits_l && r != val) fail ("wrong value"); if (e != end) fail ("wrong end of the numeral");
      D ("strtoull (%s, %d)", hex (S, L), b); e = 0; RUN (r = mes_strtoull (S, &e, b)); if (fits_u && fits_l && r != val) fail ("wrong value"); if (e != end) fail ("wrong end of the numeral");
    }
  ref (S, 10, 0);
  D ("atol (%s)", hex (S, L)); RUN (r = mes_atol (S)); if (fits_l && r != val) fail ("wrong value");
  D ("atoi (%s)", hex (S, L)); int i; RUN (i = mes_atoi (S)); if (fits_l && (long) val == (int) val && i != (int) val) fail ("wrong value");
}
int main (int argc, char **argv)
{
  init (argc, argv); char b[200];
  char const *pre[] = { "", " ", "  ", "\t\n\v\f\r ", "-", "+", " -", "\n+", "--", "+-", "- ", "0x", "0X", "-0x", " +0X", "0", "00", "-0", "x", "0x0x", "\x80", "\x1f", "\x0e", "\x08", 0 };
  char const *body[] = { "", "0", "1", "7", "8", "9", "a", "f", "F", "g", "G", "z", "Z", "@", "[", "`", "{", "/", ":", "10", "077", "abc", "ABC", "12x", "zz", "Zz9", "fF", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "7fffffffffffffff", "8000000000000000", "777777777777777777777", "1000000000000000000000", "1y2p0ij32e8e7", "1y2p0ij32e8e8", "123\x80", "0x1g", "x1", "-1", "18446744073709551615", "99999999999", "102", "12a", 0 };
  for (int i = 0; pre[i]; i++) for (int k = 0; body[k]; k++) { sprintf (b, "%s%s", pre[i], body[k]); all (b); }
  for (int t = 0; t < 6000; t++)
    {
      int n = 0, k = rnd (12); int base = 2 + rnd (35);
      for (int i = rnd (3); i > 0; i--) b[n++] = " \t\n\r\v\f"[rnd (6)];
      if (rnd (3) == 0) b[n++] = "+-"[rnd (2)];
      if (rnd (4) == 0) { b[n++] = '0'; if (rnd (2)) b[n++] = "xX"[rnd (2)]; }
      while (k-- > 0) { int d = rnd (rnd (10) ? base : 36); b[n++] = d < 10 ? '0' + d : (rnd (2) ? 'a' : 'A') + d - 10; }
      if (rnd (3) == 0) b[n++] = 1 + rnd (255);
      b[n] = 0; all (b);
    }
  return done ();
}
