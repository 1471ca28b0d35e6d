#include "h.h"
#define F(n) int mes_##n (int);
F(isalnum) F(isalpha) F(isascii) F(iscntrl) F(isdigit) F(isgraph) F(islower) F(isprint) F(ispunct) F(isspace) F(isupper) F(isxdigit) F(tolower) F(toupper) int mes_isnumber (int, int);
static int dig (int c) { return c >= '0' && c <= '9'; } static int lo (int c) { return c >= 'a' && c <= 'z'; } static int up (int c) { return c >= 'A' && c <= 'Z'; }
#define C(f, e) do { int r; D (#f " (%d)", c); RUN (r = mes_##f (c)); if (!r != !(e)) fail ("wrong class"); } while (0)
int main (int argc, char **argv)
{
  init (argc, argv);
  for (int c = -1; c < 256; c++) {
    C (isdigit, dig (c)); C (islower, lo (c)); C (isupper, up (c)); C (isalpha, lo (c) || up (c)); C (isalnum, dig (c) || lo (c) || up (c)); C (isascii, c >= 0 && c < 128);
    C (iscntrl, (c >= 0 && c < 32) || c == 127); C (isgraph, c > 32 && c < 127); C (isprint, c >= 32 && c < 127); C (isspace, c == 32 || (c >= 9 && c <= 13));
    C (ispunct, c > 32 && c < 127 && !dig (c) && !lo (c) && !up (c)); C (isxdigit, dig (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
    int r; D ("tolower (%d)", c); RUN (r = mes_tolower (c)); if (r != (up (c) ? c + 32 : c)) fail ("wrong value"); D ("toupper (%d)", c); RUN (r = mes_toupper (c)); if (r != (lo (c) ? c - 32 : c)) fail ("wrong value");
    for (int b = 2; b <= 36; b++) { int v = dig (c) ? c - '0' : lo (c) ? c - 'a' + 10 : up (c) ? c - 'A' + 10 : 99; D ("isnumber (%d, %d)", c, b); RUN (r = mes_isnumber (c, b)); if (!r != !(v < b)) fail ("wrong class"); } }
  return done ();
}
