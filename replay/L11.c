#include "h.h"
#include "k.h"
typedef long FS;
extern char **mes_environ; extern int mes_errno; extern void *mes___read_cache, *mes___ungetc_buf, *mes___brk;
long mes_read (int, void *, size_t); long mes_write (int, void const *, size_t); long mes_lseek (int, long, int); int mes_close (int); int mes__open3 (char const *, int, int);
int mes_fdgetc (int); int mes_fdungetc (int, int); char *mes_fdgets (char *, int, int); size_t mes_fread (void *, size_t, size_t, FS); int mes_getc (FS); int mes_fgetc (FS); int mes_ungetc (int, FS); char *mes_fgets (char *, int, FS);
/* the files behind the descriptors */
#define NFD 9
#define LEN 1500
static int fds[NFD] = { 0, 1, 3, 4, 5, 17, 511, 512, 700 };
static unsigned char data[NFD][LEN]; static long kpos[NFD]; static int seekable[NFD], text[NFD];
static int trouble, got_eof, got_err, wrote_at, errno_of;
static char *arena, *brk_now;
#define ARENA (1 << 20)
static int idx (int fd) { for (int i = 0; i < NFD; i++) if (fds[i] == fd) return i; return -1; }
static int opened;
static int byte (void) { int c = 1 + rnd (255); return c == 0x5b ? 255 : c; }
static void fill (int i) { text[i] = rnd (2); for (int j = 0; j < LEN; j++) data[i][j] = text[i] && rnd (9) == 0 ? '\n' : byte (); kpos[i] = 0; seekable[i] = rnd (3) != 0; }
static long kernel (long nr, long *a)
{
  int i = idx ((int) a[0]);
  if (nr == 12) { if (a[0] >= (long) arena && a[0] <= (long) arena + ARENA) brk_now = (char *) a[0]; return (long) brk_now; }
  if (nr == 2) { return opened; }
  if (i < 0) { got_err = 9; return -9; }
  if (nr == 0)
    {
      long n = a[2];
      if (trouble && rnd (6) == 0) { got_err = rnd (2) ? 4 : 5; return -got_err; }
      if (trouble && rnd (3) == 0 && n > 1) n = 1 + rnd (n < 200 ? n : 200);
      if (n > LEN - kpos[i]) n = LEN - kpos[i];
      if (n <= 0) { if (a[2]) got_eof = 1; return 0; }
      memcpy ((void *) a[1], data[i] + kpos[i], n); kpos[i] += n; return n;
    }
  if (nr == 1)
    {
      long n = a[2];
      if (trouble && rnd (6) == 0) { got_err = 5; return -5; }
      if (trouble && rnd (3) == 0 && n > 1) n = 1 + rnd (n);
      wrote_at = kpos[i];
      if (seekable[i]) { if (n > LEN - kpos[i]) n = LEN - kpos[i]; memcpy (data[i] + kpos[i], (void *) a[1], n); kpos[i] += n; }
      return n;
    }
  if (nr == 8)
    {
      if (!seekable[i]) { got_err = 29; return -29; }
      long p = a[2] == 0 ? a[1] : a[2] == 1 ? kpos[i] + a[1] : a[2] == 2 ? LEN + a[1] : -1;
      if (p < 0 || p > LEN) { got_err = 22; return -22; }
      return kpos[i] = p;
    }
  if (nr == 3) return 0;
  got_err = 38; return -38;
}
static long lp[NFD]; static int pend[NFD];
static unsigned char *blk; static unsigned char spare[8192];
static char *hist; static char hbuf[1 << 20];
#define NOTE(...) (hist += snprintf (hist, 200, __VA_ARGS__))
int main (int argc, char **argv)
{
  init (argc, argv);
  static char env[64]; char *envp[] = { "A=1", env, 0 };
  arena = mmap (0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0);
  if (!k_init ()) { printf ("no system-call dispatch here\n"); return done (); }
  for (int t = 0; t < 3000; t++)
    {
      memset (arena, 0, ARENA); brk_now = arena + rnd (16); mes___brk = 0; mes___read_cache = mes___ungetc_buf = 0; hist = hbuf; *hist = 0;
      mes_environ = envp; int how = rnd (4); if (how == 0) strcpy (env, "B=2"); else if (how == 1) sprintf (env, "MES_READ_BUFFER=%d", rnd (300) - 20); else sprintf (env, "MES_READ_BUFFER=%d", rnd (12));
      trouble = rnd (3); int many = 1 + rnd (NFD);
      for (int i = 0; i < NFD; i++) { fill (i); lp[i] = 0; pend[i] = -1; }
      NOTE ("%s;", env);
      for (int s = 0; s < 60; s++)
        {
          int i = rnd (many), fd = fds[i], op = rnd (14), n = rnd (3) == 0 ? rnd (700) : rnd (3) ? rnd (20) : rnd (150), r, c; char *p; long l;
          if (many == NFD && rnd (12) == 0) { i = -1; fd = rnd (2) ? -1 : 1000; op = rnd (2) ? 0 : 4; }
          blk = guard_end (0, n); memset (blk - 16, 0x5b, n + 16); memset (spare, 0, sizeof spare);
          got_eof = got_err = 0; wrote_at = -1; mes_errno = 77;
#define CALL(call, ...) do { NOTE (__VA_ARGS__); size_t z = strlen (hbuf); snprintf (descr, sizeof descr, "seekable %d%d%d%d%d, calls %s%s", seekable[0], seekable[1], seekable[2], seekable[3], seekable[4], z > 3000 ? "..." : "", z > 3000 ? hbuf + z - 3000 : hbuf); RUN (call); } while (0)
#define AROUND() do { for (int q = 1; q <= 16; q++) if (blk[-q] != 0x5b) fail ("writes before the block"); } while (0)
          switch (op)
            {
            case 0: case 1: case 2:
              CALL (l = mes_read (fd, blk, n), " read(%d,%d)", fd, n);
              AROUND ();
              if (l < -1 || l > n) fail ("read returns something else than -1..size");
              if (i < 0 && l != -1 && n) fail ("read succeeds on a descriptor that is not open");
              if (l == -1 && (!got_err || mes_errno != got_err)) fail ("read reports an error that the system did not report");
              if (l == 0 && n && !got_eof) fail ("read reports the end of the file before the end");
              for (long q = 0; i >= 0 && q < l; q++) if (blk[q] != data[i][lp[i] + q]) fail ("read delivers other bytes than the file's next ones");
              for (long q = l < 0 ? 0 : l; q < n; q++) if (blk[q] != 0x5b) fail ("read changes bytes behind those it delivers");
              if (l > 0) lp[i] += l;
              break;
            case 3: case 4: case 5:
              if (rnd (2)) { CALL (c = mes_fdgetc (fd), " fdgetc(%d)", fd); } else if (rnd (2)) { CALL (c = mes_getc (fd), " getc(%d)", fd); } else { CALL (c = mes_fgetc (fd), " fgetc(%d)", fd); }
              if (i < 0) { if (c != -1) fail ("a character from a descriptor that is not open"); break; }
              if (pend[i] >= 0) { if (c != pend[i]) fail ("not the character that was pushed back"); pend[i] = -1; }
              else if (c == -1) { if (!got_eof && !got_err) fail ("end of file before the end"); }
              else { if (c != data[i][lp[i]]) fail ("not the file's next character"); lp[i]++; }
              break;
            case 6: case 7:
              c = byte (); if (rnd (10) == 0) c = -1;
              if (pend[i] >= 0 && c >= 0) break;
              if (rnd (2)) { CALL (r = mes_fdungetc (c, fd), " fdungetc(%d,%d)", c, fd); } else { CALL (r = mes_ungetc (c, fd), " ungetc(%d,%d)", c, fd); }
              if (fd > 512) { if (r != -1) fail ("pushed back on a descriptor outside of the table"); break; }
              if (r != c) fail ("push-back does not return the character");
              if (c >= 0) pend[i] = c;
              break;
            case 8:
              if (rnd (2)) { CALL (p = mes_fdgets (blk, n, fd), " fdgets(%d,%d)", n, fd); } else { CALL (p = mes_fgets (blk, n, fd), " fgets(%d,%d)", n, fd); }
              AROUND ();
              if (!p) { if (n && !got_eof && !got_err) fail ("no line, but no end of file"); if (n && pend[i] >= 0) fail ("no line, but a character was pushed back"); break; }
              if ((unsigned char *) p != blk) fail ("does not return the block");
              {
                int k = 0, last = 0;
                for (;; k++)
                  {
                    if (k == n - 1 || last == '\n') break;
                    int w = pend[i] >= 0 && !k ? pend[i] : lp[i] < LEN ? data[i][lp[i]] : -1;
                    if (w < 0 || blk[k] == 0) break;
                    if (blk[k] != w) fail ("not the file's next characters");
                    if (pend[i] >= 0 && !k) pend[i] = -1; else lp[i]++;
                    last = w;
                  }
                if (blk[k] != 0) fail ("line not ended by a zero byte");
                if (k != n - 1 && last != '\n' && !got_eof && !got_err) fail ("line ends early");
                for (int q = k + 1; q < n; q++) if (blk[q] != 0x5b) fail ("changes bytes behind the line");
              }
              break;
            case 9: case 10:
              {
                int size = 1 + rnd (rnd (2) ? 1 : 7), count = n / size, had = pend[i] >= 0;
                blk = guard_end (0, size * count); memset (blk - 16, 0x5b, size * count + 16);
                if (rnd (20) == 0) size = 0;
                CALL (l = mes_fread (blk, size, count, fd), " fread(%d,%d,%d)", size, count, fd);
                AROUND ();
                if (!size || !count) { if (l) fail ("items although none were asked for"); break; }
                if (l < 0 || l > count) fail ("more items than asked for");
                if (l == 0 && size == 1 && !got_eof && !got_err) fail ("nothing read, but no end of file");
                if (l == 0 && size == 1 && had) fail ("the character that was pushed back is lost");
                long k = size * count; while (k > l * size && blk[k - 1] == 0x5b) k--;
                for (long q = 0; q < k; q++)
                  { int w = had && q == 0 ? pend[i] : data[i][lp[i]]; if (blk[q] != w) fail ("not the file's next bytes"); if (had && q == 0) pend[i] = -1; else lp[i]++; }
              }
              break;
            case 11:
              {
                int wh = rnd (3); long off = wh == 0 ? rnd (LEN) : wh == 1 ? (long) rnd (400) - 200 : -(long) rnd (LEN); if (rnd (8) == 0) off = -5000;
                CALL (l = mes_lseek (fd, off, wh), " lseek(%d,%ld,%d)", fd, off, wh);
                long w = wh == 0 ? off : wh == 1 ? lp[i] + off : LEN + off; if (!seekable[i] || w < 0 || w > LEN) w = -1;
                if (l != w) fail ("wrong position");
                if (l == -1 && mes_errno != got_err) fail ("wrong errno"); 
                if (l >= 0) lp[i] = l;
              }
              break;
            case 12:
              {
                static unsigned char copy[LEN]; memcpy (copy, data[i], LEN);
                for (int q = 0; q < n; q++) blk[q] = byte ();
                CALL (l = mes_write (fd, blk, n), " write(%d,%d)", fd, n);
                if (l == -1 ? mes_errno != got_err || got_err != 5 : l < 0 || l > n) fail ("wrong result of write");
                if (seekable[i] && wrote_at >= 0 && wrote_at != lp[i]) fail ("written at another position than the reader's");
                if (l > 0 && seekable[i]) { if (memcmp (data[i] + lp[i], blk, l)) fail ("other bytes written"); lp[i] += l; }
              }
              break;
            case 13:
              if (fd <= 2) break;
              CALL (r = mes_close (fd), " close(%d)", fd); if (r) fail ("close fails");
              pend[i] = -1; lp[i] = kpos[i]; fill (i); lp[i] = 0; opened = fd;
              CALL (r = mes__open3 ("x", 0, 0), " open3=%d", fd); if (r != fd) fail ("open returns another descriptor");
              break;
            }
        }
    }
  return done ();
}
