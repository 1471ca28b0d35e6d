#include "s.h"
scm *mes_make_hash_table (scm *), *mes_make_hash_table_ (long), *mes_hash_ref (scm *, scm *, scm *), *mes_hash_set_x (scm *, scm *, scm *), *mes_hashq_ref (scm *, scm *, scm *), *mes_hashq_set_x (scm *, scm *, scm *), *mes_hashq_get_handle (scm *, scm *, scm *);
int mes_hash_cstring (char const *, long), mes_hashq_ (scm *, long), mes_hash_ (scm *, long);
typedef struct { scm *table; int q, n; scm *key[4000], *value[4000]; } tab;
static tab t[3];
static int str_same (scm *a, scm *b) { return a->carv == b->carv && memcmp ((char *) a->cdr + 16, (char *) b->cdr + 16, a->carv) == 0; }
static int find (tab *u, scm *k) { int i; for (i = 0; i < u->n; i++) if (u->q ? u->key[i] == k : str_same (u->key[i], k)) return i; return -1; }
static char *rnd_name (char *b)
{
  int n = rnd (4) ? rnd (4) : rnd (12), i, w = rnd (3);
  for (i = 0; i < n; i++) b[i] = w == 0 ? rnd (256) : w == 1 ? "ab\x80\xff"[rnd (4)] : "ab"[rnd (2)];
  b[n] = 0; return b + n;
}
static scm *rnd_key (int q)
{
  char b[100]; char *e = rnd_name (b);
  if (!q) return mes_make_string (b, e - b);
  if (rnd (9) == 0) return rnd (2) ? T : nil;
  if (rnd (9) == 0) return mk_like_string (TSYMBOL, b, e - b);
  return mes_cstring_to_symbol (b);
}
int main (int argc, char **argv)
{
  long k; int i, j; scm *r; mes_start (argc, argv);
  for (k = 0; k < 200000; k++)
    { /* every hash value is a bucket number */
      char b[100]; long size = rnd (3) ? 1 + rnd (5) : 1 + (rnd64 () % 1000000000); int h; rnd_name (b);
      D ("hash_cstring %s, %ld buckets", hex ((unsigned char *) b, strlen (b)), size);
      RUN (h = mes_hash_cstring (b, size)); if (h < 0 || h >= size) fail ("the hash value is no bucket number");
      int h2; char b2[100]; memset (b2, 'z', 90); strcpy (b2, b); RUN (h2 = mes_hash_cstring (b2, size)); if (h2 != h) fail ("equal names hash differently");
    }
  for (k = 0; k < 60; k++)
    {
      heap_reset ();
      for (j = 0; j < 3; j++)
        {
          long size = rnd (3) == 0 ? 0 : 1 + rnd (rnd (2) ? 3 : 300); t[j].q = j == 2 ? rnd (2) : j; t[j].n = 0;
          scm *args = rnd (2) ? mes_cons (mes_make_number (size), nil) : size == 0 ? nil : 0;
          snap (); D ("make-hash-table %ld", size);
          if (args) TRY (t[j].table = mes_make_hash_table (args)); else TRY (t[j].table = mes_make_hash_table_ (size));
          if (err) fail ("make-hash-table reports an error"); if (!unchanged (0, 0)) fail ("an existing object changed");
          if (t[j].table < shot_free || t[j].table->type != TSTRUCT) fail ("no new record");
        }
      for (i = 0; i < 900 && mes_g_free - mes_g_cells < 50000; i++)
        {
          tab *u = t + rnd (3); scm *key, *v, *d; int at;
          if (rnd (12) == 0)
            { do key = rnd_obj (any_type ()); while (u->q ? key->type == TSYMBOL || key->type == TSPECIAL : key->type == TSTRING);
              int set = rnd (2); D ("%s on key %s", set ? "set" : "ref", show (key));
              scm *cells[2] = { u->table, key }; snap ();
              if (set) TRY (r = (u->q ? mes_hashq_set_x : mes_hash_set_x) (u->table, key, T)); else TRY (r = (u->q ? mes_hashq_ref : mes_hash_ref) (u->table, key, F));
              if (!err) fail ("a key of the wrong type is not reported"); if (memcmp (cells[0], was (cells[0]), 24) || memcmp (key, was (key), 24)) fail ("an argument changed"); continue; }
          key = u->n && rnd (3) ? u->key[rnd (u->n)] : rnd_key (u->q);
          if (!u->q && rnd (2)) key = mk_like_string (TSTRING, (char *) key->cdr + 16, key->carv);
          at = find (u, key);
          if (rnd (2))
            {
              v = rnd (20) == 0 ? F : rnd_atom (); D ("%s key %s value %s, entry %d of %d", u->q ? "hashq-set!" : "hash-set!", show (key), show (v), at, u->n);
              scm *buckets = u->table->cdr[4].car; int c = 0; scm *x, *o = 0; snap ();
              TRY (r = (u->q ? mes_hashq_set_x : mes_hash_set_x) (u->table, key, v));
              if (err) fail ("an error is reported"); if (r != v) fail ("the result is not the value");
              for (x = mes_g_cells; x < shot_free; x++) if (memcmp (x, was (x), 24)) c++, o = x;
              if (c != 1 || o < buckets->cdr || o >= buckets->cdr + buckets->carv) fail ("something other than one bucket changed");
              if (at < 0) at = u->n++; u->key[at] = key; u->value[at] = v;
            }
          else
            {
              int h = u->q && rnd (3) == 0; d = rnd (3) ? F : rnd (2) ? mes_cons (rnd_atom (), nil) : nil; scm *want = at >= 0 ? u->value[at] : d->type == TPAIR ? d->car : F;
              D ("%s key %s default %s, entry %d of %d", h ? "hashq-get-handle" : u->q ? "hashq-ref" : "hash-ref", show (key), show (d), at, u->n); snap ();
              TRY (r = (h ? mes_hashq_get_handle : u->q ? mes_hashq_ref : mes_hash_ref) (u->table, key, d));
              if (err) fail ("an error is reported");
              if (h && at >= 0) { if (r->type != TPAIR || r->car != key || r->cdr != want) fail ("wrong handle"); }
              else if (r != want) { D ("key %s: got %s, wanted %s", show (key), show (r), show (want)); fail (at >= 0 ? "not the value last stored" : "not the default"); }
              if (!unchanged (0, 0)) fail ("an existing object changed");
            }
        }
    }
  D ("make-hash-table of a string"); TRY (r = mes_make_hash_table (mes_cons (rnd_string (TSTRING, 3), nil))); if (!err) fail ("not reported");
  return done ();
}
