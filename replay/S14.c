#include "s.h"
scm *mes_car (scm *), *mes_cdr (scm *), *mes_set_car_x (scm *, scm *), *mes_set_cdr_x (scm *, scm *), *mes_string_equal_p (scm *, scm *), *mes_string_length (scm *), *mes_string_ref (scm *, scm *), *mes_string_append (scm *),
  *mes_make_vector (scm *), *mes_vector_length (scm *), *mes_vector_ref (scm *, scm *), *mes_vector_set_x (scm *, scm *, scm *), *mes_vector_to_list (scm *), *mes_struct_length (scm *), *mes_struct_ref (scm *, scm *), *mes_struct_set_x (scm *, scm *, scm *), *mes_append2 (scm *, scm *), *mes_append_reverse (scm *, scm *), *mes_reverse_x_ (scm *, scm *);
scm *mes_plus (scm *), *mes_minus (scm *), *mes_multiply (scm *), *mes_divide (scm *), *mes_modulo (scm *, scm *), *mes_logand (scm *), *mes_logior (scm *), *mes_logxor (scm *), *mes_lognot (scm *), *mes_ash (scm *, scm *);
static scm *r, *x, *y, *z; static int t1, t2;
#define CHECK(name, call, ok) do { D (name " applied to %s (%s), %s (%s)", tname (x), show (x), tname (y), show (y)); TRY (r = call); \
   if (!(ok)) { if (!err) fail (name ": a wrong type is not reported"); if (memcmp (x, was (x), 24) || memcmp (y, was (y), 24)) fail (name ": an object of the wrong type was overwritten"); } else if (err) fail (name ": error for the right types"); } while (0)
int main (int argc, char **argv)
{
  int k; mes_start (argc, argv);
  for (k = 0; k < 6; k++) for (t1 = 0; t1 < 17; t1++) for (t2 = 0; t2 < 17; t2++)
    {
      heap_reset ();
      x = rnd_obj (t1); y = rnd_obj (t2); z = rnd_atom (); scm *zero = mes_make_number (0); scm *two = mes_cons (x, mes_cons (y, nil)), *one = mes_cons (x, nil), *ab = mes_make_string ("ab", 2), *v3 = mes_make_vector_ (3, nil), *s3 = mes_make_vector_ (3, nil), *m1 = mes_make_number (1); s3->type = TSTRUCT; snap ();
      CHECK ("car", mes_car (x), t1 == TPAIR); CHECK ("cdr", mes_cdr (x), t1 == TPAIR);
      if (t1 != TPAIR) { CHECK ("set-car!", mes_set_car_x (x, z), 0); CHECK ("set-cdr!", mes_set_cdr_x (x, z), 0); }
      CHECK ("string=?", mes_string_equal_p (x, y), t1 == t2 && (t1 == TSTRING || t1 == TKEYWORD));
      CHECK ("string-length", mes_string_length (x), t1 == TSTRING);
      CHECK ("string-append", mes_string_append (two), t1 == TSTRING && t2 == TSTRING);
      CHECK ("string-ref", mes_string_ref (x, y), t1 == TSTRING && t2 == TNUMBER && 0 <= y->cdrv && y->cdrv < x->carv);
      CHECK ("string-ref", mes_string_ref (ab, y), t2 == TNUMBER && 0 <= y->cdrv && y->cdrv < 2);
      if (t1 != TNUMBER) CHECK ("make-vector", mes_make_vector (one), 0);
      CHECK ("vector-length", mes_vector_length (x), t1 == TVECTOR);
      CHECK ("vector->list", mes_vector_to_list (x), t1 == TVECTOR);
      CHECK ("vector-ref", mes_vector_ref (x, y), t1 == TVECTOR && t2 == TNUMBER && 0 <= y->cdrv && y->cdrv < x->carv);
      CHECK ("vector-ref", mes_vector_ref (x, zero), t1 == TVECTOR && 0 < x->carv);
      CHECK ("vector-ref", mes_vector_ref (v3, y), t2 == TNUMBER && 0 <= y->cdrv && y->cdrv < 3);
      if (t1 != TVECTOR) CHECK ("vector-set!", mes_vector_set_x (x, zero, z), 0);
      if (t2 != TNUMBER) CHECK ("vector-set!", mes_vector_set_x (v3, y, z), 0);
      CHECK ("struct-length", mes_struct_length (x), t1 == TSTRUCT);
      CHECK ("struct-ref", mes_struct_ref (x, zero), t1 == TSTRUCT);
      CHECK ("struct-ref", mes_struct_ref (s3, y), t2 == TNUMBER && 0 <= y->cdrv && y->cdrv < 3);
      if (t1 != TSTRUCT) CHECK ("struct-set!", mes_struct_set_x (x, zero, z), 0);
      if (t2 != TNUMBER) CHECK ("struct-set!", mes_struct_set_x (s3, y, z), 0);
      if (x != nil && t1 != TPAIR) { CHECK ("append", mes_append2 (x, z), 0); CHECK ("append-reverse", mes_append_reverse (x, z), 0); CHECK ("reverse!", mes_reverse_x_ (x, z), 0); }
    }
  return done ();
}
