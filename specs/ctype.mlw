(* Character classes of the C locale, as explicit sets. *)
module Ctype
  use int.Int
  predicate c_digit (c: int) = 48 <= c <= 57
  predicate c_lower (c: int) = 97 <= c <= 122
  predicate c_upper (c: int) = 65 <= c <= 90
  predicate c_alpha (c: int) = c_lower c \/ c_upper c
  predicate c_alnum (c: int) = c_alpha c \/ c_digit c
  predicate c_xdigit (c: int) = c_digit c \/ 97 <= c <= 102 \/ 65 <= c <= 70
  predicate c_space (c: int) = c = 32 \/ 9 <= c <= 13
  predicate c_cntrl (c: int) = 0 <= c <= 31 \/ c = 127
  predicate c_print (c: int) = 32 <= c <= 126
  predicate c_graph (c: int) = 33 <= c <= 126
  predicate c_punct (c: int) = 33 <= c <= 47 \/ 58 <= c <= 64 \/ 91 <= c <= 96 \/ 123 <= c <= 126
  predicate c_ascii (c: int) = 0 <= c <= 127
  function lower (c: int) : int = if 65 <= c <= 90 then c + 32 else c
  function upper (c: int) : int = if 97 <= c <= 122 then c - 32 else c
  function digitval (c: int) : int = if 48 <= c <= 57 then c - 48 else if 97 <= c <= 122 then c - 87 else if 65 <= c <= 90 then c - 55 else 99
end
