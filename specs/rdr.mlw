(* The reader's input: a text of characters, -1 at its end *)
module Rdr
  use mem.Mem
  use mem.Str
  use ctype.Ctype
  use num.Num
  val constant inp : map int int
  val constant in_end : int   (* where the text ends *)
  val constant in_port : int  (* the current string port, if any *)
  val ref r_pos : int         (* the next character to be read *)
  axiom inp_range: forall i. -1 <= inp[i] <= 255
  axiom inp_end: forall i. i >= in_end -> inp[i] = -1
  axiom inp_text: forall i. i < in_end -> 0 <= inp[i]
  predicate eow (c: int) = c = 34 \/ c = 59 \/ c = 40 \/ c = 41 \/ c_space c \/ c = -1

  (* a numeral with an optional sign *)
  function lit_start (p: int) : int = if is_sign inp[p] then p + 1 else p
  function lit_value (p b: int) : int = let v = nv inp (lit_start p) (dgl inp (lit_start p) b) b in if inp[p] = 45 then 0 - v else v
  function lit_end (p b: int) : int = lit_start p + dgl inp (lit_start p) b
  (* a decimal numeral or identifier; a sign counts only before a digit *)
  function dec_start (p: int) : int = if is_sign inp[p] /\ c_digit inp[p+1] then p + 1 else p
  function dec_end (p: int) : int = dec_start p + dgl inp (dec_start p) 10
  function dec_value (p: int) : int = let v = nv inp (dec_start p) (dgl inp (dec_start p) 10) 10 in if dec_start p <> p && inp[p] = 45 then 0 - v else v
  predicate is_dec (p: int) = eow inp[dec_end p]
  predicate word_end (p q: int) = p <= q /\ eow inp[q] /\ forall a. p <= a < q -> not eow inp[a]

  let ghost hex_step (v c m: int) : unit
    ensures { cast_s64 (cast_s64 (cast_s64 (cast_s64 (cast_s64 v * 16) + c) - m) + 10) = cast_s64 (v * 16 + c - (m - 10)) }
  = num_step v 16 c m;
    let x = v * 16 + c - m in
    let j = cast64_eqv x in
    assert { cast_s64 x + 10 = (x + 10) + j * 18446744073709551616 };
    cast64_shift (x + 10) j
  let ghost dig10 (c: int) : unit ensures { digitval c < 10 <-> c_digit c } = ()
  let ghost dgl_min (q b k: int) : unit
    requires { 0 <= k /\ b <= 16 /\ forall a. q <= a < q + k -> digitval inp[a] < b }
    ensures { dgl inp q b >= k }
  = let ref n = k in
    assert { digitval (-1) >= b };
    while pure { digitval inp[q+n] < b } do
      invariant { k <= n /\ forall a. q <= a < q + n -> digitval inp[a] < b }
      variant { in_end - (q + n) }
      assert { q + n < in_end };
      n <- n + 1
    done;
    dgl_is inp q b n
  let ghost slen_some (m: map int int) (p i: int) : unit
    requires { 0 < p /\ 0 <= i <= 4611686018427387903 /\ m[p+i] = 0 }
    ensures { str m p /\ slen m p <= i }
  = let ref n = 0 in
    while pure { m[p+n] <> 0 } do
      invariant { 0 <= n <= i /\ forall a. p <= a < p + n -> m[a] <> 0 }
      variant { i - n }
      n <- n + 1
    done;
    slen_is m p n
  (* characters by name *)
  predicate name_char (c: int) = 97 <= c <= 122 \/ c = 42
  predicate oct_char (c: int) = 48 <= c <= 55
  predicate hex_char (c: int) = 48 <= c <= 57 \/ 97 <= c <= 102 \/ 65 <= c <= 70
  predicate named (q: int) = name_char inp[q] /\ name_char inp[q+1] /\ not (inp[q] = 120 /\ hex_char inp[q+1])
  predicate n_seofs (q: int) = inp[q] = 42 /\ inp[q + 1] = 101 /\ inp[q + 2] = 111 /\ inp[q + 3] = 102 /\ inp[q + 4] = 42 /\ not name_char inp[q + 5]
  predicate n_nul (q: int) = inp[q] = 110 /\ inp[q + 1] = 117 /\ inp[q + 2] = 108 /\ not name_char inp[q + 3]
  predicate n_alarm (q: int) = inp[q] = 97 /\ inp[q + 1] = 108 /\ inp[q + 2] = 97 /\ inp[q + 3] = 114 /\ inp[q + 4] = 109 /\ not name_char inp[q + 5]
  predicate n_backspace (q: int) = inp[q] = 98 /\ inp[q + 1] = 97 /\ inp[q + 2] = 99 /\ inp[q + 3] = 107 /\ inp[q + 4] = 115 /\ inp[q + 5] = 112 /\ inp[q + 6] = 97 /\ inp[q + 7] = 99 /\ inp[q + 8] = 101 /\ not name_char inp[q + 9]
  predicate n_tab (q: int) = inp[q] = 116 /\ inp[q + 1] = 97 /\ inp[q + 2] = 98 /\ not name_char inp[q + 3]
  predicate n_linefeed (q: int) = inp[q] = 108 /\ inp[q + 1] = 105 /\ inp[q + 2] = 110 /\ inp[q + 3] = 101 /\ inp[q + 4] = 102 /\ inp[q + 5] = 101 /\ inp[q + 6] = 101 /\ inp[q + 7] = 100 /\ not name_char inp[q + 8]
  predicate n_newline (q: int) = inp[q] = 110 /\ inp[q + 1] = 101 /\ inp[q + 2] = 119 /\ inp[q + 3] = 108 /\ inp[q + 4] = 105 /\ inp[q + 5] = 110 /\ inp[q + 6] = 101 /\ not name_char inp[q + 7]
  predicate n_vtab (q: int) = inp[q] = 118 /\ inp[q + 1] = 116 /\ inp[q + 2] = 97 /\ inp[q + 3] = 98 /\ not name_char inp[q + 4]
  predicate n_page (q: int) = inp[q] = 112 /\ inp[q + 1] = 97 /\ inp[q + 2] = 103 /\ inp[q + 3] = 101 /\ not name_char inp[q + 4]
  predicate n_return (q: int) = inp[q] = 114 /\ inp[q + 1] = 101 /\ inp[q + 2] = 116 /\ inp[q + 3] = 117 /\ inp[q + 4] = 114 /\ inp[q + 5] = 110 /\ not name_char inp[q + 6]
  predicate n_esc (q: int) = inp[q] = 101 /\ inp[q + 1] = 115 /\ inp[q + 2] = 99 /\ not name_char inp[q + 3]
  predicate n_space (q: int) = inp[q] = 115 /\ inp[q + 1] = 112 /\ inp[q + 2] = 97 /\ inp[q + 3] = 99 /\ inp[q + 4] = 101 /\ not name_char inp[q + 5]
  predicate n_bel (q: int) = inp[q] = 98 /\ inp[q + 1] = 101 /\ inp[q + 2] = 108 /\ not name_char inp[q + 3]
  predicate n_bs (q: int) = inp[q] = 98 /\ inp[q + 1] = 115 /\ not name_char inp[q + 2]
  predicate n_ht (q: int) = inp[q] = 104 /\ inp[q + 1] = 116 /\ not name_char inp[q + 2]
  predicate n_vt (q: int) = inp[q] = 118 /\ inp[q + 1] = 116 /\ not name_char inp[q + 2]
  predicate n_cr (q: int) = inp[q] = 99 /\ inp[q + 1] = 114 /\ not name_char inp[q + 2]
  predicate known_name (q: int) = n_seofs q \/ n_nul q \/ n_alarm q \/ n_backspace q \/ n_tab q \/ n_linefeed q \/ n_newline q \/ n_vtab q \/ n_page q \/ n_return q \/ n_esc q \/ n_space q \/ n_bel q \/ n_bs q \/ n_ht q \/ n_vt q \/ n_cr q
  function name_value (q: int) : int = if n_seofs q then 0 - 1 else if n_nul q then 0 else if n_alarm q then 7 else if n_backspace q then 8 else if n_tab q then 9 else if n_linefeed q then 10 else if n_newline q then 10 else if n_vtab q then 11 else if n_page q then 12 else if n_return q then 13 else if n_esc q then 27 else if n_space q then 32 else if n_bel q then 7 else if n_bs q then 8 else if n_ht q then 9 else if n_vt q then 11 else if n_cr q then 13 else 0
  function name_end (q: int) : int = if n_seofs q then q + 5 else if n_nul q then q + 3 else if n_alarm q then q + 5 else if n_backspace q then q + 9 else if n_tab q then q + 3 else if n_linefeed q then q + 8 else if n_newline q then q + 7 else if n_vtab q then q + 4 else if n_page q then q + 4 else if n_return q then q + 6 else if n_esc q then q + 3 else if n_space q then q + 5 else if n_bel q then q + 3 else if n_bs q then q + 2 else if n_ht q then q + 2 else if n_vt q then q + 2 else if n_cr q then q + 2 else q
  let ghost cmp_name (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { 0 <= slen m l /\ forall a. l <= a < l + slen m l -> name_char m[a] }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> ((forall a. l <= a < l + slen m l -> m[a] = inp[q+(a-l)]) /\ not name_char inp[q + slen m l]) }
  = let k = slen m l in
    if r = 0 then assert { forall a. l <= a < l + k -> m[a] = m[b + (a - l)] by m[b + (a - l)] = m[l + (b + (a - l) - b)] }
    else if pure { (forall a. l <= a < l + k -> m[a] = inp[q+(a-l)]) /\ not name_char inp[q+k] } then begin
      (if n < k then assert { m[l+n] = inp[q + (l + n - l)] } else if k < n then assert { m[b+k] = inp[q + (b + k - b)] });
      assert { n = k };
      assert { forall x. b <= x < b + n -> m[x] = m[l + (x - b)] by m[l + (x - b)] = inp[q + (l + (x - b) - l)] };
      absurd
    end
  let ghost cmp_seofs (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 5 /\ m[l + 0] = 42 /\ m[l + 1] = 101 /\ m[l + 2] = 111 /\ m[l + 3] = 102 /\ m[l + 4] = 42 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_seofs q }
    ensures { r = 0 -> n = 5 }
  = assert { forall a. l <= a < l + 5 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 };
    assert { forall a. l <= a < l + 5 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 42 /\ inp[q + (l + 1 - l)] = 101 /\ inp[q + (l + 2 - l)] = 111 /\ inp[q + (l + 3 - l)] = 102 /\ inp[q + (l + 4 - l)] = 42 }
  let ghost cmp_nul (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 3 /\ m[l + 0] = 110 /\ m[l + 1] = 117 /\ m[l + 2] = 108 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_nul q }
    ensures { r = 0 -> n = 3 }
  = assert { forall a. l <= a < l + 3 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 };
    assert { forall a. l <= a < l + 3 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 110 /\ inp[q + (l + 1 - l)] = 117 /\ inp[q + (l + 2 - l)] = 108 }
  let ghost cmp_alarm (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 5 /\ m[l + 0] = 97 /\ m[l + 1] = 108 /\ m[l + 2] = 97 /\ m[l + 3] = 114 /\ m[l + 4] = 109 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_alarm q }
    ensures { r = 0 -> n = 5 }
  = assert { forall a. l <= a < l + 5 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 };
    assert { forall a. l <= a < l + 5 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 97 /\ inp[q + (l + 1 - l)] = 108 /\ inp[q + (l + 2 - l)] = 97 /\ inp[q + (l + 3 - l)] = 114 /\ inp[q + (l + 4 - l)] = 109 }
  let ghost cmp_backspace (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 9 /\ m[l + 0] = 98 /\ m[l + 1] = 97 /\ m[l + 2] = 99 /\ m[l + 3] = 107 /\ m[l + 4] = 115 /\ m[l + 5] = 112 /\ m[l + 6] = 97 /\ m[l + 7] = 99 /\ m[l + 8] = 101 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_backspace q }
    ensures { r = 0 -> n = 9 }
  = assert { forall a. l <= a < l + 9 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 \/ a = l + 5 \/ a = l + 6 \/ a = l + 7 \/ a = l + 8 };
    assert { forall a. l <= a < l + 9 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 98 /\ inp[q + (l + 1 - l)] = 97 /\ inp[q + (l + 2 - l)] = 99 /\ inp[q + (l + 3 - l)] = 107 /\ inp[q + (l + 4 - l)] = 115 /\ inp[q + (l + 5 - l)] = 112 /\ inp[q + (l + 6 - l)] = 97 /\ inp[q + (l + 7 - l)] = 99 /\ inp[q + (l + 8 - l)] = 101 }
  let ghost cmp_tab (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 3 /\ m[l + 0] = 116 /\ m[l + 1] = 97 /\ m[l + 2] = 98 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_tab q }
    ensures { r = 0 -> n = 3 }
  = assert { forall a. l <= a < l + 3 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 };
    assert { forall a. l <= a < l + 3 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 116 /\ inp[q + (l + 1 - l)] = 97 /\ inp[q + (l + 2 - l)] = 98 }
  let ghost cmp_linefeed (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 8 /\ m[l + 0] = 108 /\ m[l + 1] = 105 /\ m[l + 2] = 110 /\ m[l + 3] = 101 /\ m[l + 4] = 102 /\ m[l + 5] = 101 /\ m[l + 6] = 101 /\ m[l + 7] = 100 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_linefeed q }
    ensures { r = 0 -> n = 8 }
  = assert { forall a. l <= a < l + 8 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 \/ a = l + 5 \/ a = l + 6 \/ a = l + 7 };
    assert { forall a. l <= a < l + 8 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 108 /\ inp[q + (l + 1 - l)] = 105 /\ inp[q + (l + 2 - l)] = 110 /\ inp[q + (l + 3 - l)] = 101 /\ inp[q + (l + 4 - l)] = 102 /\ inp[q + (l + 5 - l)] = 101 /\ inp[q + (l + 6 - l)] = 101 /\ inp[q + (l + 7 - l)] = 100 }
  let ghost cmp_newline (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 7 /\ m[l + 0] = 110 /\ m[l + 1] = 101 /\ m[l + 2] = 119 /\ m[l + 3] = 108 /\ m[l + 4] = 105 /\ m[l + 5] = 110 /\ m[l + 6] = 101 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_newline q }
    ensures { r = 0 -> n = 7 }
  = assert { forall a. l <= a < l + 7 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 \/ a = l + 5 \/ a = l + 6 };
    assert { forall a. l <= a < l + 7 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 110 /\ inp[q + (l + 1 - l)] = 101 /\ inp[q + (l + 2 - l)] = 119 /\ inp[q + (l + 3 - l)] = 108 /\ inp[q + (l + 4 - l)] = 105 /\ inp[q + (l + 5 - l)] = 110 /\ inp[q + (l + 6 - l)] = 101 }
  let ghost cmp_vtab (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 4 /\ m[l + 0] = 118 /\ m[l + 1] = 116 /\ m[l + 2] = 97 /\ m[l + 3] = 98 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_vtab q }
    ensures { r = 0 -> n = 4 }
  = assert { forall a. l <= a < l + 4 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 };
    assert { forall a. l <= a < l + 4 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 118 /\ inp[q + (l + 1 - l)] = 116 /\ inp[q + (l + 2 - l)] = 97 /\ inp[q + (l + 3 - l)] = 98 }
  let ghost cmp_page (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 4 /\ m[l + 0] = 112 /\ m[l + 1] = 97 /\ m[l + 2] = 103 /\ m[l + 3] = 101 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_page q }
    ensures { r = 0 -> n = 4 }
  = assert { forall a. l <= a < l + 4 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 };
    assert { forall a. l <= a < l + 4 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 112 /\ inp[q + (l + 1 - l)] = 97 /\ inp[q + (l + 2 - l)] = 103 /\ inp[q + (l + 3 - l)] = 101 }
  let ghost cmp_return (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 6 /\ m[l + 0] = 114 /\ m[l + 1] = 101 /\ m[l + 2] = 116 /\ m[l + 3] = 117 /\ m[l + 4] = 114 /\ m[l + 5] = 110 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_return q }
    ensures { r = 0 -> n = 6 }
  = assert { forall a. l <= a < l + 6 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 \/ a = l + 5 };
    assert { forall a. l <= a < l + 6 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 114 /\ inp[q + (l + 1 - l)] = 101 /\ inp[q + (l + 2 - l)] = 116 /\ inp[q + (l + 3 - l)] = 117 /\ inp[q + (l + 4 - l)] = 114 /\ inp[q + (l + 5 - l)] = 110 }
  let ghost cmp_esc (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 3 /\ m[l + 0] = 101 /\ m[l + 1] = 115 /\ m[l + 2] = 99 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_esc q }
    ensures { r = 0 -> n = 3 }
  = assert { forall a. l <= a < l + 3 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 };
    assert { forall a. l <= a < l + 3 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 101 /\ inp[q + (l + 1 - l)] = 115 /\ inp[q + (l + 2 - l)] = 99 }
  let ghost cmp_space (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 5 /\ m[l + 0] = 115 /\ m[l + 1] = 112 /\ m[l + 2] = 97 /\ m[l + 3] = 99 /\ m[l + 4] = 101 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_space q }
    ensures { r = 0 -> n = 5 }
  = assert { forall a. l <= a < l + 5 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 \/ a = l + 3 \/ a = l + 4 };
    assert { forall a. l <= a < l + 5 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 115 /\ inp[q + (l + 1 - l)] = 112 /\ inp[q + (l + 2 - l)] = 97 /\ inp[q + (l + 3 - l)] = 99 /\ inp[q + (l + 4 - l)] = 101 }
  let ghost cmp_bel (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 3 /\ m[l + 0] = 98 /\ m[l + 1] = 101 /\ m[l + 2] = 108 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_bel q }
    ensures { r = 0 -> n = 3 }
  = assert { forall a. l <= a < l + 3 -> a = l + 0 \/ a = l + 1 \/ a = l + 2 };
    assert { forall a. l <= a < l + 3 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 98 /\ inp[q + (l + 1 - l)] = 101 /\ inp[q + (l + 2 - l)] = 108 }
  let ghost cmp_bs (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 2 /\ m[l + 0] = 98 /\ m[l + 1] = 115 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_bs q }
    ensures { r = 0 -> n = 2 }
  = assert { forall a. l <= a < l + 2 -> a = l + 0 \/ a = l + 1 };
    assert { forall a. l <= a < l + 2 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 98 /\ inp[q + (l + 1 - l)] = 115 }
  let ghost cmp_ht (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 2 /\ m[l + 0] = 104 /\ m[l + 1] = 116 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_ht q }
    ensures { r = 0 -> n = 2 }
  = assert { forall a. l <= a < l + 2 -> a = l + 0 \/ a = l + 1 };
    assert { forall a. l <= a < l + 2 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 104 /\ inp[q + (l + 1 - l)] = 116 }
  let ghost cmp_vt (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 2 /\ m[l + 0] = 118 /\ m[l + 1] = 116 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_vt q }
    ensures { r = 0 -> n = 2 }
  = assert { forall a. l <= a < l + 2 -> a = l + 0 \/ a = l + 1 };
    assert { forall a. l <= a < l + 2 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 118 /\ inp[q + (l + 1 - l)] = 116 }
  let ghost cmp_cr (m: map int int) (b l n q r: int) : unit
    requires { slen m b = n /\ forall a. b <= a < b + n -> m[a] = inp[q+(a-b)] /\ name_char m[a] }
    requires { 0 <= n /\ not name_char inp[q+n] }
    requires { slen m l = 2 /\ m[l + 0] = 99 /\ m[l + 1] = 114 }
    requires { r = 0 <-> (slen m b = slen m l /\ forall x. b <= x < b + slen m b -> m[x] = m[l + (x - b)]) }
    ensures { r = 0 <-> n_cr q }
    ensures { r = 0 -> n = 2 }
  = assert { forall a. l <= a < l + 2 -> a = l + 0 \/ a = l + 1 };
    assert { forall a. l <= a < l + 2 -> name_char m[a] };
    cmp_name m b l n q r;
    assert { r = 0 -> inp[q + (l + 0 - l)] = 99 /\ inp[q + (l + 1 - l)] = 114 }
end
